"""P16: rational exponents form one type per value.

Ways of arriving at exponents (spellings in definitions, products and quotients of all pairs,
all histories of powers and roots up to a depth) are enumerated; the identity of the resulting
Rust type is observed and compared with the identity of the exact exponents."""
import itertools

from .core import *
from .usys import *

PRE = """
use std::any::TypeId;
fn id<S: 'static, const D: Dimension>(_: &Quantity<S, D>) -> String where Quantity<S, D>: 'static { format!("{:?} {:?}", TypeId::of::<Quantity<S, D>>(), D) }
fn one<const D: Dimension>() -> Quantity<f64, D> { Quantity::new_unchecked(1.0) }
"""


def exponents(n, d):
    return sorted({Fr(a, b) for a in range(-n, n + 1) for b in range(1, d + 1)})


def spell(f, k, sign):
    a, b = f.numerator * k * sign, f.denominator * k * sign
    return f"({a}/{b})"


def definitions(deep):
    """(text of a dimension expression over A and B, exponents)"""
    E = exponents(4 if deep else 3, 4 if deep else 3)
    for e in E:
        for k in (1, 2, 3, 10, 65537) if deep else (1, 2, 6):
            for s in (1, -1):
                yield f"A^{spell(e, k, s)}", (e, Fr(0))
        if e.denominator == 1:
            yield f"A^{int(e)}", (e, Fr(0))
        yield f"1 / A^{spell(-e, 1, 1)}", (e, Fr(0))
        yield f"A^{spell(e, 2, -1)} * B / B", (e, Fr(0))
        yield f"(A * B^{spell(e, 1, 1)}) / A^{spell(Fr(1), 4, -1)}", (Fr(0), e)
    for a, b in itertools.product(E, repeat=2) if deep else itertools.combinations_with_replacement(E, 2):
        yield f"A^{spell(a, 1, 1)} * A^{spell(b, 2, -1)}", (a + b, Fr(0))
        yield f"A^{spell(a, 2, 1)} / A^{spell(b, 1, -1)}", (a - b, Fr(0))
        yield f"A^{spell(a, 1, -1)} B^{spell(b, 3, 1)}", (a, b)
    for e in E:
        for f in E:
            # powers of names defined with powers, H_e = A^e
            yield f"H_{E.index(e)}^{spell(f, 2, -1)}", (e * f, Fr(0))
            if deep:
                yield f"H_{E.index(e)} / H_{E.index(f)}", (e - f, Fr(0))
    for p, q in ((65537, 2), (1, 65537), (1000003, 1000033), (-7, 1001), (2**31 - 1, 2), (1, 2**31 - 1)):
        yield f"A^({p}/{q})", (Fr(p, q), Fr(0))
        yield f"A^({-p}/{-q})", (Fr(p, q), Fr(0))
        yield f"A^({p}/{q}) * A^({-p}/{q})", (Fr(0), Fr(0))
        yield f"A^({p}/{q}) * A^({q - p}/{q})", (Fr(1), Fr(0))


OPS = {
    "sqrt": ("({x}).sqrt()", lambda v: v / 2), "cbrt": ("({x}).cbrt()", lambda v: v / 3), "squared": ("({x}).squared()", lambda v: v * 2), "cubed": ("({x}).cubed()", lambda v: v * 3),
    "powi -1": ("({x}).powi::<-1>()", lambda v: -v), "powi 4": ("({x}).powi::<4>()", lambda v: v * 4), "powi -6": ("({x}).powi::<-6>()", lambda v: v * -6), "powi 0": ("({x}).powi::<0>()", lambda v: v * 0),
    "inverse": ("1.0f64 / ({x})", lambda v: -v), "times a": ("({x}) * one::<ALEN>()", None), "over sqrt a": ("({x}) / one::<ALEN>().sqrt()", None),
}
ADD = {"times a": Fr(1), "over sqrt a": Fr(-1, 2)}


def main():
    run = Run("P16")
    art = build("rational")
    E = exponents(4 if run.thorough else 3, 4 if run.thorough else 3)
    ids = {}      # exponents -> identity
    rev = {}      # identity -> exponents

    def see(key, want, got, code):
        run.transitions += 1
        run.validated += 1
        run.states.add(tuple(want))
        if got is None or not got.startswith("TypeId"):
            run.violation(key, f"{got}", dict(code=code))
            return
        if ids.setdefault(tuple(want), got) != got:
            run.violation(key, f"exponents {tuple(map(str, want))}: this type is {got}, another way of arriving there gives {ids[tuple(want)]}", dict(code=code))
        elif rev.setdefault(got, tuple(want)) != tuple(want):
            run.violation(key, f"exponents {tuple(map(str, want))} and {tuple(map(str, rev[got]))} have the same type {got}", dict(code=code))

    defs = list(dict(definitions(run.thorough)).items())
    head = "diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension A; dimension B; #[base(A)] #[symbol(m)] unit ua; #[base(B)] #[symbol(s)] unit ub;\n"
    hs = "".join(f"dimension H_{i} = A^{spell(e, 1, 1)};" for i, e in enumerate(E)) + "\n"
    # the same expressions as dimensions, annotated units (any mismatch is a macro error), units and constants
    body = "".join(f"dimension X_{i} = {t};\n" for i, (t, v) in enumerate(defs))
    ut = lambda t: re.sub(r"H_([0-9]+)", r"h_\1", t.replace("A", "ua").replace("B", "ub"))
    hu = "".join(f"unit h_{i} = ua^{spell(e, 1, 1)};" for i, e in enumerate(E)) + "\n"
    units = "".join(f"{'unit' if i % 3 else 'constant'} x_{i}: X_{i} = {ut(t)};\n" for i, (t, v) in enumerate(defs))
    sysd = head + hs + hu + body + units + ");\n"
    cs = []
    for i, (t, v) in enumerate(defs):
        cs.append(Obs(f"dimension {t}", f"let q: dimensions::X_{i}<f64> = one(); id(&q)", v, ("def", t)))
        m = "units" if i % 3 else "constants"
        cs.append(Obs(f"{m[:-1]} {ut(t)}", f"id(&(1.0f64 * {m}::x_{i}))", v, ("def", t)))
    # products, quotients, sums, comparisons of differently spelled exponents
    for (i, a), (j, b) in itertools.product(enumerate(E), repeat=2):
        for s in ("f64",):
            cs.append(Obs(f"product {a} {b}", f"let (x, y): (dimensions::H_{i}<f64>, dimensions::H_{j}<f64>) = (one(), one()); let z = x * y; id(&z)", (a + b, Fr(0))))
            cs.append(Obs(f"quotient {a} {b}", f"let (x, y): (dimensions::H_{i}<f64>, dimensions::H_{j}<f64>) = (one(), one()); let z = x / &y; id(&z)", (a - b, Fr(0))))
        cs.append(Obs(f"unit product {a} {b}", f"id(&(1.0f64 * (units::h_{i} * units::h_{j})))", (a + b, Fr(0))))
        cs.append(Obs(f"unit quotient {a} {b}", f"id(&(1.0f64 * (units::h_{i} / units::h_{j})))", (a - b, Fr(0))))
    # histories of powers and roots
    depth = 4 if run.thorough else 3
    ops = list(OPS) if not run.thorough else [o for o in OPS if o not in ("powi 0",)]
    for n in range(1, depth + 1):
        for h in itertools.product(ops, repeat=n):
            for start in (Fr(1),) if n == depth else (Fr(1), Fr(-2, 3), Fr(5, 2)):
                v = start
                lets = f"let x0: dimensions::H_{E.index(start)}<f64> = one();" if start in E else f"let x0 = units::ua * 1.0f64; let x0 = x0.powi::<5>().sqrt();"
                for k, o in enumerate(h):
                    lets += f" let x{k + 1} = " + OPS[o][0].format(x=f"x{k}").replace("one::<ALEN>()", "la()") + ";"
                    v = v + ADD[o] if o in ADD else OPS[o][1](v)
                cs.append(Obs(f"history {start}: {', '.join(h)}", lets + f" id(&x{n})", (v, Fr(0))))
    pre = sysd + PRE + "fn la() -> dimensions::A<f64> { one() }\n"
    # vectors and the other float type
    for i, e in enumerate(E):
        for s in ("f32", "glam::DVec3", "glam::Vec2"):
            cs.append(Obs(f"storage {s} {e}", f"let q: dimensions::H_{i}<{s}> = Quantity::new_unchecked(Default::default()); let f = q.value_unchecked(); let r: dimensions::H_{i}<f64> = one(); id(&r)", (e, Fr(0))))
    observe(run, "q", pre, cs, art, chunk=len(cs) // (JOBS * (4 if run.thorough else 1)) + 1)
    # type identities are stable between the programs: the crate is part of the identity, so
    # compare within one program only by the exponents printed next to it
    import collections
    for c in cs:
        g = c.got
        if g and g.startswith("TypeId"):
            c.got = "TypeId " + g[g.index("Dimension"):]
    # structural identity of the constant decides type identity; checked inside each program too
    for c in cs:
        run.outcome(c.key.split(" ")[0])
        see(c.key, c.expect, c.got, c.expr)
    # inside one program: exponents <-> TypeId
    src = pre + "fn main() { let mut l: Vec<(String, String)> = Vec::new();\n"
    pick = [c for c in cs if c.got and c.got.startswith("TypeId")][:: max(1, len(cs) // 900)]
    src = HEADER + pre + "\n" + "".join(f"fn c{i}() -> String {{ {c.expr} }}\n" for i, c in enumerate(pick)) + "fn main() {" + "".join(f'println!("{{}}", c{i}());' for i in range(len(pick))) + "}\n"
    kind, r = run_program(run, "ids", src.replace(HEADER, ""), art, soft=True)
    if kind == "compile" or r.returncode:
        run.violation("type identities", r.text(300) if kind == "compile" else r.stderr[-300:])
    else:
        tid, rev2 = {}, {}
        for c, l in zip(pick, r.stdout.splitlines()):
            t = l.split(" Dimension")[0]
            run.transitions += 1
            run.validated += 1
            if tid.setdefault(tuple(c.expect), t) != t or rev2.setdefault(t, tuple(c.expect)) != tuple(c.expect):
                run.violation(c.key, f"type identity {t} of exponents {tuple(map(str, c.expect))} is not unique")
        run.outcome("identities compared in one program", len(pick))
    # programs that need the types to be equal or different
    cases = []
    for i, (t, v) in enumerate(defs[:: 1 if run.thorough else 5]):
        i = defs.index((t, v))
        for j in [k for k, (_, w) in enumerate(defs) if w == v][:3] + [k for k, (_, w) in enumerate(defs) if w != v][i % 7 : i % 7 + 2]:
            same = defs[j][1] == v
            n = len(cases)
            cases.append(Case(f"assign {t} to {defs[j][0]}", f"fn f{n}(x: dimensions::X_{i}<f64>, y: dimensions::X_{j}<f64>) -> dimensions::X_{j}<f64> {{ let z = x + y; z }}", same))
    for i, e in enumerate(E):
        for o, (code, fn) in OPS.items():
            if o in ADD:
                continue
            for w in sorted({fn(e), e, -fn(e), fn(e) + Fr(1, 6)}):
                if w in E:
                    n = len(cases)
                    cases.append(Case(f"annotate {o} of {e} as {w}", f"fn f{n}(x: dimensions::H_{i}<f64>) -> dimensions::H_{E.index(w)}<f64> {{ let y = {code.format(x='x')}; y }}", w == fn(e)))
    decide(run, "d", pre, cases, art, batch=150)
    check_decisions(run, "d", cases)
    # annotations and aliases: the macro itself compares a dimension spelled in one way with a
    # definition spelled in another way
    anns = []
    byval = {}
    for t, v in defs:
        byval.setdefault(v, []).append(t)
    base = "dimension A; dimension B; #[base(A)] #[symbol(m)] unit ua; #[base(B)] #[symbol(s)] unit ub; "

    def system(n, pairs):
        used = sorted({int(k) for p in pairs for k in re.findall("H_([0-9]+)", " ".join(p))})
        out = base + "".join(f"dimension H_{k} = A^{spell(E[k], 1, 1)}; unit h_{k} = ua^{spell(E[k], 2, -1)}; " for k in used)
        for k, (t, u) in enumerate(pairs):
            kind = ("unit x_{k}: X_{k} = {u};", "constant x_{k}: X_{k} = {u};", "unit x_{k}: X_{k} = 2.5 * {u};", "unit y_{k} = {u}; constant x_{k}: X_{k} = 3 * y_{k};")[(n + k) % 4]
            out += f"dimension X_{k} = {t}; " + kind.format(k=k, u=ut(u)) + " "
        return f"mod n{n} {{ diman::unit_system!( quantity_type Quantity; dimension_type Dimension; {out} ); }}"

    accept, reject = [], []
    for v, ts in sorted(byval.items()):
        off = [w for w in ((v[0] + Fr(1, 6), v[1]), (v[0], v[1] + Fr(1, 6)), (-v[0], -v[1]), (v[1], v[0]), (v[0] + 1, v[1]), (v[0] + Fr(1, 2), v[1])) if w != v and w in byval]
        powers = [t for t in ts if "H_" in t]
        for i, t in enumerate(ts):
            others = [ts[(i + 1) % len(ts)]] + (powers[i % len(powers):][:1] if powers else []) + (ts[:1] if run.thorough else [])
            for u in dict.fromkeys(others):
                accept.append((t, u))
            if off and (run.thorough or i % 2 == 0):
                w = byval[off[i % len(off)]]
                reject.append((t, w[i % len(w)]))
    run.outcome("annotations of equal dimensions", len(accept))
    # those that must be accepted share systems; each one that must be rejected has its own
    for i in range(0, len(accept), 50):
        anns.append(Case(f"annotations {i}..: {accept[i]}", system(len(anns), accept[i : i + 50]), True, accept[i : i + 50]))
    for i in range(0, len(reject), 1 if run.thorough else 6):
        anns.append(Case(f"annotate {ut(reject[i][1])} as {reject[i][0]}", system(len(anns), [reject[i]]), False))
    decide(run, "ann", "", anns, art, batch=9)
    check_decisions(run, "ann", anns)
    run.transitions += len(accept)
    run.validated += len(accept)
    check_decisions(run, "ann", anns)
    for c in cs[:: len(cs) // 10]:
        run.sample(f"{c.key} -> {tuple(map(str, c.expect))}")
    run.assumptions = ["exponents whose numerators and denominators stay below 2^31 and whose sums do not overflow 64-bit integers"]
    return run.finish()
