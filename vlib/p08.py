"""P08: definition expressions denote their mathematical value and dimension.

All expressions up to a bounded number of factors over the full operator alphabet, and all
reference chains up to a bounded depth, are put into unit systems (as unit, constant and
dimension definitions); factor and dimension are read back from the compiled program and
compared with exact rational evaluation of the expression tree."""
import decimal
import itertools
import re
from fractions import Fraction as Fr

from .core import *

HEAD = """diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension A; dimension B; dimension V = A / B; dimension W = A^2 * B;
#[base(A)] #[symbol(ua)] #[prefix(kilo)] unit ua; #[base(B)] #[symbol(ub)] unit ub; unit u7 = 7 * ua / ub; constant K5 = 5 * ub; constant K11 = 11;
"""
NHEAD = HEAD.count("\n")
POST = """);
fn obs<const D: Dimension>(i: usize, q: Quantity<f64, D>) { println!("{}\\t{:?}\\t{:?}", i, q.value_unchecked(), D); }
"""
# identifiers and numbers: (text, factor, dimension)
ATOMS = {
    "2": (Fr(2), (0, 0)), "1.5": (Fr(3, 2), (0, 0)), "1": (Fr(1), (0, 0)), "-3.0": (Fr(-3), (0, 0)), "1e3": (Fr(1000), (0, 0)),
    "ua": (Fr(1), (1, 0)), "ub": (Fr(1), (0, 1)), "u7": (Fr(7), (1, -1)), "kiloua": (Fr(1000), (1, 0)), "K5": (Fr(5), (0, 1)), "K11": (Fr(11), (0, 0)),
}
DATOMS = {"1": (Fr(1), (0, 0)), "1.0": (Fr(1), (0, 0)), "A": (Fr(1), (1, 0)), "B": (Fr(1), (0, 1)), "V": (Fr(1), (1, -1)), "W": (Fr(1), (2, 1))}


def leaf(a, p, atoms):
    f, v = atoms[a]
    if p is None:
        return (a, f, v, a[0].isalpha())
    return (f"{a}^{p}", f**p, (v[0] * p, v[1] * p), a[0].isalpha())


def group(e, paren=True):
    return (f"({e[0]})", e[1], e[2], False) if paren else e


def combine(l, op, r):
    """l op r; l may be any expression, r must be a factor (leaf or group)"""
    if op == "/":
        return (f"{l[0]} / {r[0]}", l[1] / r[1], (l[2][0] - r[2][0], l[2][1] - r[2][1]), l[3])
    t = f"{l[0]} * {r[0]}" if op == "*" else f"{l[0]} {r[0]}"
    return (t, l[1] * r[1], (l[2][0] + r[2][0], l[2][1] + r[2][1]), l[3])


def trees(n, leaves, memo):
    """All expressions with exactly n leaves: (expression, is a bare chain?)"""
    if n in memo:
        return memo[n]
    if n == 1:
        out = list(leaves)
    else:
        out = []
        for k in range(1, n):
            for l in trees(k, leaves, memo):
                for r in trees(n - k, leaves, memo):
                    rr = r if n - k == 1 else group(r)
                    lefts = [l] if k == 1 else [l, group(l)]
                    for ll in lefts:
                        for op in "*/ ":
                            if op == " " and not (n - k == 1 and r[3]):
                                continue
                            out.append(combine(ll, op, rr))
    memo[n] = out
    return out


def expressions(deep, dims):
    atoms = DATOMS if dims else ATOMS
    pows = [None, -3, -2, -1, 0, 1, 2, 3, 4]
    full = [leaf(a, p, atoms) for a in atoms for p in pows]
    if dims:
        full = [x for x in full]
    yield from full
    yield from (group(x) for x in full)
    yield from (group(group(x)) for x in full[::3])
    mid = [leaf(a, p, atoms) for a in atoms for p in (None, -2, -1, 0, 2)]
    yield from trees(2, mid, {})
    yield from (group(x) for x in trees(2, mid, {})[::7])
    if dims:
        l3 = [("A", None), ("V", -2), ("W", None), ("1", None), ("B", 0)]
        l4 = [("A", None), ("V", -1), ("W", 2)]
        l5 = [("A", None), ("V", -1)]
    else:
        l3 = [("2", None), ("ua", -2), ("u7", None), ("K5", -1), ("kiloua", None), ("K11", 2), ("1.5", None)]
        l4 = [("2", None), ("u7", -1), ("K5", 2)]
        l5 = [("2", 3), ("u7", None)]
    if deep:
        l3 += [("ub", 3), ("1", None)] if not dims else [("W", 3)]
        l4 += [("ua", None)] if not dims else []
    yield from trees(3, [leaf(a, p, atoms) for a, p in l3], {})
    yield from trees(4, [leaf(a, p, atoms) for a, p in l4], {})
    if deep:
        yield from trees(5, [leaf(a, p, atoms) for a, p in l5], {})


def close(a, want, bits=44):
    try:
        g = Fr(float(a))
    except (ValueError, OverflowError):
        return False
    return abs(g - want) <= abs(want) * Fr(1, 2**bits)


def run_systems(run, name, systems, bits=44):
    """systems: lists of (key, kind, ident, definition text, factor, dimension)"""
    art = build("core")

    def work(ix):
        i, defs = ix
        src = HEAD + "".join(f"{kind} {ident} = {text};\n" for _, kind, ident, text, _, _ in defs) + POST
        for j in range(0, len(defs), 50):
            src += f"fn f{j}() {{\n"
            for k in range(j, min(j + 50, len(defs))):
                _, kind, ident, _, _, _ = defs[k]
                src += (f"obs({k}, Quantity::new_unchecked(1.0) as dimensions::{ident}<f64>);\n" if kind == "dimension" else f"obs({k}, 1.0f64 * {kind}s::{ident});\n")
            src += "}\n"
        src += "fn main() {" + "".join(f"f{j}();" for j in range(0, len(defs), 50)) + "}\n"
        kind, r = run_program(run, f"{name}{i}", src, art, soft=True)
        got = {}
        fail = None
        if kind == "compile":
            first = HEADER.count("\n") + NHEAD + 1
            hit = {}
            for d in r.diags:
                for ln in d.lines:
                    if first <= ln < first + len(defs):
                        hit.setdefault(ln - first, d.message)
            fail = hit or {0: r.text(500)}
        elif r.returncode != 0:
            fail = {0: f"crashed: {r.stderr[-300:]}"}
        else:
            for line in r.stdout.splitlines():
                k, f, d = line.split("\t")
                m = re.search(r"\{\s*a: (-?\d+), b: (-?\d+)\s*\}", d)
                got[int(k)] = (f, (int(m.group(1)), int(m.group(2))) if m else d)
        return got, fail

    for defs, (got, fail) in zip(systems, pmap(work, list(enumerate(systems)))):
        if fail is not None:
            for k, msg in list(fail.items())[:20]:
                run.violation(f"{defs[k][1]}:{defs[k][0]}", f"`{defs[k][1]} x = {defs[k][3]}` does not compile: {msg}", None)
        for k, (key, kind, ident, text, f, v) in enumerate(defs):
            run.transitions += 1
            run.states.add((f, v))
            if fail is not None:
                continue
            run.validated += 1
            g = got.get(k)
            if g is None or not close(g[0], f, bits) or g[1] != v:
                run.violation(f"{kind}:{key}", f"`{kind} x = {text}` must have factor {f} and dimension {v}, observed {g}", dict(definition=text, expect=[str(f), v], got=g))


def chains(depth):
    """All chains of references up to the depth; every node is a unit or a constant."""
    steps = [("3 * {p}", lambda f, v: (3 * f, v)), ("{p}^2", lambda f, v: (f * f, (2 * v[0], 2 * v[1]))), ("1 / {p}", lambda f, v: (1 / f, (-v[0], -v[1]))),
             ("{p} ub", lambda f, v: (f, (v[0], v[1] + 1))), ("ua / (2 {p})", lambda f, v: (1 / (2 * f), (1 - v[0], -v[1])))]
    out = []

    def go(parent, f, v, d, path):
        if d == 0:
            return
        for i, (t, fn) in enumerate(steps):
            for kind in ("unit", "constant"):
                nf, nv = fn(f, v)
                name = f"{kind[0]}{path}{i}{kind[0]}"
                out.append((name, kind, name, t.format(p=parent), nf, nv))
                go(name, nf, nv, d - 1, f"{path}{i}{kind[0]}")

    roots = []
    for i, (t, fn) in enumerate(steps):
        for kind in ("unit", "constant"):
            out = []
            nf, nv = fn(Fr(7), (1, -1))
            name = f"{kind[0]}c{i}{kind[0]}"
            out.append((name, kind, name, t.format(p="u7"), nf, nv))
            go(name, nf, nv, depth - 1, f"c{i}{kind[0]}")
            roots.append(out)
    return roots


def deep_chains(n):
    """Long chains: n references deep, listed in reverse order of definition."""
    out, dims = [], []
    prev, f, v = "u7", Fr(7), (1, -1)
    for i in range(n):
        kind = "constant" if i % 3 == 1 else "unit"
        name = f"z{i}"
        if i % 2:
            text, f, v = f"2 * {prev} / ua", 2 * f, (v[0] - 1, v[1])
        else:
            text, f, v = f"{prev} ua / 2", f / 2, (v[0] + 1, v[1])
        out.append((name, kind, name, text, f, v))
        prev = name
    prev, v = "V", (1, -1)
    for i in range(n):
        name = f"Z{i}"
        text, v = (f"{prev} / B^2", (v[0], v[1] - 2)) if i % 2 else (f"{prev} * B * A", (v[0] + 1, v[1] + 1))
        dims.append((name, "dimension", name, text, Fr(1), v))
        prev = name
    return out[::-1] + dims[::-1]


def large_exponents():
    """Exponents up to and beyond the range of 32 bits; numbers so close to one that their powers
    are neither zero nor infinite."""
    exps = {n + d for n in (2**7, 2**8, 2**15, 2**16, 2**31, 2**32, 2**33) for d in (-1, 0, 1)} | {1000003, 3 * 10**9, 10**10 + 7}
    out = []
    with decimal.localcontext(decimal.Context(prec=90)):
        for k in (26, 30, 32, 34):
            for sign in (1, -1):
                base = 1 + sign * decimal.Decimal(2) ** -k
                for n in sorted(exps | {-n for n in exps}):
                    if abs(n) > 2 ** (k + 4):
                        continue
                    f = Fr(base ** n)
                    name = f"e{len(out)}"
                    t = f"{base:f}^{n}"
                    out.append((t, "unit" if len(out) % 3 else "constant", name, t, f, (0, 0)))
    for n in sorted(exps | {-n for n in exps} | {2**62, -(2**62), 2**63 - 1, 1 - 2**63}):
        for t, f, v in ((f"1^{n}", Fr(1), (0, 0)), (f"ua^{n}", Fr(1), (n, 0)), (f"ua^{n} / 2", Fr(1, 2), (n, 0))):
            out.append((t, "unit", f"e{len(out)}", t, f, v))
        out.append((f"A^{n}", "dimension", f"E{len(out)}", f"A^{n}", Fr(1), (n, 0)))
    return out


def root(f, e):
    """f^e for a fraction f > 0 (or a whole number e), to 60 digits."""
    e = Fr(e)
    if e.denominator == 1:
        return f ** e.numerator
    with decimal.localcontext(decimal.Context(prec=80, Emin=-99999, Emax=99999)):
        d = decimal.Decimal(f.numerator) / decimal.Decimal(f.denominator)
        return Fr(d ** (decimal.Decimal(e.numerator) / decimal.Decimal(e.denominator)))


# with rational dimensions: written exponent and its value
REXPS = {"0": Fr(0), "1": Fr(1), "2": Fr(2), "3": Fr(3), "(1/2)": Fr(1, 2), "(-1/2)": Fr(-1, 2), "(1/3)": Fr(1, 3), "(2/3)": Fr(2, 3), "(-3/2)": Fr(-3, 2), "(5/2)": Fr(5, 2), "(4/2)": Fr(2), "(2/4)": Fr(1, 2),
         "(6/3)": Fr(2), "(0/3)": Fr(0), "(3/3)": Fr(1), "(-2/1)": Fr(-2), "(1/7)": Fr(1, 7), "(7/5)": Fr(7, 5), "(-9/6)": Fr(-3, 2), "(12/8)": Fr(3, 2)}
RATOMS = {"2": (Fr(2), (0, 0)), "1.5": (Fr(3, 2), (0, 0)), "4": (Fr(4), (0, 0)), "1e3": (Fr(1000), (0, 0)), "1e-30": (Fr(1, 10**30), (0, 0)), "1e150": (Fr(10**150), (0, 0)), "-3.0": (Fr(-3), (0, 0)), "0.1": (Fr(1, 10), (0, 0)), "1": (Fr(1), (0, 0)),
          "ua": (Fr(1), (1, 0)), "kiloua": (Fr(1000), (1, 0)), "u7": (Fr(7), (1, -1)), "K5": (Fr(5), (0, 1)), "K11": (Fr(11), (0, 0))}


def rational_definitions(deep):
    """(text, factor, dimension) over the atoms, with chains of references that take powers of powers."""
    def lf(a, t):
        f, v = RATOMS[a]
        e = REXPS[t] if t else Fr(1)
        return (a + (f"^{t}" if t else ""), root(f, e), (v[0] * e, v[1] * e), a[0].isalpha())

    ok = lambda a, t: RATOMS[a][0] > 0 or not t or REXPS[t].denominator == 1
    leaves = [lf(a, t) for a in RATOMS for t in [None] + list(REXPS) if ok(a, t)]
    yield from leaves
    some = [lf(a, t) for a, t in (("2", "(1/2)"), ("4", "(-3/2)"), ("u7", "(1/2)"), ("u7", "(4/2)"), ("K5", "(2/3)"), ("kiloua", "(-1/2)"), ("ua", "(7/5)"), ("K11", None), ("1.5", "(2/4)"), ("u7", None), ("K5", "2"), ("-3.0", "(6/3)"))]
    for e in trees(2, some if not deep else leaves[::3] + some, {}):
        yield e
        if deep:
            yield group(e)
    yield from trees(3, some[1:6] if not deep else some[:8], {})


def rational(run, deep):
    """Factors and dimensions with rational exponents; the dimension is that of a separate definition."""
    art = build("rational")
    seen = {}
    for t, f, v, _ in rational_definitions(deep):
        if Fr(1, 10**290) < abs(f) < 10**290:
            seen.setdefault(t, (f, v))
    defs = list(seen.items())
    run.outcome("expressions with rational exponents", len(defs))
    ex = lambda e: f"({e.numerator}/{e.denominator})"
    per = max(400, len(defs) // JOBS + 1)

    def chunk(i):
        out = []
        for j, (t, (f, v)) in enumerate(defs[i * per : (i + 1) * per]):
            out.append((t, f, v))
            # powers of what has been defined, and of that again
            if f > 0 and j % 3 == 0:
                e1, e2 = list(REXPS)[j % len(REXPS)], list(REXPS)[(j * 7 + 3) % len(REXPS)]
                f1, v1 = root(f, REXPS[e1]), tuple(x * REXPS[e1] for x in v)
                f2, v2 = 2 * root(f1, REXPS[e2]) / 7, tuple(x * REXPS[e2] - y for x, y in zip(v1, (1, -1)))
                if all(Fr(1, 10**250) < x < 10**250 for x in (f1, f2)):
                    out.append((f"x{len(out) - 1}^{e1}", f1, v1))
                    out.append((f"2 * x{len(out) - 1}^{e2} / u7", f2, v2))
        dims = sorted({v for _, _, v in out})
        text = HEAD + "".join(f"dimension D{k} = A^{ex(a)} * B^{ex(b)};\n" for k, (a, b) in enumerate(dims))
        cs = []
        for n, (t, f, v) in enumerate(out):
            kind, d = "constant" if n % 3 == 1 else "unit", dims.index(v)
            text += f"{kind} x{n}{f': D{d}' if n % 2 else ''} = {t};\n"
            cs.append(Obs(f"rational {kind}:{t}", f"let q: dimensions::D{d}<f64> = 1.0f64 * {kind}s::x{n}; format!(\"{{:?}}\", q.value_unchecked())", (f, v)))
        return text + ");\n", cs

    def work(i):
        pre, cs = chunk(i)
        observe(run, f"r{i}", pre, cs, art, chunk=len(cs))
        return cs

    for cs in pmap(work, range((len(defs) + per - 1) // per)):
        for c in cs:
            f, v = c.expect
            run.transitions += 1
            run.validated += 1
            run.states.add((f, v))
            # the exponent is rounded to a float, which the size of the logarithm magnifies
            if c.got is None or not re.fullmatch(r"-?[0-9.e-]+", c.got) or not close(c.got, f, 40):
                run.violation(c.key, f"must have factor {float(f):e} and dimension {tuple(map(str, v))}, observed {c.got}", dict(code=c.expr, factor=str(float(f)), dimension=str(v), got=c.got))
        for c in cs[:: max(1, len(cs) // 2)]:
            run.sample(f"{c.key} -> {c.got}")


def main():
    run = Run("P08")
    deep = run.thorough
    per = 900
    systems = []
    for kind in ("unit", "constant", "dimension"):
        seen, defs = set(), []
        for n, (text, f, v, _) in enumerate(expressions(deep, kind == "dimension")):
            if text in seen:
                continue
            if max(map(abs, v)) > 30 or not (Fr(1, 10**60) < abs(f) < 10**60):
                continue
            seen.add(text)
            # constants go through the same family, thinned out
            if kind == "constant" and not deep and len(text) > 12 and len(seen) % 4:
                continue
            defs.append((text, kind, f"{kind[0] if kind != 'dimension' else 'D'}x{len(defs)}", text, f, v))
        run.outcome(f"{kind} expressions", len(defs))
        systems += [defs[i : i + per] for i in range(0, len(defs), per)]
    ch = chains(4 if deep else 3)
    run.outcome("reference chains", sum(map(len, ch)))
    systems += ch
    systems.append(deep_chains(60))
    run_systems(run, "s", systems)
    large = large_exponents()
    run.outcome("large exponents", len(large))
    # every squaring doubles the relative error of the power
    run_systems(run, "large", [large[i::4] for i in range(4)], 16)
    rational(run, deep)
    for s in systems[:: max(1, len(systems) // 12)]:
        run.sample(f"{s[-1][1]} x = {s[-1][3]} -> {s[-1][4]} {s[-1][5]}")
    run.assumptions = ["factors may differ from the exact rational by 2^-44 relative (rounding of the defining arithmetic); distinct primes as factors make a wrong grouping visible",
                       "text forms outside the family (literal spellings are P21) are not covered"]
    return run.finish()
