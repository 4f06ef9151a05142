"""P01: the dimension of every arithmetic result (explicit-state exploration of the
dimension-vector transition system, every transition replayed as a program)."""
import itertools
import re

from .core import *

NAMES = ["A", "BoLen", "C", "D4", "Ee", "F", "G", "H"]


def snake(n):
    n = n[2:] if n.startswith("r#") else n
    return "".join(("_" + ch.lower() if ch.isupper() and i else ch.lower()) for i, ch in enumerate(n))


def system(n, extra=""):
    s = "diman::unit_system!( quantity_type Quantity; dimension_type Dimension;\n"
    for i in range(n):
        s += f"dimension {NAMES[i]};\n"
    for i in range(n):
        s += f"#[base({NAMES[i]})] #[symbol(u{i})] unit unit{i};\n"
    return s + extra + ");\n"


PRE = """
fn dim<S, const D: Dimension>(_: &Quantity<S, D>) -> String { format!("{:?}", D) }
fn mk<S, const D: Dimension>(s: S) -> Quantity<S, D> { Quantity::new_unchecked(s) }
"""


def lit(v):
    return "{Dimension{" + ", ".join(f"{snake(NAMES[i])}: {x}" for i, x in enumerate(v)) + "}}"


def show(v):
    return "Dimension { " + ", ".join(f"{snake(NAMES[i])}: {x}" for i, x in enumerate(v)) + " }"


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def scale(a, k):
    return tuple(x * k for x in a)


VAL = {"f32": "2.5f32", "f64": "2.5f64"}
VEC = {"DVec3": ("f64", 3), "Vec3": ("f32", 3), "DVec2": ("f64", 2), "Vec2": ("f32", 2)}
for _v, (_f, _n) in VEC.items():
    VAL[_v] = f"glam::{_v}::new(" + ", ".join(["1.5", "2.0", "-3.0"][:_n]) + ")"


def ty(s):
    return s if s in ("f32", "f64") else "glam::" + s


def q(s, v):
    return f"Quantity::<{ty(s)}, {lit(v)}>::new_unchecked({VAL[s]})"


REFS = [("x", "y"), ("&x", "y"), ("x", "&y"), ("&x", "&y")]
FLOAT_FNS = "log2 ln log10 exp exp2 ceil floor sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp_m1 ln_1p".split()


def unary_ops(s, v):
    """(label, expression over x, resulting vector or None when the result is no quantity)"""
    z = tuple(0 for _ in v)
    isv = s in VEC
    f = VEC[s][0] if isv else s
    val, one = VAL[s], f"2.5{f}"
    ops = [
        ("neg", "-x", v),
        ("neg&", "-(x.clone())", v),
        ("abs", "x.abs()", v),
        ("x+x", "x + x", v), ("&x+x", "&x + x", v), ("x+&x", "x + &x", v), ("&x+&x", "&x + &x", v),
        ("x-x", "x - x", v), ("&x-x", "&x - x", v), ("x-&x", "x - &x", v), ("&x-&x", "&x - &x", v),
        ("min", "x.min(x)", v), ("max", "x.max(x)", v),
        ("sum", f"[x, x].into_iter().sum::<Quantity<_, {lit(v)}>>()", v),
        ("zero", f"Quantity::<{ty(s)}, {lit(v)}>::zero()", v),
        ("default", f"Quantity::<{ty(s)}, {lit(v)}>::default()", v),
    ]
    for k, (l, r) in {"": ("x", "S"), "&": ("&x", "S"), "s&": ("x", "&S"), "&s&": ("&x", "&S")}.items():
        ops.append((f"x*s{k}", f"{l} * {r}".replace("S", val), v))
        ops.append((f"x/s{k}", f"{l} / {r}".replace("S", val), v))
        ops.append((f"s*x{k}", f"{r} * {l}".replace("S", val), v))
        ops.append((f"s/x{k}", f"{r} / {l}".replace("S", val), sub(z, v)))
    if isv:
        ops += [
            ("v*f", f"x * {one}", v), ("v/f", f"x / {one}", v), ("f*v", f"{one} * x", v),
            ("&v*f", f"&x * {one}", v), ("&v/f", f"&x / {one}", v),
            ("length", "x.length()", v), ("normalize", "x.normalize()", z),
            ("distance", "x.distance(&x)", v), ("distance_squared", "x.distance_squared(&x)", scale(v, 2)),
            ("x()", "x.x()", v), ("y()", "x.y()", v),
            ("new_x", f"Quantity::<{ty(s)}, {lit(v)}>::new_x({q(f, v)})", v),
            ("new_y", f"Quantity::<{ty(s)}, {lit(v)}>::new_y({q(f, v)})", v),
        ]
        if VEC[s][1] == 3:
            ops += [("z()", "x.z()", v), ("new_z", f"Quantity::<{ty(s)}, {lit(v)}>::new_z({q(f, v)})", v)]
        ops.append(("new", f"Quantity::<{ty(s)}, {lit(v)}>::new(" + ", ".join([q(f, v)] * VEC[s][1]) + ")", v))
    else:
        ops += [("squared", "x.squared()", scale(v, 2)), ("cubed", "x.cubed()", scale(v, 3)),
                ("clamp", "x.clamp(x, x)", v)]
        for k in range(-4, 6):
            ops.append((f"powi{k}", f"x.powi::<{{{k}}}>()", scale(v, k)))
        if all(e % 2 == 0 for e in v):
            ops.append(("sqrt", "x.sqrt()", tuple(e // 2 for e in v)))
        if all(e % 3 == 0 for e in v):
            ops.append(("cbrt", "x.cbrt()", tuple(e // 3 for e in v)))
    if v == z:
        if not isv:
            ops += [(fn, f"x.{fn}()", z) for fn in FLOAT_FNS]
        for k, (l, r) in {"": ("x", "S"), "&": ("&x", "S"), "s&": ("x", "&S"), "&s&": ("&x", "&S")}.items():
            ops.append((f"x+s{k}", f"{l} + {r}".replace("S", val), v))
            ops.append((f"x-s{k}", f"{l} - {r}".replace("S", val), v))
            ops.append((f"s+x{k}", f"{r} + {l}".replace("S", val), v))
            ops.append((f"s-x{k}", f"{r} - {l}".replace("S", val), v))
        ops.append(("from", f"Quantity::<{ty(s)}, {lit(z)}>::from({val})", z))
    return ops


def box(n, r):
    return list(itertools.product(range(-r, r + 1), repeat=n))


def explore(run):
    """Yields groups (n, cases)."""
    deep = run.thorough
    groups = []

    def unary(n, vecs, storages):
        cs = []
        for s in storages:
            for v in vecs:
                for label, e, r in unary_ops(s, v):
                    cs.append(Obs(f"n{n}/{s}/{label}/{v}", f"let x = {q(s, v)}; dim(&({e}))", show(r)))
                    run.states.add((n, r))
                run.states.add((n, v))
        return cs

    def binary(n, xs, ys, combos, refs):
        cs = []
        for s, t in combos:
            for v in xs:
                for w in ys:
                    pre = f"let x = {q(s, v)}; let y = {q(t, w)};"
                    ops = []
                    if not (t in VEC and s not in VEC):
                        ops.append("/")
                    ops.append("*")
                    for o in ops:
                        r = add(v, w) if o == "*" else sub(v, w)
                        es = [(f"{a}{o}{b}", f"{a} {o} {b}") for a, b in refs]
                        if len(refs) > 1:
                            qs = [f"Quantity<{ty(k)}, {lit(z)}>" for k, z in ((s, v), (t, w))]
                            name = "Product" if o == "*" else "Quotient"
                            es.append((name, f"{{ let p: diman::{name}<{qs[0]}, {qs[1]}> = x {o} y; p }}"))
                            es.append((name + "&", f"{{ let p: diman::{name}<&{qs[0]}, &{qs[1]}> = &x {o} &y; p }}"))
                        body = pre + " let mut o = vec![];"
                        for lab, e in es:
                            body += f" o.push(dim(&({e})));"
                        body += " o.dedup(); o.join(\" != \")"
                        cs.append(Obs(f"n{n}/{s}{o}{t}/{v}/{w}", body, show(r), trans=len(es)))
                        run.states.add((n, r))
                    if s in VEC and s == t:
                        cs.append(Obs(f"n{n}/{s}.dot/{v}/{w}", pre + " dim(&x.dot(y))", show(add(v, w))))
        return cs

    g1 = unary(1, box(1, 9 if not deep else 24), ["f64", "f32"])
    g1 += binary(1, box(1, 6 if not deep else 12), box(1, 6 if not deep else 12), [("f64", "f64"), ("f32", "f32")], REFS)
    groups.append((1, "core", g1))
    g2 = unary(2, box(2, 2 if not deep else 6), ["f64", "f32"])
    g2 += binary(2, box(2, 2 if not deep else 4), box(2, 2 if not deep else 4), [("f64", "f64")], REFS)
    groups.append((2, "core", g2))
    vv = box(2, 1 if not deep else 3)
    g2v = unary(2, vv, list(VEC))
    combos = []
    for s, (f, _) in VEC.items():
        combos += [(s, f), (f, s), (s, s)]
    g2v += binary(2, vv, vv, combos, REFS)
    groups.append((2, "vec", g2v))
    g3 = unary(3, box(3, 1 if not deep else 3), ["f64"])
    g3 += binary(3, box(3, 1), box(3, 1), [("f64", "f64")], [("x", "y")])
    groups.append((3, "core", g3))
    units = [tuple(s * (i == j) for j in range(4)) for i in range(4) for s in (1, -2)] + [(0,) * 4, (1, -2, 3, -4), (3, 1, -4, 2)]
    v4 = box(4, 1) if deep else units
    g4 = unary(4, units, ["f64"]) + binary(4, v4, v4, [("f64", "f64")], [("x", "y")])
    groups.append((4, "core", g4))
    u7 = [tuple(s * (i == j) for j in range(7)) for i in range(7) for s in (1, -3)] + [(0,) * 7, (1, -2, 3, -4, 5, -6, 7)]
    groups.append((7, "core", unary(7, u7, ["f64"]) + binary(7, u7, u7, [("f64", "f64")], [("x", "y")])))

    # exponents of any size (within the 32 bits of the exponent type)
    big = [s * x for x in (1, 2, 3, 5, 10, 11, 15, 16, 31, 32, 63, 64, 100, 126, 127, 128, 129, 254, 255, 256, 257, 999, 1024, 32766, 32767, 32768, 65535, 65536, 65538, 1000000, 16777217, 2**30 - 1, 2**30) for s in (1, -1)] + [0]
    fits = lambda v: all(-(2**31) < e < 2**31 for e in v)
    bigs = []
    for a in big:
        for v in ((a, 0), (0, a), (a, -a)) if deep or abs(a) in (3, 16, 64, 128, 255, 32768, 65536, 2**30) else ((a, 1),):
            for label, e, r in unary_ops("f64", v):
                if fits(r):
                    bigs.append(Obs(f"large/{label}/{v}", f"let x = {q('f64', v)}; dim(&({e}))", show(r)))
                    run.states.add((2, r))
            for k in (7, 8, 10, 16, 32, 64, 100, 127, 128, 200, 255, 256, 1000, 32768, 65537, 1000000):
                for k in (k, -k):
                    if fits(scale(v, k)) and (deep or abs(k) in (10, 128, 1000) or abs(a) < 4):
                        bigs.append(Obs(f"large/powi{k}/{v}", f"let x = {q('f64', v)}; dim(&x.powi::<{{{k}}}>())", show(scale(v, k))))
                        run.states.add((2, scale(v, k)))
    big1 = [(a, b) for a, b in itertools.product(big, repeat=2) if deep or (big.index(a) + 2 * big.index(b)) % 5 == 0 or abs(a) == abs(b) or {abs(a), abs(b)} & {127, 128, 32767, 32768}]
    for a, b in big1:
        for (v, w) in (((a, 1), (b, -1)), ((2, a), (b, 3))):
            for o, f in (("*", add), ("/", sub)):
                r = f(v, w)
                if fits(r):
                    bigs.append(Obs(f"large/{o}/{v}/{w}", f"let x = {q('f64', v)}; let y = {q('f64', w)}; dim(&(x {o} y))", show(r)))
                    run.states.add((2, r))
    groups.append((2, "core", bigs))

    # chains: every sequence of operations up to a depth, starting from a quantity of
    # dimension (6,-6); the expected dimension is tracked by the model
    alphabet = [
        ("*a", "({}) * a", lambda v: add(v, (1, 0))),
        ("/b", "&({}) / b", lambda v: sub(v, (0, 1))),
        ("inv", "1.0f64 / ({})", lambda v: scale(v, -1)),
        ("sq", "({}).squared()", lambda v: scale(v, 2)),
        ("sqrt", "({}).sqrt()", lambda v: tuple(e // 2 for e in v) if all(e % 2 == 0 for e in v) else None),
        ("cbrt", "({}).cbrt()", lambda v: tuple(e // 3 for e in v) if all(e % 3 == 0 for e in v) else None),
        ("pow-3", "({}).powi::<{{-3}}>()", lambda v: scale(v, -3)),
        ("same", "({{let t = {}; -t + t.abs() * 2.0}})", lambda v: v),
    ]
    depth = 3 if not deep else 5
    cs = []
    pre = f"let a = {q('f64', (1, 0))}; let b = {q('f64', (0, 1))}; let x = {q('f64', (6, -6))};"

    def rec(expr, v, hist):
        if hist:
            cs.append(Obs("chain/" + ".".join(hist), f"{pre} dim(&({expr}))", show(v), trans=1))
            run.states.add((2, v))
        if len(hist) == depth:
            return
        for lab, t, f in alphabet:
            w = f(v)
            if w is None or max(map(abs, w)) > 200:
                continue
            rec(t.format(expr), w, hist + [lab])

    rec("x", (6, -6), [])
    groups.append((2, "core", cs))
    return groups


def main():
    run = Run("P01")
    groups = explore(run)
    for gi, (n, cfg, cases) in enumerate(groups):
        art = build(cfg)
        observe(run, f"g{gi}", system(n) + PRE, cases, art, chunk=max(150, min(1500, len(cases) // JOBS + 1)))
        check_observations(run, cases)
        run.outcome(f"group{gi}: {n} base dimensions, {cfg}, distinct results", len({c.got for c in cases}))
        for c in cases[:: max(1, len(cases) // 3)][:2]:
            run.sample(f"{c.key} -> {c.got}")
    run.assumptions = [
        "dimension vectors inside the box; the dimension of a result is read off the type by a generic function, so every case is decided for all values",
    ]
    return run.finish()
