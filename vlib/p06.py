"""P06: creating and converting with units scales by exactly the unit.

Every combination form x ordered pair of units/constants x storage is one statement whose
result type (dimension) and value (on an alphabet) are compared with the model."""
from .core import *
from .values import *
from .p01 import VEC

# name, module, factor (Rust literal), (a, b)
UNITS = [
    ("ua", "units", "1.0", (1, 0)), ("ub", "units", "1.0", (0, 1)),
    ("foot", "units", "3.7", (1, 0)), ("milli", "units", "0.001", (0, 1)), ("speed", "units", "8.0", (1, -1)), ("area", "units", "1e30", (2, 0)),
    ("ratio", "units", "0.3", (0, 0)), ("freq", "units", "12.5", (0, -1)),
    ("KG", "constants", "6.674e-11", (1, 1)), ("KN", "constants", "1024.0", (0, 0)), ("KI", "constants", "7e-20", (-1, 0)), ("KH", "constants", "0.1", (-1, 2)),
]


def dexpr(v):
    ps = [(n, e) for n, e in zip(("ua", "ub"), v) if e]
    return "".join(f" * {n}^{e}" for n, e in ps if e > 0) + "".join(f" / {n}^{-e}" for n, e in ps if e < 0)


def system():
    s = "diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension A; dimension B; #[base(A)] #[symbol(ua)] unit ua; #[base(B)] #[symbol(ub)] unit ub;\n"
    for n, m, f, v in UNITS[2:]:
        s += f"{m[:-1]} {n} = {f}{dexpr(v)};\n"
    return s + ");\nuse units::*; use constants::*;\nfn mk<S, const D: Dimension>(s: S) -> Quantity<S, D> { Quantity::new_unchecked(s) }\n"


def q(T, v):
    t = T if T in ("f32", "f64") else "glam::" + T
    return f"Quantity<{t}, {{Dimension{{a: {v[0]}, b: {v[1]}}}}}>"


def add(v, w):
    return (v[0] + w[0], v[1] + w[1])


def sub(v, w):
    return (v[0] - w[0], v[1] - w[1])


def neg(v):
    return (-v[0], -v[1])


def unit_forms(u, F, v, T, deep, vec):
    """u: Rust expression of the unit, F: its factor as an expression of the float type"""
    out = []

    def f(key, e, dim, bare, pre=""):
        out.append((key, pre + f" let r: {q(T, dim)} = {e}; let got = r.value_unchecked();", bare))

    f("x*u", f"x * {u}", v, f"x * {F}")
    f("u*x", f"{u} * x", v, f"{F} * x")
    f("x/u", f"x / {u}", neg(v), f"x / {F}")
    f("u/x", f"{u} / x", v, f"{F} / x")
    for w in [(0, 0), (1, 0), (-1, 3), (0, -2)][: 4 if deep else 3]:
        p = f"let p: {q(T, w)} = mk(x);"
        f(f"u/p{w}", f"{u} / p", sub(v, w), f"{F} / x", p)
        if not vec:
            f(f"p*u{w}", f"p * {u}", add(w, v), f"x * {F}", p)
            f(f"p/u{w}", f"p / {u}", sub(w, v), f"x / {F}", p)
            f(f"u*p{w}", f"{u} * p", add(v, w), f"x * {F}", p)
    if not vec:
        f("u.new(x)", f"({u}).new(x)", v, f"x * {F}")
        out.append(("value_in", f"let p: {q(T, v)} = mk(x); let got = p.value_in({u});", f"x / {F}"))
        out.append(("round trip", f"let p: {q(T, v)} = x * {u}; let got = p.value_in({u});", f"(x * {F}) / {F}"))
        out.append(("round trip/new", f"let p: {q(T, v)} = ({u}).new(x); let got = p.value_in({u});", f"(x * {F}) / {F}"))
    return out


def cases(storages, deep, run=None):
    cs = []
    state = run.states.add if run else lambda s: None
    for T in storages:
        vec = T in VEC
        fl = VEC[T][0] if vec else T

        def emit(key, u, F, v):
            for k, e, bare in unit_forms(u, F, v, T, deep, vec):
                lvl = (2 if deep else 1)
                cs.append(Obs(f"{T}/{key}/{k}", f"let mut c = Cmp::new(); for x in {ALPHA[T]}({lvl}) {{ {e} let want = {{ {bare} }}; c.eq(format_args!(\"x={{:?}}\", x), got, want); }} c.done()"))

        for n, m, F, v in UNITS:
            emit(n, n, f"({F}f64 as {fl})", v)
            state((n,))
        pairs = [(a, b) for a in UNITS for b in UNITS]
        if vec and not deep:
            pairs = [(UNITS[i], UNITS[(i * 5 + 3) % len(UNITS)]) for i in range(len(UNITS))]
        for a, b in pairs:
            state((a[0], b[0]))
            emit(f"{a[0]}*{b[0]}", f"({a[0]} * {b[0]})", f"(({a[2]}f64 * {b[2]}f64) as {fl})", add(a[3], b[3]))
            emit(f"{a[0]}/{b[0]}", f"({a[0]} / {b[0]})", f"(({a[2]}f64 / {b[2]}f64) as {fl})", sub(a[3], b[3]))
        if not vec:
            # a power of two scales without loss: the original number comes back
            for n in ("speed", "KN", "ua"):
                cs.append(Obs(f"{T}/{n}/exact", f"let mut c = Cmp::new(); for x in {ALPHA[T]}(3) {{ if !(x * 1024.0).is_finite() {{ continue; }} let got = (x * {n}).value_in({n}); c.eq(format_args!(\"x={{:?}}\", x), got, x); }} c.done()"))
            # to one rounding of a multiplication and a division for every unit
            for n, m, F, v in UNITS:
                cs.append(Obs(f"{T}/{n}/round trip error", f"let mut c = Cmp::new(); for x in {ALPHA[T]}(2) {{ let F = {F}f64 as {T}; let y = x * F; if x == 0.0 || !x.is_normal() || !y.is_normal() {{ continue; }} let got = (x * {n}).value_in({n}); "
                          f"c.eq(format_args!(\"x={{:?}} got={{:?}}\", x, got), ((got - x) / x).abs() <= 1.01 * {T}::EPSILON, true); }} c.done()"))
    return cs


def main():
    run = Run("P06")
    for cfg, storages in (("core", ["f64", "f32"]), ("vec", ["Vec2", "DVec2", "Vec3", "DVec3"])):
        cs = cases(storages, run.thorough, run)
        observe(run, cfg, system() + SUPPORT + (VECSUPPORT if cfg == "vec" else ""), cs, build(cfg), chunk=max(50, len(cs) // (JOBS * 2) + 1))
        check_values(run, cs)
        run.outcome(f"{cfg}: statements", len(cs))
        for c in cs[:: len(cs) // 6]:
            run.sample(f"{c.key}: {c.got}")
    run.assumptions = ["values and factors outside the alphabets are not covered; each statement fixes the result type, so a wrong dimension shows as a compile error"]
    return run.finish()
