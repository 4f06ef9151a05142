"""P04: every scalar method of a quantity returns what the float method of that name returns.

Each method x float type x dimension is one statement, executed on all values (or all pairs,
all triples) of an alphabet of special values."""
from .core import *
from .values import *
from .p01 import FLOAT_FNS

SYS = """diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension A; dimension B; dimension N = 1; dimension C = A^2 / B; dimension R6 = A^6 / B^12;
#[base(A)] #[symbol(ua)] unit ua; #[base(B)] #[symbol(ub)] unit ub; );
fn mk<S, const D: Dimension>(s: S) -> Quantity<S, D> { Quantity::new_unchecked(s) }
"""


def forms():
    """(key, arity, setup, quantity expression, bare expression) over values a, b, c"""
    out = []
    for T in ("f64", "f32"):
        for D in ("N", "A", "C", "R6"):
            Q = f"dimensions::{D}<{T}>"
            x, y, z = f"let x: {Q} = mk(a);", f"let y: {Q} = mk(b);", f"let z: {Q} = mk(c);"

            def f(key, n, setup, e, bare):
                out.append((f"{T}/{D}/{key}", T, n, setup, e, bare))

            if D == "N":
                for fn in FLOAT_FNS:
                    f(fn, 1, x, f"x.{fn}().value()", f"a.{fn}()")
                    f(fn + "/type", 1, x, f"{{ let r: {Q} = (&x).{fn}(); r.value() }}", f"a.{fn}()")
                f("value", 1, x, "x.value()", "a")
                f("value_ref", 1, x, "*x.value_ref()", "a")
                f("deref", 1, x, "*x", "a")
                f("deref/method", 1, x, "x.round()", "a.round()")
                f("from", 1, f"let x = <{Q}>::from(a);", "x.value()", "a")
                f("into", 1, f"let x: {Q} = a.into();", "x.value()", "a")
                f("min/bare", 2, x, "zs(x.min(b).value())", "zs(a.min(b))")
                f("max/bare", 2, x, "zs(x.max(b).value())", "zs(a.max(b))")
                f("clamp/bare", 3, x, "vals::run(|| x.clamp(b, c).value())", "vals::run(|| a.clamp(b, c))")
            f("squared", 1, x, "x.squared().value_unchecked()", "a.powi(2)")
            f("cubed", 1, x, "x.cubed().value_unchecked()", "a.powi(3)")
            for k in (-30, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 17, 40):
                f(f"powi{k}", 1, x, f"x.powi::<{{{k}}}>().value_unchecked()", f"a.powi({k})")
            if D in ("N", "R6"):
                f("sqrt", 1, x, "x.sqrt().value_unchecked()", "a.sqrt()")
                f("cbrt", 1, x, "x.cbrt().value_unchecked()", "a.cbrt()")
            f("abs", 1, x, "x.abs().value_unchecked()", "a.abs()")
            f("min", 2, x + y, "zs(x.min(y).value_unchecked())", "zs(a.min(b))")
            f("max", 2, x + y, "zs(x.max(y).value_unchecked())", "zs(a.max(b))")
            f("clamp", 3, x + y + z, "vals::run(|| x.clamp(y, z).value_unchecked())", "vals::run(|| a.clamp(b, c))")
            f("zero", 1, x, f"<{Q}>::zero().value_unchecked()", f"0.0{T}")
            f("is_positive", 1, x, "x.is_positive()", "a > 0.0")
            f("is_positive_or_zero", 1, x, "x.is_positive_or_zero()", "a >= 0.0")
            f("is_negative", 1, x, "x.is_negative()", "a < 0.0")
            f("is_negative_or_zero", 1, x, "x.is_negative_or_zero()", "a <= 0.0")
            f("is_nan", 1, x, "x.is_nan()", "a.is_nan()")
            f("value_unchecked", 1, x, "x.value_unchecked()", "a")
            f("value_unchecked_ref", 1, x, "*x.value_unchecked_ref()", "a")
            f("new_unchecked/const", 1, x, f"{{ const K: {Q} = Quantity::new_unchecked(2.75); K.value_unchecked() }}", f"2.75{T}")
            if D == "N":  # each operation on a dimensionless quantity is also reachable by reference
                f("is_nan/ref", 1, x, "(&x).is_nan()", "a.is_nan()")
    return out


ZS = """
trait Zs { fn zs(self) -> Self; }
impl Zs for f32 { fn zs(self) -> f32 { if self == 0.0 { 0.0 } else { self } } }
impl Zs for f64 { fn zs(self) -> f64 { if self == 0.0 { 0.0 } else { self } } }
fn zs<T: Zs>(t: T) -> T { t.zs() }
"""


def cases(levels):
    cs = []
    for key, T, n, setup, e, bare in forms():
        loops, args = "", []
        for v in "abc"[:n]:
            loops += f"for {v} in al.iter().copied() {{ "
            args.append(v)
        fmt = " ".join(f"{v}={{:?}}" for v in args)
        body = (f"let mut cmp = Cmp::new(); let al = {ALPHA[T]}({levels[n]}); {loops} {setup} "
                f"let want = {{ {bare} }}; let got = {{ {e} }}; cmp.eq(format_args!(\"{fmt}\", {', '.join(args)}), got, want); "
                + "}" * n + " cmp.done()")
        cs.append(Obs(key, body))
    return cs


def main():
    run = Run("P04")
    cs = cases({1: 4, 2: 3, 3: 1} if run.thorough else {1: 4, 2: 2, 3: 0})
    observe(run, "core", SYS + SUPPORT + ZS, cs, build("core"), chunk=len(cs) // JOBS + 1)
    check_values(run, cs)
    run.outcome("methods x types x dimensions", len(cs))
    for c in cs[:: len(cs) // 8]:
        run.sample(f"{c.key}: {c.got}")
    run.assumptions = ["values outside the alphabets are not covered; not-a-number payloads and the sign of a zero returned by min/max of two zeros are not compared",
                       "without std the float methods are those of num_traits (compared in P19)"]
    return run.finish()
