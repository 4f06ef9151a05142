"""P05: vector quantities behave component-wise like the bare vector (all methods on products of
component alphabets, all histories of component replacements up to a depth)."""
from .core import *
from .values import *
from .p01 import VEC

SYS = """diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension A; dimension B; dimension N = 1; dimension C = A^2 / B;
#[base(A)] #[symbol(ua)] unit ua; #[base(B)] #[symbol(ub)] unit ub; );
fn mk<S, const D: Dimension>(s: S) -> Quantity<S, D> { Quantity::new_unchecked(s) }
trait Zs { fn zs(self) -> Self; }
impl Zs for f32 { fn zs(self) -> f32 { if self == 0.0 { 0.0 } else { self } } }
impl Zs for f64 { fn zs(self) -> f64 { if self == 0.0 { 0.0 } else { self } } }
macro_rules! zsv { ($($v: ident),*) => { $(impl Zs for glam::$v { fn zs(self) -> Self { Self::from_array(self.to_array().map(|x| x.zs())) } })* } }
zsv!(Vec2, Vec3, DVec2, DVec3);
fn zs<T: Zs>(t: T) -> T { t.zs() }
macro_rules! grid { ($name: ident, $v: ident, $n: expr, $t: ident) => {
    /// All vectors over a component alphabet.
    fn $name(k: usize) -> Vec<glam::$v> {
        let al: [$t; 14] = [0.0, 1.0, -2.5, 3.0, 0.1, $t::INFINITY, $t::NAN, -0.0, $t::MIN_POSITIVE, -$t::MAX, 1e-20, 4.0e18, -7.0, $t::NEG_INFINITY];
        let mut out: Vec<Vec<$t>> = vec![vec![]];
        for _ in 0..$n { out = out.iter().flat_map(|p| al[..k].iter().map(move |x| { let mut q = p.clone(); q.push(*x); q })).collect(); }
        out.iter().map(|c| glam::$v::from_slice(c)).collect()
    }
} }
grid!(g_Vec2, Vec2, 2, f32); grid!(g_Vec3, Vec3, 3, f32); grid!(g_DVec2, DVec2, 2, f64); grid!(g_DVec3, DVec3, 3, f64);
"""


def cases(deep):
    cs = []
    for V, (T, n) in VEC.items():
        axes = "xyz"[:n]
        k1, k2 = (14, (14 if deep else 11)) if n == 2 else (14, (8 if deep else 6))
        for D in ("N", "A", "C"):
            Q, S = f"dimensions::{D}<glam::{V}>", f"dimensions::{D}<{T}>"
            x, y = f"let x: {Q} = mk(a);", f"let y: {Q} = mk(b);"

            def f(key, arity, setup, e, bare, fmt=None):
                k = k1 if arity == 1 else k2
                loops = "".join(f"for {v} in al.iter().copied() {{ " for v in "ab"[:arity])
                fm = " ".join(f"{v}={{:?}}" for v in "ab"[:arity])
                body = (f"let mut cmp = Cmp::new(); let mut al = g_{V}({k}); al.extend({ALPHA[V]}(0)); {loops} {setup} let want = {{ {bare} }}; let got = {{ {e} }}; "
                        f"cmp.eq(format_args!(\"{fm}\", {', '.join('ab'[:arity])}), got, want); " + "}" * arity + " cmp.done()")
                cs.append(Obs(f"{V}/{D}/{key}", body))

            comps = ", ".join(f"mk::<{T}, {{ dims::{D} }}>(a.{c})" for c in axes)
            comps = ", ".join(f"{{ let c: {S} = mk(a.{c}); c }}" for c in axes)
            f("new", 1, "", f"<{Q}>::new({comps}).value_unchecked()", f"glam::{V}::new({', '.join('a.' + c for c in axes)})")
            for c in axes:
                f(f"{c}()", 1, x, f"{{ let r: {S} = x.{c}(); r.value_unchecked() }}", f"a.{c}")
                fin = f"if !a.{c}.is_finite()"
                # other components: zero; of a non-finite length nothing is required there
                f(f"new_{c}", 1, f"let q: {S} = mk(a.{c});", f"{{ let r = <{Q}>::new_{c}(q); {fin} {{ glam::{V}::splat(r.{c}().value_unchecked()) }} else {{ zs(r.value_unchecked()) }} }}",
                  f"{fin} {{ glam::{V}::splat(a.{c}) }} else {{ zs(a.{c} * glam::{V}::{c.upper()}) }}")
                f(f"set_{c}", 2, x, f"{{ let mut x = x; let q: {S} = mk(b.{c}); x.set_{c}(q); x.value_unchecked() }}", f"{{ let mut a = a; a.{c} = b.{c}; a }}")
                f(f"set_{c}/mut", 2, x, f"{{ let mut x = x; let m = &mut x; let q: {S} = mk(b.{c}); m.set_{c}(q); x.value_unchecked() }}", f"{{ let mut a = a; a.{c} = b.{c}; a }}")
            f("length", 1, x, f"{{ let r: {S} = x.length(); r.value_unchecked() }}", "a.length()")
            f("normalize", 1, x, "x.normalize().value()", "a.normalize()")
            f("abs", 1, x, f"{{ let r: {Q} = x.abs(); r.value_unchecked() }}", "a.abs()")
            f("zero", 1, "", f"<{Q}>::zero().value_unchecked()", f"glam::{V}::ZERO")
            f("default", 1, "", f"<{Q}>::default().value_unchecked()", f"glam::{V}::ZERO")
            f("value_unchecked_ref", 1, x, "*x.value_unchecked_ref()", "a")
            f("distance", 2, x + y, f"{{ let r: {S} = x.distance(&y); r.value_unchecked() }}", "a.distance(b)")
            f("distance_squared", 2, x + y, "x.distance_squared(&y).value_unchecked()", "a.distance_squared(b)")
            f("min", 2, x + y, f"{{ let r: {Q} = x.min(y); zs(r.value_unchecked()) }}", "zs(a.min(b))")
            f("max", 2, x + y, f"{{ let r: {Q} = x.max(y); zs(r.value_unchecked()) }}", "zs(a.max(b))")
            for D2 in ("N", "A", "C"):
                f(f"dot/{D2}", 2, x + f"let y: dimensions::{D2}<glam::{V}> = mk(b);", "x.dot(y).value_unchecked()", "a.dot(b)")
            if D == "N":
                f("value", 1, x, "x.value()", "a")
                f("value_ref", 1, x, "*x.value_ref()", "a")
                f("deref", 1, x, "*x", "a")
                f("from", 1, f"let x: {Q} = a.into();", "x.value()", "a")
            # histories of component replacements: every sequence up to the depth, checking
            # every accessor and the raw storage after every step
            depth = (5 if deep else 4) if n == 3 else (7 if deep else 5)
            vals_ = "[1.5, -0.0, %s::NAN]" % T
            step = "".join(
                f" {i} => {{ let s: {S} = mk(v); {'q' if i % 2 else '(&mut q)'}.set_{c}(s); b.{c} = v; }}" for i, c in enumerate(axes))
            obs = ", ".join(f"q.{c}().value_unchecked()" for c in axes)
            ob2 = ", ".join(f"b.{c}" for c in axes)
            hist = (f"fn go(d: usize, q: {Q}, b: glam::{V}, path: &mut Vec<(usize, {T})>, cmp: &mut Cmp) {{ "
                    f"cmp.eq(format_args!(\"history {{:?}}\", path), vec![{obs}], vec![{ob2}]); cmp.eq(format_args!(\"history {{:?}}\", path), q.value_unchecked(), b); "
                    f"if d == 0 {{ return; }} for i in 0..{n} {{ for v in {vals_} {{ let (q0, b0) = (q, b); let (mut q, mut b) = (q, b); match i {{ {step} _ => () }} path.push((i, v)); go(d - 1, q, b, path, cmp); path.pop(); "
                    f"cmp.eq(format_args!(\"copy after {{:?}}\", path), q0.value_unchecked(), b0); }} }} }} "
                    f"let mut cmp = Cmp::new(); let s = glam::{V}::from_array(std::array::from_fn(|i| 10.0 + i as {T})); let mut p = vec![]; let q: {Q} = mk(s); go({depth}, q, s, &mut p, &mut cmp); cmp.done()")
            cs.append(Obs(f"{V}/{D}/replacement histories", hist))
    return cs


def main():
    run = Run("P05")
    cs = cases(run.thorough)
    observe(run, "vec", SYS + SUPPORT + VECSUPPORT, cs, build("vec"), chunk=len(cs) // JOBS // 2 + 1)
    check_values(run, cs)
    run.outcome("methods x types x dimensions", len(cs))
    for c in cs[:: len(cs) // 10]:
        run.sample(f"{c.key}: {c.got}")
    run.assumptions = ["components outside the alphabets are not covered; the sign of zero components of new_x/new_y/new_z and of min/max of two zeros is not compared, nor the off-axis components for a non-finite length"]
    return run.finish()
