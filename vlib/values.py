"""Rust support code for checks on values: alphabets of special values and exact comparison."""

SUPPORT = r'''
#[allow(dead_code)]
mod vals {
    pub trait Same: Clone + ::std::fmt::Debug { fn same(&self, o: &Self) -> bool; }
    macro_rules! same_float { ($t: ty) => { impl Same for $t { fn same(&self, o: &Self) -> bool {
        (self.is_nan() && o.is_nan()) || self.to_bits() == o.to_bits() } } } }
    same_float!(f32); same_float!(f64);
    macro_rules! same_eq { ($($t: ty),*) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } })* } }
    same_eq!(bool, i64, i32, u64, usize, (), ::std::string::String, ::std::option::Option<::std::cmp::Ordering>);
    impl<A: Same, B: Same> Same for (A, B) { fn same(&self, o: &Self) -> bool { self.0.same(&o.0) && self.1.same(&o.1) } }
    impl<A: Same> Same for ::std::vec::Vec<A> { fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.same(b)) } }
    impl<A: Same> Same for ::std::result::Result<A, ::std::string::String> { fn same(&self, o: &Self) -> bool { match (self, o) {
        (Ok(a), Ok(b)) => a.same(b), (Err(a), Err(b)) => a == b, _ => false } } }
    /// What a computation gives, a panic included.
    pub fn run<T>(f: impl FnOnce() -> T) -> ::std::result::Result<T, ::std::string::String> {
        ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f)).map_err(|_| "panic".to_string())
    }
    pub struct Cmp { n: u64, bad: u64, first: ::std::string::String }
    impl Cmp {
        pub fn new() -> Self { Cmp { n: 0, bad: 0, first: ::std::string::String::new() } }
        pub fn eq<T: Same>(&mut self, input: ::std::fmt::Arguments, got: T, want: T) {
            self.n += 1;
            if !got.same(&want) {
                self.bad += 1;
                if self.bad == 1 { self.first = ::std::format!("for {}: got {:?}, bare storage gives {:?}", input, got, want); }
            }
        }
        pub fn done(self) -> ::std::string::String {
            if self.bad == 0 { ::std::format!("OK {}", self.n) } else { ::std::format!("BAD {} of {}: {}", self.bad, self.n, self.first) }
        }
    }
    macro_rules! alphabet { ($name: ident, $t: ident, $bits: ident, $mant: expr, $emax: expr) => {
        pub fn $name(level: u32) -> ::std::vec::Vec<$t> {
            let mut v: ::std::vec::Vec<$t> = ::std::vec![0.0, 1.0, 2.0, 2.5, 3.25, 0.1, 1.0 / 3.0, 7.0, 1e16, 1e-16, 0.5, 10.0,
                $t::MIN_POSITIVE, $t::from_bits(1), $t::from_bits(12345), $t::MAX, $t::EPSILON, 1.0 + $t::EPSILON, 1.0 - $t::EPSILON / 2.0, $t::INFINITY];
            if level > 0 {
                let step = $emax / (if level > 3 { $emax } else if level > 2 { 40 } else if level > 1 { 16 } else { 4 });
                let mut e = 1;
                while e < 2 * $emax { for m in [0, 1, 0x2aaaaa] { v.push($t::from_bits(((e as $bits) << $mant) | m)); } e += step; }
            }
            let neg: ::std::vec::Vec<$t> = v.iter().map(|x| -x).collect();
            v.extend(neg);
            v.push($t::NAN);
            v
        }
    } }
    alphabet!(f32s, f32, u32, 23, 127);
    alphabet!(f64s, f64, u64, 52, 1023);
    pub fn i64s(_: u32) -> ::std::vec::Vec<i64> { ::std::vec![0, 1, -1, 2, 7, -13, 100000, -99999] }
}
use vals::{Cmp, Same};
'''

VECSUPPORT = r'''
#[allow(dead_code)]
mod vvals {
    use super::vals::*;
    macro_rules! vec_impl { ($v: ident, $alpha: ident, $n: expr, $f: ident, $bits: ident) => {
        impl Same for glam::$v { fn same(&self, o: &Self) -> bool { self.to_array().iter().zip(o.to_array().iter()).all(|(a, b)| a.same(b)) } }
        /// Every value of the alphabet in every position, next to rotations of the alphabet.
        pub fn $bits(level: u32) -> ::std::vec::Vec<glam::$v> {
            let a = super::vals::$alpha(level);
            let n = a.len();
            (0..n).map(|i| glam::$v::from_array(::std::array::from_fn(|k| a[(i + k * 7) % n]))).collect()
        }
    } }
    vec_impl!(Vec2, f32s, 2, f32, vec2s);
    vec_impl!(Vec3, f32s, 3, f32, vec3s);
    vec_impl!(DVec2, f64s, 2, f64, dvec2s);
    vec_impl!(DVec3, f64s, 3, f64, dvec3s);
}
'''

ALPHA = {"f32": "vals::f32s", "f64": "vals::f64s", "i64": "vals::i64s", "Vec2": "vvals::vec2s", "Vec3": "vvals::vec3s", "DVec2": "vvals::dvec2s", "DVec3": "vvals::dvec3s"}


def count_ok(case):
    return case.got is not None and case.got.startswith("OK ")


def check_values(run, cases):
    """Cases observed as `OK n` (n inputs compared) or `BAD ...`."""
    for c in cases:
        if count_ok(c):
            n = int(c.got.split()[1])
            run.transitions += n
            run.validated += n
            run.n_states += 1
            if n == 0:
                run.violation(c.key, "nothing was compared", dict(expr=c.expr))
        else:
            run.transitions += 1
            run.validated += 1
            run.violation(c.key, f"{c.got}", dict(expr=c.expr, info=c.info, got=c.got))
