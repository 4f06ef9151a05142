"""P03: operators on quantities compute what the bare storage computes, bit for bit.

Every operator form x storage combination is one statement; it is executed on the full
product of an alphabet of special values and compared with the bare operation."""
from .core import *
from .values import *

SYS = """diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension A; dimension B; dimension AB = A * B; dimension Apb = A / B;
#[base(A)] #[symbol(ua)] unit ua; #[base(B)] #[symbol(ub)] unit ub; dimension N = 1; );
fn mk<S, const D: Dimension>(s: S) -> Quantity<S, D> { Quantity::new_unchecked(s) }
const DIM_A: Dimension = Dimension { a: 1, ..Dimension::none() };
const DIM_N: Dimension = Dimension::none();
"""
FLOAT_OF = {"Vec2": "f32", "Vec3": "f32", "DVec2": "f64", "DVec3": "f64"}


def ty(s):
    return s if s in ("f32", "f64", "i64") else "glam::" + s


def qty(s, d):
    return f"dimensions::{d}<{ty(s)}>"


def isvec(s):
    return s in FLOAT_OF


NOPANIC = "true"


def forms(storages):
    """(key, lhs storage, rhs storage, guard, quantity expression, bare expression)
    a: left bare value, b: right bare value; p/q their quantities."""
    F = []

    def f(key, s, t, expr, bare, guard=NOPANIC):
        F.append((f"{s},{t}/{key}", s, t, guard, expr, bare))

    for s in storages:
        T = ty(s)
        dims = ["N", "A"] if s in ("f64", "f32") else ["A"]
        intg = "b != 0" if s == "i64" else NOPANIC
        # same storage, same dimension
        for d in dims:
            p, q = f"let p: {qty(s, d)} = mk(a);", f"let q: {qty(s, d)} = mk(b);"
            for o in "+-":
                for l in ("p", "&p"):
                    for r in ("q", "&q"):
                        f(f"{d}/{l}{o}{r}", s, s, f"{p} {q} ({l} {o} {r}).value_unchecked()", f"a {o} b")
                for r in ("q", "&q"):
                    f(f"{d}/p{o}={r}", s, s, f"{p} {q} let mut p = p; p {o}= {r}; p.value_unchecked()", f"a {o} b")
                    f(f"{d}/&mut p{o}={r}", s, s, f"{p} {q} let mut p = p; {{ let mut m = &mut p; m {o}= {r}; }} p.value_unchecked()", f"a {o} b")
                    f(f"{d}/*&mut p{o}={r}", s, s, f"{p} {q} let mut p = p; {{ let m = &mut p; *m {o}= {r}; }} p.value_unchecked()", f"a {o} b")
            for o in ("==", "!=") + (() if isvec(s) else ("<", "<=", ">", ">=")):
                f(f"{d}/p{o}q", s, s, f"{p} {q} p {o} q", f"a {o} b")
                f(f"{d}/&p{o}&q", s, s, f"{p} {q} &p {o} &q", f"a {o} b")
                f(f"{d}/p{o}&q", s, s, f"{p} {q} p {o} &q", f"a {o} b")
                f(f"{d}/&p{o}q", s, s, f"{p} {q} &p {o} q", f"a {o} b")
            if not isvec(s):
                f(f"{d}/partial_cmp", s, s, f"{p} {q} p.partial_cmp(&q)", "a.partial_cmp(&b)")
                f(f"{d}/partial_cmp&", s, s, f"{p} {q} PartialOrd::partial_cmp(&p, &&q)", "a.partial_cmp(&b)")
            f(f"{d}/-p", s, s, f"{p} (-p).value_unchecked()", "-a")
            f(f"{d}/clone", s, s, f"{p} let c = p.clone(); let d = p; d.value_unchecked()", "a")
            zero = f"{T}::default()"
            for n in range(4):
                seq = ["a", "b", "a"][:n]
                it = ", ".join(f"mk(*&{x})" for x in seq)
                bare = f"{{ let mut t = {zero}; " + " ".join(f"t += {x};" for x in seq) + " t }"
                f(f"{d}/sum{n}", s, s, f"let v: Vec<{qty(s, d)}> = vec![{it}]; v.into_iter().sum::<{qty(s, d)}>().value_unchecked()", bare)
        # multiplication and division
        rhs = [s] + ([FLOAT_OF[s]] if isvec(s) else [])
        pairs = [(s, t) for t in rhs] + ([(FLOAT_OF[s], s)] if isvec(s) else [])
        for l_, r_ in pairs:
            for o in "*/":
                g = "b != 0" if s == "i64" and o == "/" else NOPANIC
                dp, dq = ("A", "B")
                p, q = f"let p: {qty(l_, dp)} = mk(a);", f"let q: {qty(r_, dq)} = mk(b);"
                for l in ("p", "&p"):
                    for r in ("q", "&q"):
                        f(f"{l}{o}{r}", l_, r_, f"{p} {q} ({l} {o} {r}).value_unchecked()", f"a {o} b", g)
                if s != "i64":
                    for l in ("p", "&p"):
                        for r in ("b", "&b"):
                            f(f"{l}{o}{r}", l_, r_, f"{p} ({l} {o} {r}).value_unchecked()", f"a {o} b", g)
                    for l in ("a", "&a"):
                        for r in ("q", "&q"):
                            f(f"{l}{o}{r}", l_, r_, f"{q} ({l} {o} {r}).value_unchecked()", f"a {o} b", g)
                    # dimensionless operands
                    f(f"N/p{o}b", l_, r_, f"let p: {qty(l_, 'N')} = mk(a); (p {o} b).value()", f"a {o} b", g)
                    f(f"N/a{o}q", l_, r_, f"let q: {qty(r_, 'N')} = mk(b); (a {o} q).value()", f"a {o} b", g)
        # in-place scaling
        for t in rhs:
            for o in "*/":
                g = "b != 0" if s == "i64" and o == "/" else NOPANIC
                p, q = f"let mut p: {qty(s, 'A')} = mk(a);", f"let q: {qty(t, 'N')} = mk(b);"
                bare = f"{{ let mut a = a; a {o}= b; a }}"
                for r in ("q", "&q"):
                    f(f"p{o}={r}", s, t, f"{p} {q} p {o}= {r}; p.value_unchecked()", bare, g)
                    f(f"&mut p{o}={r}", s, t, f"{p} {q} {{ let mut m = &mut p; m {o}= {r}; }} p.value_unchecked()", bare, g)
                if t == s and s != "i64":
                    for r in ("b", "&b"):
                        f(f"p{o}={r}", s, t, f"{p} p {o}= {r}; p.value_unchecked()", bare, g)
                    for r in ("q", "&q"):
                        f(f"a{o}={r}", s, t, f"{q} let mut a = a; a {o}= {r}; a", bare, g)
        # dimensionless quantities and bare numbers
        p, q = f"let p: {qty(s, 'N')} = mk(a);", f"let q: {qty(s, 'N')} = mk(b);"
        for o in "+-":
            for l in ("p", "&p"):
                for r in ("b", "&b"):
                    f(f"N/{l}{o}{r}", s, s, f"{p} ({l} {o} {r}).value()", f"a {o} b")
            bare = f"{{ let mut a = a; a {o}= b; a }}"
            for r in ("b", "&b"):
                f(f"N/p{o}={r}", s, s, f"{p} let mut p = p; p {o}= {r}; p.value()", bare)
                f(f"N/&mut p{o}={r}", s, s, f"{p} let mut p = p; {{ let mut m = &mut p; m {o}= {r}; }} p.value()", bare)
            if s != "i64":
                for l in ("a", "&a"):
                    for r in ("q", "&q"):
                        f(f"N/{l}{o}{r}", s, s, f"{q} ({l} {o} {r}).value()", f"a {o} b")
                for r in ("q", "&q"):
                    f(f"N/a{o}={r}", s, s, f"{q} let mut a = a; a {o}= {r}; a", bare)
        if s != "i64":
            for o in ("==", "!=") + (() if isvec(s) else ("<", "<=", ">", ">=")):
                f(f"N/p{o}b", s, s, f"{p} p {o} b", f"a {o} b")
                f(f"N/a{o}q", s, s, f"{q} a {o} q", f"a {o} b")
            if not isvec(s):
                f("N/p.partial_cmp(b)", s, s, f"{p} p.partial_cmp(&b)", "a.partial_cmp(&b)")
                f("N/a.partial_cmp(q)", s, s, f"{q} a.partial_cmp(&q)", "a.partial_cmp(&b)")
        f("N/from", s, s, f"<{qty(s, 'N')}>::from(a).value()", "a")
        f("N/into", s, s, f"let p: {qty(s, 'N')} = a.into(); *p", "a")
        f("N/value_ref", s, s, f"{p} p.value_ref().clone()", "a")
        f("value_unchecked_ref", s, s, f"let p: {qty(s, 'A')} = mk(a); p.value_unchecked_ref().clone()", "a")
        f("default", s, s, f"<{qty(s, 'A')}>::default().value_unchecked()", f"{T}::default()")
    return F


# Values whose sums are rounded differently in every order, the zeros and the values that absorb others.
SUMS = """
mod sums {
    use super::*;
    use super::vals::{Cmp, Same};
    pub trait Words: Same + Copy + Default + core::ops::AddAssign { fn words() -> Vec<Self>; }
    impl Words for f64 { fn words() -> Vec<f64> { vec![1.0, 9007199254740992.0, -0.0, 0.1, -9007199254740992.0, f64::NAN, f64::INFINITY] } }
    impl Words for f32 { fn words() -> Vec<f32> { vec![1.0, 16777216.0, -0.0, 0.1, -16777216.0, f32::NAN, f32::INFINITY] } }
    impl Words for i64 { fn words() -> Vec<i64> { vec![1, 1000, 0, -7, 31, 500000, -20000] } }
    fn check<S: Words, const D: Dimension>(c: &mut Cmp, v: &[S]) {
        let mut want = S::default();
        for x in v { want += *x; }
        let got: Quantity<S, D> = v.iter().map(|x| mk(*x)).sum();
        c.eq(format_args!("{:?}", v), got.value_unchecked(), want);
        let got: Quantity<S, D> = v.iter().filter(|_| true).map(|x| mk(*x)).sum();
        c.eq(format_args!("filtered {:?}", v), got.value_unchecked(), want);
        let got: Quantity<S, D> = v.iter().map(|x| mk::<S, D>(*x)).collect::<Vec<_>>().into_iter().sum();
        c.eq(format_args!("collected {:?}", v), got.value_unchecked(), want);
    }
    /// All sequences of up to `depth` words; all sequences of up to `long` words that differ from a constant one in at most two places.
    pub fn sums<S: Words, const D: Dimension>(depth: u32, long: usize) -> String {
        let w = S::words();
        let mut c = Cmp::new();
        for n in 0..=depth {
            for code in 0..w.len().pow(n) {
                let mut k = code;
                let v: Vec<S> = (0..n).map(|_| { let x = w[k % w.len()]; k /= w.len(); x }).collect();
                check::<S, D>(&mut c, &v);
            }
        }
        for n in 1..=long {
            for i in 0..n { for j in i..n { for (x, y) in [(1, 0), (1, 4), (5, 6)] {
                let mut v = vec![w[3]; n];
                v[i] = w[x]; v[j] = w[y];
                check::<S, D>(&mut c, &v);
            } } }
        }
        c.done()
    }
}
"""
VECSUMS = """
mod vsums {
    use super::sums::Words;
    macro_rules! words { ($v: ident, $f: ident, $n: expr) => { impl Words for glam::$v { fn words() -> Vec<Self> {
        let w = <$f as Words>::words();
        (0..w.len()).map(|i| glam::$v::from_array(::std::array::from_fn(|k| w[(i + 2 * k) % w.len()]))).collect()
    } } } }
    words!(Vec2, f32, 2); words!(Vec3, f32, 3); words!(DVec2, f64, 2); words!(DVec3, f64, 3);
}
"""


# A storage type of free terms: an operation builds the term that names it. What holds for terms holds for
# every storage type, since the generic operators can only apply the operations of the storage.
FREE = """
#[allow(dead_code)]
mod free {
    use super::vals::Same;
    use std::cell::RefCell;
    use core::cmp::Ordering;
    use core::ops::*;
    #[derive(Clone, PartialEq)]
    enum Node { Leaf(&'static str), Float(u64), Op(&'static str, u32, u32) }
    thread_local! { static TERMS: RefCell<Vec<Node>> = RefCell::new(Vec::new()); }
    fn put(n: Node) -> u32 { TERMS.with(|t| { let mut t = t.borrow_mut(); match t.iter().position(|m| *m == n) { Some(i) => i as u32, None => { t.push(n); t.len() as u32 - 1 } } }) }
    fn show(i: u32) -> String { match TERMS.with(|t| t.borrow()[i as usize].clone()) { Node::Leaf(s) => s.to_string(), Node::Float(b) => format!("{:?}", f64::from_bits(b)), Node::Op(o, a, b) => format!("({} {} {})", o, show(a), show(b)) } }
    fn float(x: f64) -> u32 { put(Node::Float(x.to_bits())) }
    /// Terms of several types, with and without `Copy`.
    #[derive(PartialEq, Eq)] pub struct T<const K: u8>(u32);
    impl Clone for T<0> { fn clone(&self) -> Self { T(self.0) } } impl Copy for T<0> {}
    impl Clone for T<1> { fn clone(&self) -> Self { T(self.0) } } impl Copy for T<1> {}
    impl Clone for T<2> { fn clone(&self) -> Self { T(self.0) } }
    impl Clone for T<3> { fn clone(&self) -> Self { T(self.0) } }
    impl<const K: u8> Same for T<K> where T<K>: Clone { fn same(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl<const K: u8> core::fmt::Debug for T<K> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "{}", show(self.0)) } }
    impl<const K: u8> Default for T<K> { fn default() -> Self { leaf("zero") } }
    pub fn leaf<const K: u8>(s: &'static str) -> T<K> { T(put(Node::Leaf(s))) }
    macro_rules! op { ($t: ident, $f: ident, $at: ident, $af: ident) => {
        impl<const K: u8> $t for T<K> { type Output = Self; fn $f(self, o: Self) -> Self { T(put(Node::Op(stringify!($f), self.0, o.0))) } }
        impl<const K: u8> $at for T<K> { fn $af(&mut self, o: Self) { self.0 = put(Node::Op(stringify!($f), self.0, o.0)); } }
    } }
    op!(Add, add, AddAssign, add_assign); op!(Sub, sub, SubAssign, sub_assign); op!(Mul, mul, MulAssign, mul_assign); op!(Div, div, DivAssign, div_assign);
    /// Different types on the two sides and in the result.
    macro_rules! mixed { ($t: ident, $f: ident, $($at: ident, $af: ident)?) => {
        impl $t<T<1>> for T<0> { type Output = T<2>; fn $f(self, o: T<1>) -> T<2> { T(put(Node::Op(stringify!($f), self.0, o.0))) } }
        impl $t<T<0>> for T<1> { type Output = T<3>; fn $f(self, o: T<0>) -> T<3> { T(put(Node::Op(stringify!($f), self.0, o.0))) } }
        $(impl $at<T<1>> for T<0> { fn $af(&mut self, o: T<1>) { self.0 = put(Node::Op(stringify!($f), self.0, o.0)); } })?
        macro_rules! fl { ($s: ty) => {
            impl $t<$s> for T<0> { type Output = T<3>; fn $f(self, o: $s) -> T<3> { T(put(Node::Op(stringify!($f), self.0, float(o as f64)))) } }
            impl $t<T<0>> for $s { type Output = T<2>; fn $f(self, o: T<0>) -> T<2> { T(put(Node::Op(stringify!($f), float(self as f64), o.0))) } }
        } }
        fl!(f64); fl!(f32);
    } }
    mixed!(Mul, mul, MulAssign, mul_assign); mixed!(Div, div, DivAssign, div_assign);
    impl Add<T<1>> for T<0> { type Output = T<2>; fn add(self, o: T<1>) -> T<2> { T(put(Node::Op("add", self.0, o.0))) } }
    impl Sub<T<1>> for T<0> { type Output = T<3>; fn sub(self, o: T<1>) -> T<3> { T(put(Node::Op("sub", self.0, o.0))) } }
    impl AddAssign<T<1>> for T<0> { fn add_assign(&mut self, o: T<1>) { self.0 = put(Node::Op("add", self.0, o.0)); } }
    impl SubAssign<T<1>> for T<0> { fn sub_assign(&mut self, o: T<1>) { self.0 = put(Node::Op("sub", self.0, o.0)); } }
    impl PartialEq<T<1>> for T<0> { fn eq(&self, o: &T<1>) -> bool { show(self.0).len() == show(o.0).len() } }
    impl PartialOrd<T<1>> for T<0> { fn partial_cmp(&self, o: &T<1>) -> Option<Ordering> { order(&show(self.0), &show(o.0)) } }
    impl<const K: u8> Neg for T<K> { type Output = Self; fn neg(self) -> Self { T(put(Node::Op("neg", self.0, self.0))) } }
    /// An order that is neither total nor that of the terms' creation.
    fn order(a: &str, b: &str) -> Option<Ordering> { if a.len() % 2 != b.len() % 2 { None } else { Some(b.cmp(a)) } }
    impl<const K: u8> PartialOrd for T<K> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { order(&show(self.0), &show(o.0)) } }
    impl PartialEq<f64> for T<0> { fn eq(&self, o: &f64) -> bool { show(self.0).len() as f64 == *o } }
    impl PartialOrd<f64> for T<0> { fn partial_cmp(&self, o: &f64) -> Option<Ordering> { (show(self.0).len() as f64).partial_cmp(o) } }
    impl PartialEq<T<0>> for f64 { fn eq(&self, o: &T<0>) -> bool { show(o.0).len() as f64 == *self } }
    impl PartialOrd<T<0>> for f64 { fn partial_cmp(&self, o: &T<0>) -> Option<Ordering> { self.partial_cmp(&(show(o.0).len() as f64)) } }
    pub fn leaves<const K: u8>() -> Vec<T<K>> { ["x", "y", "zz", "zero", "wwww"].into_iter().map(leaf).collect() }
}
"""


def free_forms():
    """(key, left type, right type, expression, bare) over free terms."""
    out = []

    def F(key, s, t, e, bare):
        out.append((f"terms{s},{t}/{key}", s, t, e, bare))

    def mkq(v, k, d, x, mut=""):
        return f"let {mut}{v}: dimensions::{d}<free::T<{k}>> = mk({x});"

    for s, t in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 0)):
        copy = s < 2
        refs = lambda v, c=True: (v, "&" + v) if copy and c else (v,)
        p, q = mkq("p", s, "A", "a"), mkq("q", t, "B", "b")
        for o in "*/":
            for l in refs("p"):
                for r in refs("q"):
                    F(f"{l}{o}{r}", s, t, f"{p} {q} ({l} {o} {r}).value_unchecked()", f"a {o} b")
        if (s, t) == (1, 0):
            continue
        pm, qn = mkq("p", s, "A", "a", "mut "), mkq("q", t, "N", "b")
        for o in "*/":
            for r in refs("q"):
                F(f"p{o}={r}", s, t, f"{pm} {qn} p {o}= {r}; p.value_unchecked()", f"{{ let mut a = a; a {o}= b; a }}")
                if copy:
                    F(f"&mut p{o}={r}", s, t, f"{pm} {qn} {{ let mut m = &mut p; m {o}= {r}; }} p.value_unchecked()", f"{{ let mut a = a; a {o}= b; a }}")
        for d in "NA":
            p, q, pm = mkq("p", s, d, "a"), mkq("q", t, d, "b"), mkq("p", s, d, "a", "mut ")
            for o in "+-":
                for l in refs("p"):
                    for r in refs("q"):
                        F(f"{d}/{l}{o}{r}", s, t, f"{p} {q} ({l} {o} {r}).value_unchecked()", f"a {o} b")
                for r in refs("q"):
                    F(f"{d}/p{o}={r}", s, t, f"{pm} {q} p {o}= {r}; p.value_unchecked()", f"{{ let mut a = a; a {o}= b; a }}")
                    if copy:
                        F(f"{d}/&mut p{o}={r}", s, t, f"{pm} {q} {{ let mut m = &mut p; m {o}= {r}; }} p.value_unchecked()", f"{{ let mut a = a; a {o}= b; a }}")
            for o in ("==", "!=", "<", "<=", ">", ">="):
                for l, r in (("p", "q"), ("&p", "&q")) + ((("p", "&q"), ("&p", "q")) if copy else ()):
                    F(f"{d}/{l}{o}{r}", s, t, f"{p} {q} {l} {o} {r}", f"a {o} b")
            if s != t:
                continue
            F(f"{d}/partial_cmp", s, t, f"{p} {q} p.partial_cmp(&q)", "a.partial_cmp(&b)")
            F(f"{d}/-p", s, t, f"{p} (-p).value_unchecked()", "-a")
            F(f"{d}/clone", s, t, f"{p} let c = p.clone(); drop(p); c.value_unchecked()", "a")
            F(f"{d}/value_unchecked_ref", s, t, f"{p} p.value_unchecked_ref().clone()", "a")
            F(f"{d}/default", s, t, f"{p} let _ = p; <dimensions::{d}<free::T<{s}>>>::default().value_unchecked()", f"<free::T<{s}>>::default()")
            for n in range(6):
                seq = ["a", "b", "a", "a", "b"][:n]
                bare = f"{{ let mut t = <free::T<{s}>>::default(); " + " ".join(f"t += {x}.clone();" for x in seq) + " t }"
                it = ", ".join(f"mk({x}.clone())" for x in seq)
                F(f"{d}/sum{n}", s, t, f"let v: Vec<dimensions::{d}<free::T<{s}>>> = vec![{it}]; v.into_iter().sum::<dimensions::{d}<free::T<{s}>>>().value_unchecked()", bare)
        if s != t:
            continue
        pn = mkq("p", s, "N", "a")
        for o in "+-":
            for l in refs("p"):
                for r in refs("b"):
                    F(f"N/{l}{o}{r}", s, t, f"{pn} ({l} {o} {r}).value()", f"a {o} b")
        pm = mkq("p", s, "N", "a", "mut ")
        for o in "+-":
            for r in refs("b"):
                F(f"N/p{o}={r} bare", s, t, f"{pm} p {o}= {r}; p.value()", f"a {o} b")
                if copy:
                    F(f"N/&mut p{o}={r} bare", s, t, f"{pm} {{ let mut m = &mut p; m {o}= {r}; }} p.value()", f"a {o} b")
        F("N/from", s, t, f"<dimensions::N<free::T<{s}>>>::from(a).value()", "a")
        F("N/into", s, t, f"let p: dimensions::N<free::T<{s}>> = a.into(); (*p).clone()", "a")
        F("N/value_ref", s, t, f"{pn} p.value_ref().clone()", "a")
    for fl in ("f64", "f32"):
        for d in "NA":
            p = mkq("p", 0, d, "a")
            for o in "*/":
                for l in ("p", "&p"):
                    for r in (f"2.5{fl}", f"&2.5{fl}"):
                        F(f"{d}/{l}{o}{r}", 0, 0, f"{p} ({l} {o} {r}).value_unchecked()", f"a {o} 2.5{fl}")
                        F(f"{d}/{r}{o}{l}", 0, 0, f"{p} ({r} {o} {l}).value_unchecked()", f"2.5{fl} {o} a")
    p = mkq("p", 0, "N", "a")
    for o in ("==", "!=", "<", "<=", ">", ">="):
        for x in ("1.0f64", "2.0f64", "f64::NAN"):
            F(f"N/p{o}{x}", 0, 0, f"{p} p {o} {x}", f"a {o} {x}")
            F(f"N/{x}{o}p", 0, 0, f"{p} {x} {o} p", f"{x} {o} a")
    return out


def free_cases():
    return [
        Obs(key, f"let mut c = Cmp::new(); for a in free::leaves::<{s}>() {{ for b in free::leaves::<{t}>() {{ let name = format!(\"a={{:?}} b={{:?}}\", a, b); "
            f"let want = {{ let a = a.clone(); let b = b.clone(); let _ = &b; {bare} }}; let got = {{ let a = a.clone(); let _ = &b; {e} }}; c.eq(format_args!(\"{{}}\", name), got, want); }} }} c.done()")
        for key, s, t, e, bare in free_forms()
    ]


def sums(storages, thorough):
    depth, long = (6, 40) if thorough else (5, 20)
    return [Obs(f"{s},{s}/{d}/sums", f"sums::sums::<{ty(s)}, {{ DIM_{d} }}>({depth}, {long})") for s in storages for d in "NA"]


def cases_of(F, level):
    out = []
    for key, s, t, guard, e, bare in F:
        body = (
            f"let mut c = Cmp::new(); for a in {ALPHA[s]}({level}) {{ for b in {ALPHA[t]}({level}) {{ if {guard} {{ "
            f"let want = {{ {bare} }}; let got = {{ {e} }}; c.eq(format_args!(\"a={{:?}} b={{:?}}\", a, b), got, want); }} }} }} c.done()"
        )
        out.append(Obs(key, body))
    return out


def main():
    run = Run("P03")
    level = 3 if run.thorough else 2
    for cfg, storages, sup in (("core", ["f64", "f32", "i64"], SUPPORT), ("vec", ["f64", "f32", "Vec2", "DVec2", "Vec3", "DVec3"], SUPPORT + VECSUPPORT)):
        if cfg == "vec" and not run.thorough:
            storages = storages[2:]
        cs = cases_of(forms(storages), level) + sums(storages, run.thorough) + (free_cases() if cfg == "core" else [])
        seen = set()
        cs = [c for c in cs if not ((c.key, c.expr) in seen or seen.add((c.key, c.expr)))]
        observe(run, cfg, SYS + sup + SUMS + (VECSUMS if cfg == "vec" else FREE), cs, build(cfg), chunk=max(60, len(cs) // JOBS + 1), extra=["-C", "opt-level=0"])
        check_values(run, cs)
        run.outcome(f"{cfg}: operator forms", len(cs))
        for c in cs[:: max(1, len(cs) // 5)]:
            run.sample(f"{c.key}: {c.got}")
    run.assumptions = ["values outside the alphabet of special values are not covered; any NaN counts as equal to any NaN"]
    return run.finish()
