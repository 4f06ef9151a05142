"""P02: dimensional consistency of programs is exactly what the compiler accepts."""
import re

from .core import *
from .p01 import FLOAT_FNS, VEC

NAMES = ["A", "B"]


def lit(v):
    return "{Dimension{a: %d, b: %d}}" % v


def dexpr(v):
    num = [f"A^{v[0]}"] * (v[0] > 0) + [f"B^{v[1]}"] * (v[1] > 0)
    den = [f"A^{-v[0]}"] * (v[0] < 0) + [f"B^{-v[1]}"] * (v[1] < 0)
    return " * ".join(num or ["1"]) + "".join(" / " + d for d in den)


def uname(v):
    return "u_" + "_".join(("m" if x < 0 else "p") + str(abs(x)) for x in v)


def uexpr(v):
    return dexpr(v).replace("A", "ua").replace("B", "ub")


def system(dims):
    s = "diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension A; dimension B;\n"
    s += "#[base(A)] #[symbol(ua)] unit ua; #[base(B)] #[symbol(ub)] unit ub;\n"
    for i, v in enumerate(dims):
        s += f"unit {uname(v)} = {i + 2} * {uexpr(v)};\n"
    return s + "constant KK = 3.0; constant KA = 2 ua;\n);\n"


PRELUDE = """
use units::*; use constants::*;
fn same<T>(_: T, _: T) {}
fn samed<S, const D: Dimension>(_: Quantity<S, D>, _: Quantity<S, D>) {}
fn take<T>(_: T) {}
fn samed3<const D: Dimension>(_: &Quantity<f64, D>, _: [Quantity<f64, D>; 1]) {}
mod other { diman::unit_system!(quantity_type Quantity; dimension_type Dimension; dimension A; dimension B;
  #[base(A)] #[symbol(ua)] unit ua; #[base(B)] #[symbol(ub)] unit ub;
  dimension D00 = 1; dimension D10 = A; dimension D01 = B; ); }
"""


def eq(v, w):
    return v == w


def zero_v(v, w):
    return v == (0, 0)


def zero_w(v, w):
    return w == (0, 0)


def always(v, w):
    return True


def never(v, w):
    return False


def both0(v, w):
    return v == w == (0, 0)


def neg(v):
    return (-v[0], -v[1])


def sc(v, k):
    return (v[0] * k, v[1] * k)


def even(v):
    return all(x % 2 == 0 for x in v)


def tri(v):
    return all(x % 3 == 0 for x in v)


def scalar_templates(f):
    """(name, code, accept(v,w), unary?)   x: X = Quantity<f, v>,  y: Y = Quantity<f, w>"""
    one, two = f"1.0{f}", f"2.0{f}"
    T = []

    def t(name, code, acc=eq, un=False):
        T.append((name, code.replace("ONE", one).replace("TWO", two).replace("FF", f), acc, un))

    for o in "+-":
        for l in ("x", "&x"):
            for r in ("y", "&y"):
                t(f"{l}{o}{r}", f"let _ = {l} {o} {r};")
        t(f"x{o}=y", f"let mut x = x; x {o}= y;")
        t(f"x{o}=&y", f"let mut x = x; x {o}= &y;")
        t(f"&mut x{o}=y", f"let mut x = x; let mut r = &mut x; r {o}= y;")
        t(f"&mut x{o}=&y", f"let mut x = x; let mut r = &mut x; r {o}= &y;")
        for l in ("x", "&x"):
            for s in ("ONE", "&ONE"):
                t(f"{l}{o}{s}", f"let _ = {l} {o} {s};", zero_v, True)
                t(f"{s}{o}{l}", f"let _ = {s} {o} {l};", zero_v, True)
        t(f"x{o}=1", f"let mut x = x; x {o}= ONE;", zero_v, True)
        t(f"x{o}=&1", f"let mut x = x; x {o}= &ONE;", zero_v, True)
        t(f"&mut x{o}=1", f"let mut x = x; let mut r = &mut x; r {o}= ONE;", zero_v, True)
        t(f"1{o}=x", f"let mut s = ONE; s {o}= x;", zero_v, True)
        t(f"1{o}=&x", f"let mut s = ONE; s {o}= &x;", zero_v, True)
        t(f"x{o}x:Y", f"let _: Y = x {o} x;")
        t(f"x{o}x*y:X", f"let _: X = x {o} x * y;", zero_w)
        # an operator of this form in which both sides are results of the same operator with
        # different operand dimensions is the known finding checked in main()
        t(f"x*y{o}y*x", f"let _ = x * y {o} y * x;", lambda v, w: True if v == w else None)
        t(f"(x*y:P){o}(y*x:P)", f"let p: P = x * y; let q: P = y * x; let _ = p {o} q;", always)
        t(f"x*y{o}x/y", f"let _ = x * y {o} x / y;", zero_w)
        t(f"x*x{o}y", f"let _ = x * x {o} y;", lambda v, w: sc(v, 2) == w)
        t(f"x*x*y{o}x/y", f"let _ = x * x * y {o} x / y;", lambda v, w: sc(v, 2) == (v[0] - 2 * w[0] + 0, v[1] - 2 * w[1]))
        t(f"1/x{o}y", f"let _ = ONE / x {o} y;", lambda v, w: neg(v) == w)
        t(f"x.squared(){o}y", f"let _ = x.squared() {o} y;", lambda v, w: sc(v, 2) == w)
        t(f"x.cubed(){o}y.squared()", f"let _ = x.cubed() {o} y.squared();", lambda v, w: sc(v, 3) == sc(w, 2))
        t(f"x.powi-1{o}y", f"let _ = x.powi::<{{-1}}>() {o} y;", lambda v, w: neg(v) == w)
    for o in "*/":
        t(f"x{o}=y", f"let mut x = x; x {o}= y;", zero_w)
        t(f"x{o}=&y", f"let mut x = x; x {o}= &y;", zero_w)
        t(f"&mut x{o}=y", f"let mut x = x; let mut r = &mut x; r {o}= y;", zero_w)
        t(f"&mut x{o}=&y", f"let mut x = x; let mut r = &mut x; r {o}= &y;", zero_w)
        t(f"1{o}=x", f"let mut s = ONE; s {o}= x;", zero_v, True)
        t(f"1{o}=&x", f"let mut s = ONE; s {o}= &x;", zero_v, True)
        t(f"x{o}=1", f"let mut x = x; x {o}= ONE;", always, True)
        t(f"x{o}y:X", f"let _: X = x {o} y;", zero_w)
        t(f"x{o}1:Y", f"let _: Y = x {o} TWO;")
    t("x*y:Y", "let _: Y = x * y;", zero_v)
    t("x/y:Y", "let _: Y = x / y;", lambda v, w: v == sc(w, 2))
    t("1/x:Y", "let _: Y = ONE / x;", lambda v, w: neg(v) == w)
    t("1*x:Y", "let _: Y = ONE * x;")
    for o in ("==", "!=", "<", "<=", ">", ">="):
        t(f"x{o}y", f"let _ = x {o} y;")
        t(f"x{o}1", f"let _ = x {o} ONE;", zero_v, True)
        t(f"1{o}x", f"let _ = ONE {o} x;", zero_v, True)
    t("x==&y", "let _ = x == &y;")
    t("&x==y", "let _ = &x == y;")
    t("&x==&y", "let _ = &x == &y;")
    t("x<&y", "let _ = x < &y;")
    t("&x<y", "let _ = &x < y;")
    t("&x<&y", "let _ = &x < &y;")
    t("partial_cmp", "let _ = x.partial_cmp(&y);")
    t("eq", "let _ = PartialEq::eq(&x, &y);")
    t("assert_eq", "assert_eq!(x, y);")
    for m in ("min", "max"):
        t(f"x.{m}(y)", f"let _ = x.{m}(y);")
        t(f"x.{m}(1)", f"let _ = x.{m}(ONE);", zero_v, True)
        t(f"x.{m}(x):Y", f"let _: Y = x.{m}(x);")
    t("clamp(y,y)", "let _ = x.clamp(y, y);")
    t("clamp(x,y)", "let _ = x.clamp(x, y);")
    t("clamp(y,x)", "let _ = x.clamp(y, x);")
    t("clamp(1,1)", "let _ = x.clamp(ONE, TWO);", zero_v, True)
    t("let", "let _: Y = x;")
    t("let&", "let _: &Y = &x;")
    t("let&mut", "let mut x = x; let _: &mut Y = &mut x;")
    t("arg", "take::<Y>(x);")
    t("same", "same(x, y);")
    t("samed", "samed(x, y);")
    t("samed3", "samed3(&x.clone(), [y]);" if f == "f64" else "samed(x, y);")
    t("closure", "(|_: Y| ())(x);")
    t("ret", "let f = move || -> Y { x };")
    t("array", "let _ = [x, y];")
    t("vec", "let _ = vec![x, y];")
    t("push", "let mut v = Vec::<Y>::new(); v.push(x);")
    t("if", "let _ = if true { x } else { y };")
    t("match", "let _ = match 0 { 0 => x, _ => y };")
    t("assign", "let mut y = y; y = x;")
    t("swap", "let (mut x, mut y) = (x, y); std::mem::swap(&mut x, &mut y);")
    t("replace", "let mut y = y; let _ = std::mem::replace(&mut y, x);")
    t("some", "let _: Option<Y> = Some(x);")
    t("box", "let _: Box<Y> = Box::new(x);")
    t("into", "let _: Y = x.into();")
    t("clone", "let _: Y = x.clone();")
    t("neg", "let _: Y = -x;")
    t("abs", "let _: Y = x.abs();")
    t("default", "let _: Y = X::default();")
    t("zero", "let _: Y = X::zero();")
    t("new_unchecked", "let _: Y = X::new_unchecked(ONE);")
    t("sum", "let _: Y = [x, x].into_iter().sum();")
    t("sum2", "let _ = [x].into_iter().sum::<Y>();")
    t("sum3", "let _: Y = (0..3).map(|_| x).sum();")
    t("fold", "let _ = [x].into_iter().fold(y, |a, b| a + b);")
    t("fold2", "let mut y = y; for i in [x] { y += i; }")
    t("squared:Y", "let _: Y = x.squared();", lambda v, w: sc(v, 2) == w)
    t("cubed:Y", "let _: Y = x.cubed();", lambda v, w: sc(v, 3) == w)
    t("powi-2:Y", "let _: Y = x.powi::<{-2}>();", lambda v, w: sc(v, -2) == w)
    t("powi1:Y", "let _: Y = x.powi::<1>();")
    t("powi0:Y", "let _: Y = x.powi::<0>();", zero_w)
    t("f:x", "let _: FF = x;", never, True)
    t("f:into", "let _: FF = x.into();", never, True)
    t("f:x/y", "let _: FF = (x / y).value();")
    t("as", "let _ = x as FF;", never, True)
    t("value", "let _: FF = x.value();", zero_v, True)
    t("value_ref", "let _: &FF = x.value_ref();", zero_v, True)
    t("value_unchecked", "let _: FF = x.value_unchecked();", always, True)
    t("deref", "let _: FF = *x;", zero_v, True)
    t("autoderef", "let _ = x.to_bits();", zero_v, True)
    t("derefcoerce", "let _: &FF = &x;", zero_v, True)
    t("from", "let _ = X::from(ONE);", zero_v, True)
    t("literal", "let _: X = ONE;", never, True)
    t("from:into", "let _: X = ONE.into();", zero_v, True)
    for fn in FLOAT_FNS:
        t(fn, f"let _ = x.{fn}();", zero_v, True)
        t(fn + "(x/y)", f"let _ = (x / y).{fn}();")
    t("powf", f"let _ = x.powf(ONE);", zero_v, True)
    t("atan2", f"let _ = x.atan2(ONE);", zero_v, True)
    for m in ("is_positive", "is_positive_or_zero", "is_negative", "is_negative_or_zero", "is_nan"):
        t(m, f"let _: bool = x.{m}();", always, True)
    t("x*y", "let _ = x * y;", always)
    t("x/y", "let _ = x / y;", always)
    # units
    t("value_in", "let _ = x.value_in(UW);")
    t("value_in*", "let _ = x.value_in(UW * u_p0_p0);")
    t("value_in/", "let _ = x.value_in(UW / u_p0_p0);")
    t("value_in//", "let _ = x.value_in(u_p0_p0 / UW);", lambda v, w: neg(v) == w)
    t("value_in**", "let _ = x.value_in(UW * UW);", lambda v, w: sc(w, 2) == v)
    t("value_inK", "let _ = x.value_in(KK);", zero_v, True)
    t("n*u:Y", "let _: Y = TWO * UV;")
    t("u*n:Y", "let _: Y = UV * TWO;")
    t("u.new:Y", "let _: Y = UV.new(TWO);")
    t("u/n:Y", "let _: Y = UV / TWO;")
    t("n/u:Y", "let _: Y = TWO / UV;", lambda v, w: neg(v) == w)
    t("n*(u/u):Y", "let _: Y = TWO * (UV / UW);", lambda v, w: v == sc(w, 2))
    t("n/(u*u):Y", "let _: Y = TWO / (UV * UV);", lambda v, w: sc(v, -2) == w)
    t("(u*u).new:Y", "let _: Y = (UV * UW).new(TWO);", zero_v)
    t("(u*u)/n:Y", "let _: Y = (UV * UV) / TWO;", lambda v, w: sc(v, 2) == w)
    t("x*u:X", "let _: X = x * UW;", zero_w)
    t("x/u:X", "let _: X = x / UW;", zero_w)
    t("u*x:X", "let _: X = UW * x;", zero_w)
    t("u/x:Y", "let _: Y = UV / y;", lambda v, w: v == sc(w, 2))
    t("x/u+1", "let _ = x / UW + ONE;")
    t("x+n*u", "let _ = x + TWO * UW;")
    t("x+u", "let _ = x + UW;", never)
    t("u+u", "let _ = UV + UW;", never)
    t("u:Y", "let _: Y = UV;", never)
    t("n+u", "let _ = TWO + UV;", never, True)
    t("x==n*u", "let _ = x == TWO * UW;")
    t("struct", "struct Q { q: Y } let _ = Q { q: x };")
    # whatever these do with equal dimensions, with different ones they are rejected
    unequal = lambda v, w: None if v == w else False
    dimensionful = lambda v, w: None if v == (0, 0) else False
    for name, code in {
        "rem": "let _ = x % y;", "rem=": "let mut x = x; x %= y;", "hypot": "let _ = x.hypot(y);", "atan2(y)": "let _ = x.atan2(y);", "copysign": "let _ = x.copysign(y);", "min&": "let _ = x.min(&y);", "max&": "let _ = x.max(&y);",
        "clamp&": "let _ = x.clamp(&y, &y);", "mul_add": "let _: X = x.mul_add(ONE, y);", "total_cmp": "let _ = x.total_cmp(&y);", "cmp": "let _ = x.cmp(&y);", "sum&": "let a = [x, x]; let _: Y = a.iter().sum();",
        "sum copied": "let _: Y = [x, x].iter().copied().sum();", "from quantity": "let _ = Y::from(x);", "from &quantity": "let _ = Y::from(&x);", "try_into": "let _: Result<Y, _> = x.try_into();", "as_ref": "let _: &Y = x.as_ref();", "borrow": "let _: &Y = std::borrow::Borrow::borrow(&x);",
        "sub method": "let _ = std::ops::Sub::sub(x, y);", "abs_sub": "let _ = x.abs_sub(y);", "rem_euclid": "let _ = x.rem_euclid(y);", "div_euclid": "let _: X = x.div_euclid(y);",
        "x+=u": "let mut x = x; x += UW;", "x==u": "let _ = x == UW;", "x.min(u)": "let _ = x.min(UW);", "u from x": "let _: Y = UV.into();", "clamp(n*u)": "let _ = x.clamp(ONE * UW, TWO * UW);", "max(n*u)": "let _ = x.max(TWO * UW);",
        "product:Y": "let _: Y = [x, x].into_iter().product();", "product&:Y": "let _: Y = [x, x].iter().product();", "product of one": "let _ = [x].into_iter().product::<Y>();", "generic_product": "fn g<T, U: std::iter::Product<T>>(a: T) -> U { [a].into_iter().product() } let _: Y = g(x);",
        "slice==": "let _ = [x] == [y];", "slice<": "let _ = [x][..] < [y][..];", "vec==": "let _ = vec![x] == vec![y];", "tuple==": "let _ = (x, 1) == (y, 1);", "contains slice": "let _ = [x].contains(&y);", "iter eq": "let _ = [x].iter().eq([y].iter());", "iter lt": "let _ = [x].into_iter().lt([y]);", "extend": "let mut v = vec![x]; v.extend([y]);", "extend&": "let mut v = vec![x]; v.extend(&[y]);", "collect": "let _: Vec<Y> = [x].into_iter().collect();", "from_iter": "let _ = Vec::<Y>::from_iter([x]);",
        "borrow_mut": "let mut x = x; let _: &mut Y = std::borrow::BorrowMut::borrow_mut(&mut x);", "as_mut": "let mut x = x; let _: &mut Y = x.as_mut();", "cow": "let _: std::borrow::Cow<Y> = std::borrow::Cow::Borrowed(&x);", "neg trait": "fn g<T: std::ops::Neg<Output = U>, U>(a: T) -> U { -a } let _: Y = g(x);", "mul trait": "fn g<T: std::ops::Mul<T, Output = U>, U>(a: T) -> U where T: Copy { a * a } let _: X = g(x); let _: Y = g(y);",
        "partial_ord fn": "let _ = PartialOrd::lt(&x, &y);", "cell": "let c = std::cell::Cell::new(x); c.set(y);", "from array": "let _: [Y; 1] = [x].into();", "option": "let _: Option<Y> = Some(x).into();", "sum of options": "let _: Option<Y> = [Some(x)].into_iter().sum();", "reduce": "let _: Option<Y> = [x].into_iter().reduce(|a, b| a + b);", "try_fold": "let _ = [x].into_iter().try_fold(y, |a, b| Some(a + b));", "zip": "for (a, b) in [x].iter().zip([y].iter()) { let _ = *a - *b; }", "map": "let _: [Y; 1] = [x].map(|a| a + a);", "clone_from": "let mut y = y; y.clone_from(&x);", "take": "let mut x = x; let _: Y = std::mem::take(&mut x);",
        "unit==unit": "let _ = UV == UW;", "unit:unit": "let mut u = UV; u = UW;", "unit array": "let _ = [UV, UW];",
    }.items():
        t(name, code, unequal)
    for name, code in {
        "f:from": "let _ = FF::from(x);", "f:from&": "let _ = FF::from(&x);", "f:as_ref": "let _: &FF = x.as_ref();", "f:borrow": "let _: &FF = std::borrow::Borrow::borrow(&x);", "f:try_into": "let _: Result<FF, _> = x.try_into();",
        "f:clone": "let _: FF = x.clone();", "f:neg": "let _: FF = -x;", "f:abs": "let _: FF = x.abs();", "f:add": "let _: FF = x + x;", "f:x*1": "let _: FF = x * ONE;", "f:1*x": "let _: FF = ONE * x;", "f:x/1": "let _: FF = x / ONE;", "f:1/x": "let _: FF = ONE / x;", "f:min": "let _: FF = x.min(x);", "f:squared": "let _: FF = x.squared();",
        "product": "let _: X = [x, x].into_iter().product();", "product&": "let _: X = [x, x].iter().product();", "f:product": "let _: FF = [x, x].into_iter().product();", "f:product&": "let _: FF = [x, x].iter().product();", "f:sum&": "let _: FF = [x, x].iter().sum();", "x of numbers": "let _: X = [ONE, ONE].into_iter().sum();", "x product of numbers": "let _: X = [ONE].into_iter().product();", "f slice==": "let _ = [x] == [ONE];", "f slice== 2": "let _ = [ONE] == [x];", "f vec==": "let _ = vec![x] == [ONE];", "f contains": "let _ = [ONE].contains(&x);", "f iter eq": "let _ = [x].into_iter().eq([ONE]);", "f iter lt": "let _ = [ONE].into_iter().lt([x]);", "f extend": "let mut v = vec![ONE]; v.extend([x]);", "f extend&": "let mut v = vec![ONE]; v.extend(&[x]);", "x extend f": "let mut v = vec![x]; v.extend([ONE]);",
        "f:as_mut": "let mut x = x; let _: &mut FF = x.as_mut();", "f:borrow_mut": "let mut x = x; let _: &mut FF = std::borrow::BorrowMut::borrow_mut(&mut x);", "f:generic as_ref": "fn g<T: AsRef<FF>>(t: T) -> FF { *t.as_ref() } let _ = g(x);", "f:generic into": "fn g<T: Into<FF>>(t: T) -> FF { t.into() } let _ = g(x);", "f:generic borrow": "fn g<T: std::borrow::Borrow<FF>>(t: T) -> FF { *t.borrow() } let _ = g(x);", "f:generic deref": "fn g<T: std::ops::Deref<Target = FF>>(t: T) -> FF { *t } let _ = g(x);", "f:generic from": "fn g<T: From<FF>>() -> T { T::from(ONE) } let _: X = g();", "x:from&": "let _ = X::from(&ONE);", "x:try_from": "let _ = X::try_from(ONE);", "f:to_owned": "let _: FF = (&x).to_owned();", "x constructor": "let _ = Quantity::<FF, _>::from(ONE) + x;", "f:generic mul": "fn g<T: std::ops::Mul<T, Output = T>>(a: T, b: T) -> T { a * b } let _ = g(x, x);", "f:generic div": "fn g<T: std::ops::Div<T, Output = T>>(a: T, b: T) -> T { a / b } let _ = g(x, x);", "f:generic rem": "fn g<T: std::ops::Rem<T>>(a: T, b: T) -> T::Output { a % b } let _ = g(x, ONE);", "one": "let _ = X::one();", "epsilon": "let _ = X::EPSILON;", "to_f64": "let _ = x.to_f64();", "to_bits": "let _ = X::to_bits(&x);", "from_bits": "let _ = X::from_bits(0);", "f:sum of options": "let _: Option<FF> = [Some(x)].into_iter().sum();",
        "f:sum": "let _: FF = [x, x].into_iter().sum();", "f:default": "let _: FF = X::default();", "f:zero": "let _: FF = X::zero();", "f:value_in value": "let _: FF = x.value_in(KK);", "deref_mut": "let mut x = x; *x = ONE;", "f:deref&": "fn g(_: &FF) {} g(&x);",
        "f cmp": "let _ = ONE.partial_cmp(&x);", "x cmp f": "let _ = x.partial_cmp(&ONE);", "x.clamp(f,x)": "let _ = x.clamp(ONE, ONE);", "f.min": "let _ = ONE.min(x);", "f.max": "let _ = ONE.max(x);", "f.clamp": "let _ = ONE.clamp(x, x);", "f.powf": "let _ = TWO.powf(x);", "f.atan2": "let _ = ONE.atan2(x);", "f.hypot": "let _ = ONE.hypot(x);",
        "round": "let _ = x.round();", "trunc": "let _ = x.trunc();", "fract": "let _ = x.fract();", "sin_cos": "let _ = x.sin_cos();", "powf2": "let _ = x.powf(TWO);", "log": "let _ = x.log(TWO);", "to_degrees": "let _ = x.to_degrees();", "exp(-x)": "let _ = (-x).exp();", "sin(x+x)": "let _ = (x + x).sin();", "literal ret": "let f = || -> X { ONE };", "literal arg": "take::<X>(ONE);",
        "literal field": "struct Q { q: X } let _ = Q { q: ONE };", "literal array": "let _: [X; 2] = [ONE, ONE];", "from int": "let _ = X::from(1);", "f:new": "let _: FF = X::new_unchecked(ONE);", "x*=u": "let mut x = x; x *= UV;", "x/=u": "let mut x = x; x /= UV;", "f+=x": "let mut s = ONE; for i in [x] { s += i; }", "collect": "let _: Vec<FF> = vec![x];",
    }.items():
        t(name, code, dimensionful, True)
    for o in "+-":
        t(f"*r{o}=y", f"let mut x = x; let r = &mut x; *r {o}= y;")
        t(f"*r{o}=&y", f"let mut x = x; let r = &mut x; *r {o}= &y;")
        t(f"v[0]{o}=y", f"let mut v = [x]; v[0] {o}= y;")
        t(f"iter_mut{o}=y", f"let mut v = [x]; for i in v.iter_mut() {{ *i {o}= y; }}")
        t(f"x{o}=n*u", f"let mut x = x; x {o}= TWO * UW;")
        t(f"x.min(x){o}y.abs()", f"let _ = x.min(x) {o} y.abs();")
    for o in "*/":
        t(f"*r{o}=y", f"let mut x = x; let r = &mut x; *r {o}= y;", zero_w)
        t(f"iter_mut{o}=y", f"let mut v = [x]; for i in v.iter_mut() {{ *i {o}= y; }}", zero_w)
        t(f"x{o}=n*u", f"let mut x = x; x {o}= TWO * UW;", zero_w)
    t("range", "let _ = x..y;")
    t("contains", "let _ = (x..x).contains(&y);")
    t("tuple", "let _: (Y, Y) = (x, x);")
    t("generic_sub", "fn g<T: std::ops::Sub<U>, U>(a: T, b: U) -> T::Output { a - b } let _ = g(x, y);")
    t("generic_cmp", "fn g<T: PartialOrd<U>, U>(a: T, b: U) -> bool { a < b } let _ = g(x, y);")
    t("generic_assign", "fn g<T: std::ops::AddAssign<U>, U>(mut a: T, b: U) { a += b } g(x, y);")
    t("generic_scale", "fn g<T: std::ops::MulAssign<U>, U>(mut a: T, b: U) { a *= b } g(x, y);", zero_w)
    t("generic_sum", "fn g<T, U: std::iter::Sum<T>>(a: T) -> U { [a].into_iter().sum() } let _: Y = g(x);")
    t("generic_into", "fn g<T: Into<U>, U>(a: T) -> U { a.into() } let _: Y = g(x);")
    t("generic_add", "fn g<T: std::ops::Add<U, Output = T>, U>(a: T, b: U) -> T { a + b } let _ = g(x, y);")
    return T


def root_templates(f):
    T = []
    T.append(("sqrt", "let _ = x.sqrt();", lambda v, w: even(v), True))
    T.append(("cbrt", "let _ = x.cbrt();", lambda v, w: tri(v), True))
    T.append(("sqrt:Y", "let _: Y = x.sqrt();", lambda v, w: sc(w, 2) == v, False))
    T.append(("cbrt:Y", "let _: Y = x.cbrt();", lambda v, w: sc(w, 3) == v, False))
    T.append(("sqrt(x*y)", "let _ = (x * y).sqrt();", lambda v, w: even((v[0] + w[0], v[1] + w[1])), False))
    T.append(("sqrt.squared:Y", "let _: Y = x.sqrt().squared();", lambda v, w: even(v) and v == w, False))
    return T


def vector_templates(vt):
    f, n = VEC[vt]
    vec = f"glam::{vt}"
    T = []

    def t(name, code, acc=eq, un=False):
        T.append((name, code.replace("VEC", vec + "::ONE").replace("FF", f), acc, un))

    # x: Quantity<vec, v>, y: Quantity<vec, w>; a: Quantity<f, v>, b: Quantity<f, w>
    for o in "+-":
        for l in ("x", "&x"):
            for r in ("y", "&y"):
                t(f"{l}{o}{r}", f"let _ = {l} {o} {r};")
        t(f"x{o}=y", f"let mut x = x; x {o}= y;")
        t(f"x{o}=&y", f"let mut x = x; x {o}= &y;")
        t(f"x{o}VEC", f"let _ = x {o} VEC;", zero_v, True)
        t(f"VEC{o}x", f"let _ = VEC {o} x;", zero_v, True)
        t(f"x{o}=VEC", f"let mut x = x; x {o}= VEC;", zero_v, True)
        t(f"VEC{o}=x", f"let mut s = VEC; s {o}= x;", zero_v, True)
        t(f"x*b{o}y*a", f"let _ = x * b {o} y * a;", lambda v, w: True if v == w else None)
        t(f"(x*b:P){o}(y*a:P)", f"let p: P = x * b; let q: P = y * a; let _ = p {o} q;", always)
        t(f"x{o}y*a", f"let _ = x {o} y * a;", zero_w)
    for o in "*/":
        t(f"x{o}=b", f"let mut x = x; x {o}= b;", zero_w)
        t(f"x{o}=&b", f"let mut x = x; x {o}= &b;", zero_w)
        t(f"x{o}b:X", f"let _: X = x {o} b;", zero_w)
    t("a*VEC:Y", "let _: Y = a * VEC;")
    t("VEC*a:Y", "let _: Y = VEC * a;")
    t("VEC/a:Y", "let _: Y = VEC / a;", lambda v, w: neg(v) == w)
    t("x==y", "let _ = x == y;")
    t("x==VEC", "let _ = x == VEC;", zero_v, True)
    t("VEC==x", "let _ = VEC == x;", zero_v, True)
    t("let", "let _: Y = x;")
    t("same", "same(x, y);")
    t("min", "let _ = x.min(y);")
    t("max", "let _ = x.max(y);")
    t("distance", "let _ = x.distance(&y);")
    t("distance_squared", "let _ = x.distance_squared(&y);")
    t("distance:B", "let _: B = x.distance(&x);")
    t("distance_squared:B", "let _: B = x.distance_squared(&x);", lambda v, w: sc(v, 2) == w)
    t("length:B", "let _: B = x.length();")
    t("dot:B", "let _: B = x.dot(y);", zero_v)
    t("dot:B2", "let _: B = x.dot(x);", lambda v, w: sc(v, 2) == w)
    t("dot+", "let _ = x.dot(x) + b;", lambda v, w: sc(v, 2) == w)
    t("normalize:Y", "let _: Y = x.normalize();", zero_w)
    t("abs:Y", "let _: Y = x.abs();")
    t("zero:Y", "let _: Y = X::zero();")
    t("value", "let _ = x.value();", zero_v, True)
    t("deref", "let _ = *x;", zero_v, True)
    t("from", "let _ = X::from(VEC);", zero_v, True)
    t("sum", "let _: Y = [x].into_iter().sum();")
    t("field", "let _: FF = x.x;", zero_v, True)
    t("index", "let _: FF = x[0];", zero_v, True)
    t("to_array", "let _ = x.to_array();", zero_v, True)
    unequal = lambda v, w: None if v == w else False
    dimensionful = lambda v, w: None if v == (0, 0) else False
    for name, code in {"cross": "let _ = x.cross(y) + x.cross(x);", "dot+": "let _ = x.dot(x) + y.dot(y);", "length+": "let _ = x.length() + y.length();", "length<": "let _ = x.length() < y.length();", "length.min": "let _ = x.length().min(b);", "clamp": "let _ = x.clamp(y, y);", "lerp": "let _ = x.lerp(y, 0.5);", "min&": "let _ = x.min(&y);",
                       "distance value": "let _ = x.distance(y);", "sum&": "let a = [x]; let _: Y = a.iter().sum();", "from": "let _ = Y::from(x);", "unequal +=": "let mut r = &mut x.clone(); r += y;", "components": "let _ = x.x() + y.y();", "components min": "let _ = x.x().min(y.x());"}.items():
        t("different " + name, code, unequal)
    for name, code in {"product": "let _: Y = [x, x].into_iter().product();", "slice==": "let _ = [x] == [y];", "vec==": "let _ = vec![x] == vec![y];", "extend": "let mut v = vec![x]; v.extend([y]);", "dot of neg": "let _ = (-x).dot(x) + y.dot(y);", "sub trait": "let _ = std::ops::Sub::sub(x, y);", "take": "let mut x = x; let _: Y = std::mem::take(&mut x);", "reduce": "let _: Option<Y> = [x].into_iter().reduce(|a, b| a + b);", "borrow": "let _: &Y = std::borrow::Borrow::borrow(&x);"}.items():
        t("different " + name, code, unequal)
    for name, code in {"product": "let _: X = [x, x].into_iter().product();", "vec product": "let _: VECT = [x, x].into_iter().product();", "vec sum": "let _: VECT = [x, x].into_iter().sum();", "vec sum&": "let _: VECT = [x, x].iter().sum();", "vec as_ref": "let _: &VECT = x.as_ref();", "vec borrow": "let _: &VECT = std::borrow::Borrow::borrow(&x);", "array as_ref": "let _: &[FF; %d] = x.as_ref();" % n, "array from": "let _ = <[FF; %d]>::from(x);" % n, "x from array": "let _ = X::from([1.0FF; %d]);" % n, "tuple from": "let _: (%s) = x.into();" % ", ".join(["FF"] * n), "index": "let _: FF = x[0];", "index_mut": "let mut x = x; x[0] = 1.0FF;", "x==vec slice": "let _ = [x] == [VEC];", "vec slice==x": "let _ = [VEC] == [x];", "vec extend": "let mut v = vec![VEC]; v.extend([x]);", "splat": "let _ = X::splat(1.0FF);", "from_array": "let _ = X::from_array([1.0FF; %d]);" % n, "generic into": "fn g<T: Into<VECT>>(t: T) -> VECT { t.into() } let _ = g(x);", "generic deref": "fn g<T: std::ops::Deref<Target = VECT>>(t: T) -> VECT { *t } let _ = g(x);", "generic as_ref": "fn g<T: AsRef<VECT>>(t: T) -> VECT { *t.as_ref() } let _ = g(x);", "component mul": "let _: X = x * x;", "ONE": "let _ = X::ONE;", "X": "let _ = X::X;"}.items():
        t("dimensionful " + name, code.replace("VECT", vec), dimensionful, True)
    for name, code in {"into": "let _: VECT = x.into();", "from": "let _ = <VECT>::from(x);", "add": "let _: VECT = x + x;", "neg": "let _: VECT = -x;", "1*x": "let _: VECT = 1.0FF * x;", "abs": "let _: VECT = x.abs();", "min": "let _ = x.min(VEC);", "VEC.min": "let _ = VEC.min(x);", "VEC.dot": "let _: FF = VEC.dot(x);", "dot": "let _: FF = x.dot(x);",
                       "length": "let _: FF = x.length();", "x": "let _: FF = x.x();", "set_x": "let mut x = x; x.set_x(1.0FF);", "new": "let _ = X::new_x(1.0FF);", "distance": "let _ = x.distance(&VEC);", "*=x": "let mut x = x; x *= x.length();", "field": "let mut x = x; x.x = 1.0FF;", "value": "let _: VECT = x.value();", "literal": "let _: X = VEC;"}.items():
        t("dimensionful " + name, code.replace("VECT", vec), dimensionful, True)
    t("value_in", "let _ = x.value_in(UW);", lambda v, w: None if v == w else False)
    t("v*u:Y", "let _: Y = VEC * UV;")
    t("u*v:Y", "let _: Y = UV * VEC;")
    t("u.new:Y", "let _: Y = UV.new(VEC);", lambda v, w: None if v == w else False)
    t("v/u:Y", "let _: Y = VEC / UV;", lambda v, w: neg(v) == w)
    axes = "xyz"[:n]
    for ax in axes:
        t(f"{ax}:B", f"let _: B = x.{ax}();")
        t(f"set_{ax}", f"let mut x = x; x.set_{ax}(b);")
        t(f"new_{ax}:Y", f"let _: Y = X::new_{ax}(a);")
        t(f"new_{ax}(b)", f"let _ = X::new_{ax}(b);")
    for i in range(n):
        args = ["a"] * n
        args[i] = "b"
        t(f"new/{i}", f"let _ = X::new({', '.join(args)});")
    t("new:Y", f"let _: Y = X::new({', '.join(['a'] * n)});")
    return T


def rand_templates(f):
    T = []

    def t(name, code, acc=eq, un=False):
        T.append((name, code.replace("RNG", "rand::rngs::mock::StepRng::new(0, 1)"), acc, un))

    t("gen_range", "use rand::Rng; let _ = RNG.gen_range(x..y);")
    t("gen_range=", "use rand::Rng; let _ = RNG.gen_range(x..=y);")
    t("gen_range:Y", "use rand::Rng; let _: Y = RNG.gen_range(x..x);")
    t("uniform", "let _ = rand::distributions::Uniform::new(x, y);")
    t("uniform=", "let _ = rand::distributions::Uniform::new_inclusive(x, y);")
    t("uniform&", "let _ = rand::distributions::Uniform::new(&x, &y);")
    t("uniform:Y", "let _ : rand::distributions::Uniform<Y> = rand::distributions::Uniform::new(x, x);")
    t("sample:Y", "use rand::distributions::Distribution; let _: Y = rand::distributions::Uniform::new(x, x).sample(&mut RNG);")
    return T


def generic_templates(f):
    """Programs for all dimensions at once: D and E are parameters; (name, code with types X
    and Y, judged).  With Y = Quantity<f, E> rejected, with Y = X accepted."""
    one = f"1.0{f}"
    T = {}
    for o in "+-":
        for l, r in (("x", "y"), ("&x", "y"), ("x", "&y"), ("&x", "&y")):
            T[f"{l}{o}{r}"] = f"let _ = {l} {o} {r};"
        T[f"x{o}=y"] = f"let mut x = x; x {o}= y;"
        T[f"x{o}=&y"] = f"let mut x = x; x {o}= &y;"
        T[f"&mut x{o}=y"] = f"let mut x = x; let mut r = &mut x; r {o}= y;"
        T[f"x{o}x:Y"] = f"let _: Y = x {o} x;"
    for o in ("==", "!=", "<", "<=", ">", ">="):
        T[f"x{o}y"] = f"let _ = x {o} y;"
    for m in ("min", "max"):
        T[m] = f"let _ = x.{m}(y);"
    T |= {"clamp": "let _ = x.clamp(y, y);", "let": "let _: Y = x;", "let&": "let _: &Y = &x;", "arg": "take::<Y>(x);", "same": "same(x, y);", "array": "let _ = [x, y];", "if": "let _ = if true { x } else { y };", "assign": "let mut y = y; y = x;",
          "neg": "let _: Y = -x;", "abs": "let _: Y = x.abs();", "zero": "let _: Y = X::zero();", "default": "let _: Y = X::default();", "new_unchecked": f"let _: Y = X::new_unchecked({one});", "sum": "let _: Y = [x, x].into_iter().sum();", "sum2": "let _ = [x].into_iter().sum::<Y>();",
          "x*1": f"let _: Y = x * {one};", "1*x": f"let _: Y = {one} * x;", "x/1": f"let _: Y = x / {one};", "scale": f"let mut y = y; y = {one} * x;", "into": "let _: Y = x.into();", "clone": "let _: Y = x.clone();", "swap": "let (mut x, mut y) = (x, y); std::mem::swap(&mut x, &mut y);"}
    return T


def generic_vector_templates():
    T = {k: v for k, v in generic_templates("f64").items() if k[0] not in "1s<>" and not any(z in k for z in ("*1", "/1", "<", ">", "clamp", "new_unchecked", "scale", "sum"))}
    T |= {"distance": "let _ = x.distance(&y);", "distance_squared": "", "dot": "", "length": "let _: B = x.length();", "x": "let _: B = x.x();", "set_y": "let mut x = x; x.set_y(b);", "new_z": "let _: Y = X::new_z(a);", "new": "let _ = X::new(a, b, a);"}
    return {k: v for k, v in T.items() if v}


def generic_cases():
    out = []
    for f in ("f64", "f32"):
        for name, code in generic_templates(f).items():
            for same in (True, False):
                d2 = "" if same else ", const E: Dimension"
                sub = lambda c, X, Y: re.sub(r"\bX\b", X, re.sub(r"\bY\b", Y, c))
                X, Y = f"Quantity<{f}, D>", f"Quantity<{f}, {'D' if same else 'E'}>"
                body = sub(code, X, Y).replace(f"{X}::", f"<{X}>::")
                out.append((f"generic/{f}/{name}/{'equal' if same else 'any'}", f"fn caseN<const D: Dimension{d2}>(x: {X}, y: {Y}) {{ {body} }}", same))
    for vt in ("DVec3", "Vec3"):
        f = VEC[vt][0]
        for name, code in generic_vector_templates().items():
            for same in (True, False):
                d2 = "" if same else ", const E: Dimension"
                e = "D" if same else "E"
                X, Y = f"Quantity<glam::{vt}, D>", f"Quantity<glam::{vt}, {e}>"
                body = re.sub(r"\bX\b", X, re.sub(r"\bY\b", Y, re.sub(r"\bB\b", f"Quantity<{f}, {e}>", code))).replace(f"{X}::", f"<{X}>::")
                out.append((f"generic/{vt}/{name}/{'equal' if same else 'any'}", f"fn caseN<const D: Dimension{d2}>(x: {X}, y: {Y}, a: Quantity<{f}, D>, b: Quantity<{f}, {e}>) {{ {body} }}", same))
    for f in ("f64", "f32"):
        for name, code in {"value": "let _: FF = x.value();", "value_ref": "let _: &FF = x.value_ref();", "deref": "let _: FF = *x;", "into": "let _: FF = x.into();", "from": "let _: Quantity<FF, D> = (1.0FF).into();", "+1": "let _ = x + 1.0FF;", "1-x": "let _ = 1.0FF - x;", "<1": "let _ = x < 1.0FF;", "min1": "let _ = x.min(1.0FF);",
                           "sin": "let _ = x.sin();", "exp": "let _ = x.exp();", "floor": "let _ = x.floor();", "*=x": "let mut y = x; y *= x;", "/=x": "let mut y = x; y /= x;", "x*x:X": "let _: Quantity<FF, D> = x * x;", "value_in": "let _ = x.value_in(ua);", "new": "let _: Quantity<FF, D> = ua.new(1.0FF);"}.items():
            out.append((f"generic/{f}/{name}", f"fn caseN<const D: Dimension>(x: Quantity<{f}, D>) {{ {code.replace('FF', f)} }}", False))
        for name, code in {"value_unchecked": "let _: FF = x.value_unchecked();", "is_nan": "let _: bool = x.is_nan();", "is_negative": "let _: bool = x.is_negative();", "*=1": "let mut y = x; y *= 2.0FF;", "/=1": "let mut y = x; y /= 2.0FF;", "debug": "let _ = format!(\"{:?}\", x);", "chain": "let _ = (x + x - x.min(x).max(x)) < x.abs();"}.items():
            out.append((f"generic/{f}/{name}", f"fn caseN<const D: Dimension>(x: Quantity<{f}, D>) {{ {code.replace('FF', f)} }}", True))
    return [Case(k, c.replace("caseN", f"case{i}"), e) for i, (k, c, e) in enumerate(out)]


def cross_templates():
    return [
        ("cross+", "let _ = x + o;", never, True),
        ("cross==", "let _ = x == o;", never, True),
        ("cross*", "let _ = x * o;", never, True),
        ("crosslet", "let _: X = o;", never, True),
        ("crossmin", "let _ = x.min(o);", never, True),
        ("cross*=", "let mut x = x; x *= o;", never, True),
    ]


def main():
    run = Run("P02")
    deep = run.thorough
    small = [(0, 0), (1, 0), (0, 1), (2, 0), (-1, 0), (1, -1), (2, -2), (3, 3)]
    if deep:
        small = [(a, b) for a in range(-2, 4) for b in range(-2, 4)]
    tiny = [(0, 0), (1, 0), (0, 1), (2, 0), (-1, 0)]
    total_alone = 0

    def group(tag, cfg, templates, dims, sig, batch):
        nonlocal total_alone
        cases = []
        for name, code, acc, un in templates:
            for v in dims:
                for w in dims[:1] if un else dims:
                    body = code.replace("UV", uname(v)).replace("UW", uname(w))
                    want = acc(v, w)
                    if want is None:
                        continue
                    k = len(cases)
                    c = f"fn case{k}() {{ {sig(v, w)} {body} }}"
                    cases.append(Case(f"{tag}/{name}/{v}/{'' if un else w}", c, bool(want)))
                    run.states.add((tag, v, w))
        art = build(cfg)
        total_alone += decide(run, tag, system(dims) + PRELUDE, cases, art, batch=batch, codegen=False)
        check_decisions(run, tag, cases)
        for e in (True, False):
            ex = [c for c in cases if c.expect == e]
            run.outcome(f"{tag}: expected {'accept' if e else 'reject'}", len(ex))
            if ex:
                c = ex[len(ex) // 2]
                run.sample(f"{c.key}: {c.code} -> {'accepted' if c.got else 'rejected: ' + c.why[:80]}", cap=20)

    def sig(s):
        return lambda v, w: f"type X = Quantity<{s}, {lit(v)}>; type Y = Quantity<{s}, {lit(w)}>; type P = Quantity<{s}, {lit((v[0] + w[0], v[1] + w[1]))}>; let (x, y): (X, Y) = todo!();"

    def vsig(vt):
        f = VEC[vt][0]
        return lambda v, w: (
            f"type X = Quantity<glam::{vt}, {lit(v)}>; type Y = Quantity<glam::{vt}, {lit(w)}>; type B = Quantity<{f}, {lit(w)}>; type P = Quantity<glam::{vt}, {lit((v[0] + w[0], v[1] + w[1]))}>; "
            f"let (x, y): (X, Y) = todo!(); let (a, b): (Quantity<{f}, {lit(v)}>, B) = todo!();"
        )

    group("f64", "core", scalar_templates("f64"), small, sig("f64"), 150)
    group("f32", "core", scalar_templates("f32"), small if deep else tiny, sig("f32"), 150)
    rdims = [(0, 0), (1, 0), (2, 0), (0, 3), (6, -6), (3, 2)] + ([(4, 2), (-3, 3), (-1, 2)] if deep else [])
    group("roots64", "core", root_templates("f64"), rdims, sig("f64"), 40)
    group("roots32", "core", root_templates("f32"), rdims[:4], sig("f32"), 40)
    for vt in VEC:
        group(vt, "vec", vector_templates(vt), small[:9] if deep else (tiny if vt in ("DVec3", "Vec2") else tiny[:3]), vsig(vt), 150)
    group("rand64", "rand", rand_templates("f64"), tiny, sig("f64"), 100)
    group("rand32", "rand", rand_templates("f32"), tiny[:3], sig("f32"), 100)
    group("cross", "core", cross_templates(), tiny[:3],
          lambda v, w: f"type X = Quantity<f64, {lit(v)}>; let x: X = todo!(); let o: other::dimensions::D{v[0]}{v[1]}<f64> = todo!();", 30)
    # programs that are generic over the dimension: decided for all dimensions at once
    gen = generic_cases()
    total_alone += decide(run, "generic", system(tiny) + PRELUDE, gen, build("vec"), batch=60, codegen=False)
    check_decisions(run, "generic", gen)
    run.outcome("generic programs", len(gen))
    # operands that are both results of the same operator, with different operand dimensions
    kf = []
    for f in ("f64", "f32"):
        for name, e in (("product", "a * b + b * a"), ("quotient", "c / (b * b) + a / b")):
            kf.append(Case(f"same-operator/{f}/{name}", f"fn k{len(kf)}() {{ let (a, b, c): (Quantity<{f}, {lit((1, 0))}>, Quantity<{f}, {lit((0, 1))}>, "
                           f"Quantity<{f}, {lit((1, 1))}>) = todo!(); let _ = {e}; }}", True))
    total_alone += decide(run, "kf", system([(0, 0)]) + PRELUDE, kf, build("core"), codegen=False)
    check_decisions(run, "kf", kf)
    run.extra["decided_alone"] = total_alone
    run.assumptions = ["constructs outside the template list are not covered"]
    return run.finish()
