"""P19: enabling features never changes the meaning of existing programs.

The lattice of feature combinations is enumerated.  For each combination cargo builds diman, one
probe program with everything the combination provides is compiled and run, and every observation
is compared with the same observation under every other combination; rejected constructs have to
be rejected under each.  Combinations without crates that need the standard library also run the
probe as a freestanding (no_std) program."""
import itertools
import re
import shutil
import threading

from .core import *

FEATURES = ["f32", "f64", "std", "libm", "si", "rational", "vec2", "dvec2", "vec3", "dvec3", "serde", "rand", "mpi", "hdf5"]
VEC = {"vec2": ("Vec2", "f32", "xy"), "dvec2": ("DVec2", "f64", "xy"), "vec3": ("Vec3", "f32", "xyz"), "dvec3": ("DVec3", "f64", "xyz")}


def supported(fs):
    return not (fs & {"serde", "hdf5"} and "std" not in fs) and not ("rational" in fs and not fs & {"std", "libm"})


def closure(fs):
    return frozenset(fs) | {VEC[f][1] for f in fs if f in VEC}


def lattice():
    seen = set()
    for n in range(len(FEATURES) + 1):
        for c in itertools.combinations(FEATURES, n):
            c = closure(c)
            if c & {"f32", "f64"} and supported(c):
                seen.add(c)
    return sorted(seen, key=lambda c: (len(c), sorted(c)))


def covering(all_, strength):
    """Greedy subset of the lattice which covers every realisable presence/absence pattern of
    `strength` features; starts with the smallest and the largest combinations."""
    groups = list(itertools.combinations(range(len(FEATURES)), strength))
    bit = {}
    masks = []
    for c in all_:
        have = [f in c for f in FEATURES]
        m = 0
        for g in groups:
            m |= 1 << bit.setdefault((g, tuple(have[i] for i in g)), len(bit))
        masks.append(m)
    top = max(len(c) for c in all_)
    out = [i for i, c in enumerate(all_) if len(c) in (1, top)]
    todo = (1 << len(bit)) - 1
    for i in out:
        todo &= ~masks[i]
    while todo:
        i = max(range(len(all_)), key=lambda i: (masks[i] & todo).bit_count())
        out.append(i)
        todo &= ~masks[i]
    return [all_[i] for i in out]


SYS = """pub mod sys { diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension Length; dimension Time; dimension Mass; dimension One = 1; dimension Area = Length^2;
 dimension Vel = Length / Time; dimension Vol6 = Length^6 / Time^12; dimension Force = Mass * Length / Time^2; dimension Back = Time^-3 * Length^2 / Mass; dimension Rate = 1 / Time; dimension Momentum = Mass * Vel;
 #[base(Length)] #[symbol(m)] #[metric_prefixes] #[alias(metre)] unit meter; #[base(Time)] #[symbol(s)] #[prefix(milli)] unit second; #[base(Mass)] #[symbol(g)] #[prefix(kilo)] unit gram;
 #[symbol(min)] unit minute = 60 * second; unit kmh: Vel = kilometer / (60 * minute); #[symbol(N)] unit newton: Force = kilogram * meter / second^2; unit odd = 2.5e-7 * meter^-2 second^3;
 #[symbol(hx)] unit half = 0.5; {POWERS} constant SPEED = 299792458.0 * meter / second; constant TINY: Time = 1e-310 * second; constant HUGE = 1e300 meter^3 / gram; constant THIRD = 1 / 3; ); }
use sys::{Quantity, Dimension, dimensions, units, constants};
mod s2 { diman::unit_system!( quantity_type Q2; dimension_type D2; dimension Banana; #[base(Banana)] #[symbol(b)] unit banana; unit bunch = 7 * banana; ); }
"""

POWERS = [(n, e) for n in ("foot", "tick", "speed") for e in (-7, -5, -4, -3, -2, -1, 0, 1, 2, 3, 5, 7, 11)]
_pw = lambda n, e: f"{n}_{'n' if e < 0 else 'p'}{abs(e)}"
SYS = SYS.replace("{POWERS}", "unit foot = 0.3048 * meter; unit tick = 0.13 * second; unit speed = 3.7e-7 * foot / tick; " + " ".join(f"unit {_pw(n, e)} = {n}^{e};" for n, e in POWERS))

IO = r"""
use core::fmt::Write as _;
extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; }
struct Out; impl core::fmt::Write for Out { fn write_str(&mut self, s: &str) -> core::fmt::Result { let mut b = s.as_bytes(); while !b.is_empty() { let n = unsafe { write(1, b.as_ptr(), b.len()) }; if n <= 0 { return Err(core::fmt::Error) } b = &b[n as usize..]; } Ok(()) } }
struct Buf { b: [u8; 32768], n: usize }
impl core::fmt::Write for Buf { fn write_str(&mut self, s: &str) -> core::fmt::Result { for c in s.bytes() { if self.n == self.b.len() { self.flush()?; } self.b[self.n] = c; self.n += 1; } Ok(()) } }
impl Buf { fn flush(&mut self) -> core::fmt::Result { let n = self.n; self.n = 0; Out.write_str(unsafe { core::str::from_utf8_unchecked(&self.b[..n]) }) } }
trait Ob { fn ob(&self, o: &mut Buf); }
impl Ob for f32 { fn ob(&self, o: &mut Buf) { if self.is_nan() { write!(o, "nan") } else { write!(o, "{:08x}", self.to_bits()) }.unwrap() } }
impl Ob for f64 { fn ob(&self, o: &mut Buf) { if self.is_nan() { write!(o, "nan") } else { write!(o, "{:016x}", self.to_bits()) }.unwrap() } }
impl Ob for bool { fn ob(&self, o: &mut Buf) { write!(o, "{}", self).unwrap() } }
impl Ob for usize { fn ob(&self, o: &mut Buf) { write!(o, "{}", self).unwrap() } }
impl Ob for Option<core::cmp::Ordering> { fn ob(&self, o: &mut Buf) { write!(o, "{:?}", self).unwrap() } }
impl<T: Ob, const N: usize> Ob for [T; N] { fn ob(&self, o: &mut Buf) { for x in self { x.ob(o); write!(o, ",").unwrap() } } }
struct Dbg<T>(T); impl<T: core::fmt::Debug> Ob for Dbg<T> { fn ob(&self, o: &mut Buf) { write!(o, "{:?}", self.0).unwrap() } }
struct Dbg3<T>(T); impl<T: core::fmt::Debug> Ob for Dbg3<T> { fn ob(&self, o: &mut Buf) { write!(o, "{:+.3?}", self.0).unwrap() } }
macro_rules! o { ($o: ident, $k: expr, $($v: expr),*) => { write!($o, "{}\t", $k).unwrap(); $({ let v = $v; v.ob($o); write!($o, ";").unwrap(); })* write!($o, "\n").unwrap(); } }
"""

UNARY_MATH = ("exp log ln ln_1p exp_m1 log2 log10 exp2 sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh").split()
MATHLIB = [m for m in UNARY_MATH if m != "log"]
EXACT_MATH = ["ceil", "floor", "round", "trunc", "fract"]


def float_probe(T, caps):
    L, V, A, N, V6 = (f"dimensions::{d}<{T}>" for d in ("Length", "Vel", "Area", "One", "Vol6"))
    nu = "Quantity::new_unchecked"
    out = []
    vals = f"[1.5, -2.0, 0.1, 0.0, -0.0, 3.7e5, 1e-30, -7.25e-3, {T}::INFINITY, {T}::NEG_INFINITY, {T}::NAN, {T}::MAX, {T}::MIN_POSITIVE, 0.7]"
    one = []

    def k(name, *es):
        one.append(f'o!(o, "{T} {name}", {", ".join(es)});')

    def m(name, *es):
        one.append(f'o!(o, "~{{LIB}} {T} {name}", {", ".join(es)});')

    one.append(f"let l: {L} = {nu}(a); let v: {V} = {nu}(a); let n: {N} = {nu}(a); let s6: {V6} = {nu}(a); let t: dimensions::Time<{T}> = {nu}(a);")
    for u in ("meter", "kilometer", "attometer", "exametre", "metre"):
        k(f"unit {u}", f"{{ let q: {L} = units::{u}.new(a); q.value_unchecked() }}", f"{{ let q: {L} = a * units::{u}; q.value_unchecked() }}", f"{{ let q: {L} = units::{u} * a; q.value_unchecked() }}", f"l.value_in(units::{u})")
    for u in ("minute", "millisecond"):
        k(f"unit {u}", f"t.value_in(units::{u})", f"{{ let q: dimensions::Time<{T}> = a * units::{u}; q.value_unchecked() }}", f"{{ let q: dimensions::Rate<{T}> = a / units::{u}; q.value_unchecked() }}", f"{{ let q: {V} = l / units::{u}; q.value_unchecked() }}")
    k("unit compound", f"{{ let q: {V} = a * units::kmh; q.value_unchecked() }}", "v.value_in(units::kmh)", "v.value_in(units::kilometer / units::minute)", f"{{ let q: {V} = a * units::kilometer / units::minute; q.value_unchecked() }}", f"{{ let q: dimensions::Force<{T}> = a * units::newton; q.value_unchecked() }}", "(a * units::odd).value_unchecked()", f"{{ let q: {N} = a * units::half; q.value() }}", "n.value_in(units::half)")
    k("constants", f"{{ let q: {V} = a * constants::SPEED; q.value_unchecked() }}", f"{{ let q: {L} = t * constants::SPEED; q.value_unchecked() }}", f"{{ let q: {L} = constants::SPEED * t; q.value_unchecked() }}", f"{{ let q: dimensions::Time<{T}> = a * constants::TINY; q.value_unchecked() }}", "(a * constants::HUGE).value_unchecked()", f"{{ let q: {N} = a * constants::THIRD; q.value() }}", f"{{ let q: {N} = v / constants::SPEED; q.value() }}")
    k("powers of units", *(f"(1.0{T} * units::{_pw(n, e)}).value_unchecked()" for n, e in POWERS))
    k("raw", "l.value_unchecked()", "*l.value_unchecked_ref()", "n.value()", "*n", "*n.value_ref()")
    k("neg abs", f"{{ let r: {L} = -l; r.value_unchecked() }}", f"{{ let r: {L} = l.abs(); r.value_unchecked() }}", "l.is_nan()", "l.is_positive()", "l.is_negative()", "l.is_positive_or_zero()", "l.is_negative_or_zero()", f"<{L}>::zero().value_unchecked()", f"<{L}>::default().value_unchecked()")
    k("squared", f"{{ let r: {A} = l.squared(); r.value_unchecked() }}", "l.cubed().value_unchecked()", f"l.powi::<2>().value_unchecked()", "l.powi::<0>().value_unchecked()", "l.powi::<7>().value_unchecked()")
    m("powi", "l.powi::<-1>().value_unchecked()", "l.powi::<-3>().value_unchecked()")
    k("debug", "Dbg(l)", "Dbg(v)", "Dbg(n)", "Dbg(s6)", "Dbg3(l)", "Dbg(t * l)", f"Dbg(a * units::newton)", "Dbg(a * constants::HUGE)")
    if caps & {"std", "libm"}:
        for f in MATHLIB:
            m(f, f"n.{f}().value()")
        for f in ("ceil", "floor"):
            k(f, f"n.{f}().value()")
        k("sqrt", "s6.sqrt().value_unchecked()", "Dbg(s6.sqrt())")
        m("cbrt", "s6.cbrt().value_unchecked()")
    two = [f"let l: {L} = {nu}(a); let k: {L} = {nu}(b); let t: dimensions::Time<{T}> = {nu}(b); let n: {N} = {nu}(b);"]

    def k2(name, *es):
        two.append(f'o!(o, "{T} {name}", {", ".join(es)});')

    for op in "+-":
        k2(f"op {op}", *(f"{{ let r: {L} = {x} {op} {y}; r.value_unchecked() }}" for x in ("l", "&l") for y in ("k", "&k")), f"{{ let mut r = l; r {op}= k; r.value_unchecked() }}", f"{{ let mut r = l; r {op}= &k; r.value_unchecked() }}")
        k2(f"dimensionless {op}", f"{{ let r: {N} = n {op} a; r.value() }}", f"{{ let r: {N} = a {op} n; r.value() }}", f"{{ let mut r = n; r {op}= a; r.value() }}", f"{{ let mut r = a; r {op}= n; r }}")
    k2("op /", *(f"{{ let r: {V} = {x} / {y}; r.value_unchecked() }}" for x in ("l", "&l") for y in ("t", "&t")), f"{{ let r: {L} = l / b; r.value_unchecked() }}", f"{{ let r: dimensions::Rate<{T}> = a / t; r.value_unchecked() }}", f"{{ let mut r = l; r /= b; r.value_unchecked() }}", f"{{ let mut r = l; r /= n; r.value_unchecked() }}", f"{{ let r: {L} = l / n; r.value_unchecked() }}")
    k2("op *", *(f"{{ let r: {A} = {x} * {y}; r.value_unchecked() }}" for x in ("l", "&l") for y in ("k", "&k")), f"{{ let r: {L} = l * b; r.value_unchecked() }}", f"{{ let r: {L} = b * l; r.value_unchecked() }}", f"{{ let mut r = l; r *= b; r.value_unchecked() }}", f"{{ let mut r = l; r *= n; r.value_unchecked() }}")
    k2("compare", "l == k", "l < k", "l.partial_cmp(&k)", "n == a", "a < n", "l >= k")
    k2("min max", f"{{ let r: {L} = l.min(k); zs(r.value_unchecked() as f64) }}", f"{{ let r: {L} = l.max(k); zs(r.value_unchecked() as f64) }}", f"if b.is_nan() || b < 0.0 {{ 0.0 }} else {{ let r: {L} = l.clamp(-k, k); r.value_unchecked() }}")
    k2("sum", f"{{ let r: {L} = [l, k, l].into_iter().sum(); r.value_unchecked() }}")
    out.append(f"fn p_{T}(o: &mut Buf) {{ for a in {vals} {{ {' '.join(one)} for b in {vals} {{ let b: {T} = b; {' '.join(two)} }} }} o!(o, \"{T} size\", core::mem::size_of::<{L}>(), core::mem::align_of::<{L}>()); o!(o, \"{T} product\", {{ let q: diman::Product<{L}, {V}> = l_{T}() * v_{T}(); q.value_unchecked() }}, {{ let q: diman::Quotient<{L}, {V}> = l_{T}() / v_{T}(); q.value_unchecked() }}); o!(o, \"{T} second system\", {{ let q: s2::dimensions::Banana<{T}> = 3.0{T} * s2::units::bunch; q.value_unchecked() }}); }}\nfn l_{T}() -> {L} {{ {nu}(6.5) }} fn v_{T}() -> {V} {{ {nu}(0.1) }}\n")
    return "".join(out)


def vec_probe(f, caps):
    v, T, axes = VEC[f]
    G = f"glam::{v}"
    L, N = f"dimensions::Length<{G}>", f"dimensions::One<{G}>"
    nu = "Quantity::new_unchecked"
    alpha = f"[1.5, -0.0, {T}::NAN, 3.7e5, 0.1]"
    arr = "to_array()"
    es = []

    def k(name, *e):
        es.append(f'o!(o, "{v} {name}", {", ".join(e)});')

    r = lambda e, d="Length": f"{{ let r: dimensions::{d}<{G}> = {e}; r.value_unchecked().{arr} }}"
    s = lambda e, d="Length": f"{{ let r: dimensions::{d}<{T}> = {e}; r.value_unchecked() }}"
    k("arith", *(r(f"{x} {op} {y}") for op in "+-" for x in ("p", "&p") for y in ("q", "&q")), r("-p"), f"{{ let mut r = p; r += q; r -= &p; r.value_unchecked().{arr} }}")
    k("scale", r("p * a"), r("a * p"), r("p / a"), r("p * n"), r("p / t", "Vel"), r("p * l", "Area"), r("l * p", "Area"), f"{{ let mut r = p; r *= n; r /= n; r.value_unchecked().{arr} }}")
    k("components", *(s(f"p.{c}()") for c in axes), *(f"{{ let mut r = p; r.set_{c}(l); r.value_unchecked().{arr} }}" for c in axes), r(f"<{L}>::new({', '.join(['l', 'p.y()', 'p.x()'][:len(axes)])})"), *(r(f"<{L}>::new_{c}({nu}(2.5 as {T}))") for c in axes))
    k("methods", s("p.length()"), s("p.distance(&q)"), s("p.distance_squared(&q)", "Area"), s("p.dot(q)", "Area"), f"p.normalize().value().{arr}", r("p.abs()"), r(f"<{L}>::zero()"), "p == q", r("[p, q, p].into_iter().sum()"))
    k("minmax", f"{{ let r: {L} = p.min(q); r.value_unchecked().{arr}.map(|x| zs(x as f64)) }}", f"{{ let r: {L} = p.max(q); r.value_unchecked().{arr}.map(|x| zs(x as f64)) }}")
    k("units", r(f"p.value_unchecked() * units::kilometer"), r(f"units::minute * p.value_unchecked()", "Time"), r("p.value_unchecked() / units::minute", "Rate"))
    k("debug", "Dbg(p)", "Dbg3(q)", "Dbg(p * l)")
    k("size", f"core::mem::size_of::<{L}>()", f"core::mem::align_of::<{L}>()")
    vs = ", ".join(f"al[(i + {j * 2} + i / 5 * {j}) % 5]" for j in range(len(axes)))
    return f"fn p_{v}(o: &mut Buf) {{ let al: [{T}; 5] = {alpha}; for i in 0..15 {{ for j in 0..5 {{ let a: {T} = al[j]; let l: dimensions::Length<{T}> = {nu}(a); let t: dimensions::Time<{T}> = {nu}(a); let n: dimensions::One<{T}> = {nu}(a); let p: {L} = {nu}({G}::new({vs})); let q: {L} = {{ let i = i + j; {nu}({G}::new({vs})) }}; {' '.join(es)} }} }} }}\n"


def extra_probe(caps):
    """(function text, calls) of the sections for the other features"""
    out, calls = "", []
    Ts = [t for t in ("f32", "f64") if t in caps]
    st = [(t, t, f"{t}::from_bits({'0x3fc00001' if t == 'f32' else '0x3ff8000000000001'})") for t in Ts] + [(VEC[f][0], "glam::" + VEC[f][0], f"glam::{VEC[f][0]}::new({', '.join(['1.5', '-0.1', '3e10'][:len(VEC[f][2])])})") for f in VEC if f in caps]
    if "si" in caps:
        b = []
        for t in Ts:
            b.append("use diman::si::{units, dimensions, Quantity as Q};")
            for u in SI_UNITS:
                b.append(f'o!(o, "{t} si {u}", (a * units::{u}).value_unchecked(), Dbg(a * units::{u}));')
            for c in SI_CONSTANTS:
                b.append(f'o!(o, "{t} si {c}", (a * diman::si::constants::{c}).value_unchecked());')
            b.append(f'o!(o, "{t} si ops", {{ let v: dimensions::Velocity<{t}> = (a * units::meters) / (b * units::seconds); v.value_unchecked() }}, {{ let e: dimensions::Energy<{t}> = (a * units::newtons) * (b * units::meters); e.value_in(units::joules) }}, {{ let r: dimensions::Length<{t}> = (a * units::meters) - (b * units::kilometers); r.value_unchecked() }}, {{ let q: dimensions::Area<{t}> = (a * units::meters).squared(); q.value_unchecked() }}, (a * units::meters) < (b * units::meters));')
            if caps & {"std", "libm"}:
                b.append(f'o!(o, "~{{SILIB}} {t} si math", {{ let r: dimensions::Length<{t}> = (a * units::square_meters).abs().sqrt(); r.value_unchecked() }}, {{ let r: dimensions::Dimensionless<{t}> = b.into(); r.cos().value() }}, {{ let r: dimensions::Dimensionless<{t}> = b.into(); r.exp().value() }});')
            out += f"fn p_si_{t}(o: &mut Buf) {{ for a in [1.5, -2.0, 0.1, 3.7e5] {{ for b in [0.7, 3.0, -2.0] {{ let b: {t} = b; let a: {t} = a; {' '.join(b)} }} }} }}\n"
            calls.append(f"p_si_{t}(o);")
            b = []
    if "serde" in caps:
        for s, t, v in st:
            b = [f'for d in 0..2 {{ let q: dimensions::Vel<{t}> = Quantity::new_unchecked(x); let s = serde_json::to_string(&q).unwrap(); let y = serde_yaml::to_string(&q).unwrap(); let r: dimensions::Vel<{t}> = serde_json::from_str(&s).unwrap(); o!(o, "{s} serde", Dbg(&s), Dbg(&y), Dbg(r), Dbg(serde_json::from_str::<dimensions::Length<{t}>>(&s).is_err())); }}']
            if s == t:
                b.append(f'for w in ["3 km", "2.5 min", "-7 N s^2 m^-1", "5", "3 hx", "1e3 m s^-1", "nan g", "3 zz", "", "m", "3 m m", "6 kg m^2 g^-1"] {{ let j = format!("\\"{{w}}\\""); o!(o, "{s} serde read", Dbg(w), Dbg(serde_json::from_str::<dimensions::Length<{t}>>(&j).ok()), Dbg(serde_yaml::from_str::<dimensions::Time<{t}>>(&j).ok()), Dbg(serde_json::from_str::<dimensions::One<{t}>>(&j).ok()), Dbg(serde_json::from_str::<dimensions::Mass<{t}>>(&j).ok()), Dbg(serde_json::from_str::<dimensions::Area<{t}>>(&j).ok())); }}')
            out += f"fn p_serde_{s}(o: &mut Buf) {{ let x: {t} = {v}; {' '.join(b)} }}\n"
            calls.append(f"p_serde_{s}(o);")
        if "si" in caps:
            for t in Ts:
                out += f"fn p_serde_si_{t}(o: &mut Buf) {{ use diman::si::dimensions::*; for w in [\"3 km\", \"2 kJ\", \"5 N m\", \"7 eV\", \"1.5 m^2 s^-2 kg\", \"4 h\", \"5 mK\"] {{ let j = format!(\"\\\"{{w}}\\\"\"); o!(o, \"{t} serde si\", Dbg(w), Dbg(serde_json::from_str::<Energy<{t}>>(&j).ok()), Dbg(serde_json::from_str::<Length<{t}>>(&j).ok()), Dbg(serde_json::from_str::<Temperature<{t}>>(&j).ok()), Dbg(serde_json::from_str::<Time<{t}>>(&j).ok())); }} }}\n"
                calls.append(f"p_serde_si_{t}(o);")
    if "rand" in caps:
        out += "struct R(u64); impl rand::RngCore for R { fn next_u32(&mut self) -> u32 { self.next_u64() as u32 } fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.0.rotate_left(17) } fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.next_u64() as u8 } } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) } }\n"
        for t in Ts:
            out += f"fn p_rand_{t}(o: &mut Buf) {{ use rand::Rng; let mut r = R(5); for i in 0..20 {{ let a: dimensions::Length<{t}> = Quantity::new_unchecked(-1.5 - i as {t}); let b: dimensions::Length<{t}> = Quantity::new_unchecked(2.5); o!(o, \"{t} rand\", {{ let x: dimensions::Length<{t}> = r.gen_range(a..b); x.value_unchecked() }}, {{ let x: dimensions::Length<{t}> = r.gen_range(a..=b); x.value_unchecked() }}); }} }}\n"
            calls.append(f"p_rand_{t}(o);")
    if "hdf5" in caps:
        out += "fn p_hdf5(o: &mut Buf) { use hdf5::H5Type; " + " ".join(f'o!(o, "{s} hdf5", Dbg(<dimensions::Vel<{t}> as H5Type>::type_descriptor()), <dimensions::Vel<{t}> as H5Type>::type_descriptor().size());' for s, t, v in st) + " }\n"
        calls.append("p_hdf5(o);")
    if "mpi" in caps:
        out += "fn p_mpi(o: &mut Buf) { use mpi::traits::*; use mpi::raw::AsRaw; let (u, _) = mpi::initialize_with_threading(mpi::Threading::Single).unwrap(); " + " ".join(
            f'o!(o, "{s} mpi", unsafe {{ let d = <dimensions::Vel<{t}> as Equivalence>::equivalent_datatype(); let raw = d.as_raw(); let mut n = 0; mpi::ffi::MPI_Type_size(raw, &mut n); n as usize }}, unsafe {{ let d = <dimensions::Vel<{t}> as Equivalence>::equivalent_datatype(); let raw = d.as_raw(); let (mut lb, mut e) = (0, 0); mpi::ffi::MPI_Type_get_extent(raw, &mut lb, &mut e); e as usize }}, {{ let q: dimensions::Vel<{t}> = Quantity::new_unchecked({v}); Dbg(u.world().pack(&q)) }});' for s, t, v in st) + " }\n"
        calls.append("p_mpi(o);")
    if "rational" in caps:
        for t in Ts:
            out += f"mod rat_{t} {{ pub mod sys {{ diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension Length; dimension Time; dimension Sqrt = Length^(1/2); dimension Mix = Length^(-3/4) * Time^(2/3); #[base(Length)] #[symbol(m)] unit meter; #[base(Time)] #[symbol(s)] unit second; unit rm: Sqrt = 4 meter^(1/2); ); }} }}\nfn p_rat_{t}(o: &mut Buf) {{ use rat_{t}::sys::*; for a in [2.25, 0.0, 1e10] {{ let a: {t} = a; let q: dimensions::Length<{t}> = a * units::meter; o!(o, \"~{{LIB}} {t} rational\", {{ let r: dimensions::Sqrt<{t}> = q.sqrt(); r.value_unchecked() }}, (q.sqrt().sqrt() * q.sqrt()).value_unchecked()); let m: dimensions::Mix<{t}> = Quantity::new_unchecked(a); o!(o, \"{t} rational exact\", {{ let r: dimensions::Sqrt<{t}> = a * units::rm; r.value_unchecked() }}, Dbg(a * units::rm), Dbg(m), Dbg(q * q)); }} }}\n"
            calls.append(f"p_rat_{t}(o);")
    if {"f32", "f64"} <= caps:
        out += "fn p_both(o: &mut Buf) { for a in [1.5f32, 0.1, -3.7e5] { for b in [0.1f64, 7.25] { o!(o, \"both\", (a * units::kilometer).value_unchecked(), (b * units::kilometer).value_unchecked(), (a * units::kmh).value_in(units::kmh), (b * units::kmh).value_in(units::kmh), Dbg(a * units::meter), Dbg(b * units::meter)); } } }\n"
        calls.append("p_both(o);")
    return out, calls


from .p07 import UNITS as _U  # noqa: E402

SI_UNITS = [names.split()[-1] for names, *_ in _U] + ["kilometers", "attosecond", "exajoule", "milligrams", "microfarads"]
SI_CONSTANTS = ["PI"]


def program(caps, freestanding):
    fn, calls = extra_probe(caps)
    Ts = [t for t in ("f32", "f64") if t in caps]
    body = "".join(float_probe(t, caps) for t in Ts) + "".join(vec_probe(f, caps) for f in VEC if f in caps) + fn
    calls = [f"p_{t}(o);" for t in Ts] + [f"p_{VEC[f][0]}(o);" for f in VEC if f in caps] + calls
    lib = "std" if not freestanding else "libm" if "libm" in caps else "core"
    silib = "std" if "std" in caps else "libm" if "libm" in caps else "core"
    body = body.replace("{LIB}", lib).replace("{SILIB}", silib)
    head = HEADER + ("#![no_std]\n#![no_main]\n" if freestanding else "") + ("" if freestanding else "")
    zs = "fn zs(x: f64) -> f64 { if x == 0.0 { 0.0 } else { x } }\n"
    run = f"fn all() {{ let mut b = Buf {{ b: [0; 32768], n: 0 }}; let o = &mut b; {' '.join(calls)} o.flush().unwrap(); }}\n"
    if freestanding:
        main = '#[link(name = "c")] extern "C" {}\n#[no_mangle] pub extern "C" fn rust_eh_personality() {}\n#[no_mangle] pub extern "C" fn _Unwind_Resume() {}\n#[panic_handler] fn ph(i: &core::panic::PanicInfo) -> ! { let _ = write!(Out, "PANIC {}\\n", i); extern "C" { fn abort() -> !; } unsafe { abort() } }\n#[no_mangle] pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 { all(); 0 }\n'
    else:
        main = "fn main() { all() }\n"
    return head + SYS + IO + zs + body + run + main


def rejects(caps):
    """programs which must not compile: (key, function text)"""
    out = []
    for t in (t for t in ("f32", "f64") if t in caps):
        L, T, N = f"dimensions::Length<{t}>", f"dimensions::Time<{t}>", f"dimensions::One<{t}>"

        def r(key, args, body):
            out.append((f"{t} {key}", f"fn {{name}}({args}) {{ {body} }}"))

        r("add", f"a: {L}, b: {T}", "let _ = a + b;")
        r("sub", f"a: {L}, b: {T}", "let _ = &a - b;")
        r("add assign", f"mut a: {L}, b: {T}", "a += b;")
        r("compare", f"a: {L}, b: {T}", "let _ = a < b;")
        r("equal", f"a: {L}, b: {T}", "let _ = a == b;")
        r("assign", f"a: {L}, b: {T}", "let c: " + L + " = b;")
        r("add number", f"a: {L}", f"let _ = a + 1.0{t};")
        r("number minus", f"a: {L}", f"let _ = 1.0{t} - a;")
        r("compare number", f"a: {L}", f"let _ = a < 1.0{t};")
        r("value", f"a: {L}", "let _ = a.value();")
        r("value_ref", f"a: {L}", "let _ = a.value_ref();")
        r("deref", f"a: {L}", f"let _: {t} = *a;")
        r("from", f"a: {t}", f"let _: {L} = a.into();")
        r("value_in", f"a: {L}", "let _ = a.value_in(units::second);")
        r("new", f"a: {t}", f"let _: {L} = units::second.new(a);")
        r("unit product", f"a: {t}", f"let _: {L} = a * units::second;")
        r("wrong product", f"a: {L}", f"let _: {L} = a * a;")
        r("scale assign", f"mut a: {L}", "a *= a;")
        r("min", f"a: {L}, b: {T}", "let _ = a.min(b);")
        r("clamp", f"a: {L}, b: {T}", "let _ = a.clamp(a, b);")
        r("squared", f"a: {L}", f"let _: {L} = a.squared();")
        r("sum", f"a: {L}", f"let _: {T} = [a, a].into_iter().sum();")
        r("other system", f"a: {L}, b: s2::dimensions::Banana<{t}>", "let _ = a * b;")
        r("other system add", f"a: {L}, b: s2::dimensions::Banana<{t}>", "let _ = a + b;")
        for f in ("sin", "exp", "ln", "floor", "tanh"):
            r(f, f"a: {L}", f"let _ = a.{f}();")
        for f in VEC:
            if f in caps and VEC[f][1] == t:
                V = f"dimensions::Length<glam::{VEC[f][0]}>"
                r(f"{f} add", f"a: {V}, b: dimensions::Time<glam::{VEC[f][0]}>", "let _ = a + b;")
                r(f"{f} set", f"mut a: {V}, b: {T}", "a.set_x(b);")
                r(f"{f} new", f"a: {L}, b: {T}", f"let _ = <{V}>::new({', '.join(['a', 'b', 'a'][:len(VEC[f][2])])});")
                r(f"{f} value", f"a: {V}", "let _ = a.value();")
                r(f"{f} distance", f"a: {V}, b: dimensions::Time<glam::{VEC[f][0]}>", "let _ = a.distance(&b);")
        if "rand" in caps:
            r("rand", f"a: {L}, b: {T}", "use rand::Rng; let _ = rand::thread_rng().gen_range(a..b);")
            r("rand type", f"a: {L}", f"use rand::Rng; let _: {T} = rand::thread_rng().gen_range(a..a);")
        if "si" in caps:
            r("si", f"a: diman::si::dimensions::Length<{t}>, b: diman::si::dimensions::Time<{t}>", "let _ = a + b;")
            r("si unit", f"a: diman::si::dimensions::Length<{t}>", "let _ = a.value_in(diman::si::units::joules);")
            r("si mixed", f"a: diman::si::dimensions::Length<{t}>, b: {L}", "let _ = a + b;")
    return out


BAD_SYSTEMS = {
    "unknown name": "dimension L; #[base(L)] #[symbol(m)] unit m; unit x = 2 * y;",
    "cycle": "dimension L; #[base(L)] #[symbol(m)] unit m; unit x = 2 * y; unit y = x;",
    "annotation": "dimension L; dimension T; #[base(L)] #[symbol(m)] unit m; unit x: T = 2 * m;",
    "duplicate symbol": "dimension L; #[base(L)] #[symbol(m)] unit m; #[symbol(m)] unit x = 2 * m;",
    "duplicate name": "dimension L; #[base(L)] #[symbol(m)] unit m; unit x = m; unit x = 2 * m;",
    "factor in a dimension": "dimension L; dimension A = 2 * L;",
}


# What may stand next to a unit system in a module: needed feature -> items.  Which of them are
# possible must not depend on features the program does not use.
SURROUNDINGS = {
    None: ["use std::marker::PhantomData;", "use std::str::SplitWhitespace;", "use std::io::Result;", "use std::fmt::Result;", "type Result<T> = std::result::Result<T, u8>;", "use std::fmt::{self, Debug, Display, Formatter, Write};",
           "use std::ops::{Add, AddAssign, Deref, Div, DivAssign, Index, Mul, MulAssign, Neg, Sub, SubAssign};", "use std::cmp::{self, Ordering};", "use std::iter::{self, Sum};", "use std::error::Error;", "use std::str::FromStr; use std::convert::{TryFrom, TryInto};", "use std::collections::*;", "use std::borrow::{Borrow, Cow};",
           "use std::{str, string, vec};", "use std::io::prelude::*;", "use std::sync::*;", "struct Box;", "struct String;", "struct Vec;", "enum Value {}", "struct Visitor;", "struct QuantityVisitor;", "fn read_unit_str() {}", "fn read_single_unit_str() {} fn get_quantity_if_dimensions_match() {} fn read_unit_exponent() {}",
           "mod serde {}", "mod hdf5 {}", "mod mpi {}", "mod rand {}", "mod glam {}", "mod de {}", "mod num_traits {}", "mod traits {}", "mod fmt {}", "mod once_cell {}", "mod quantity {}", "mod serialization {}", "mod uniform {}", "trait Float {}", "trait FloatCore {}", "trait Num {}", "trait Rng {}", "struct Rng;", "trait SampleUniform {}", "trait SampleBorrow {}", "trait UniformSampler {}", "struct UniformFloat;", "struct Uniform;", "trait Distribution {}", "struct Standard;",
           "trait Serialize {}", "trait Serializer {}", "trait Deserialize {}", "trait Deserializer {}", "trait Equivalence {}", "trait H5Type {}", "struct TypeDescriptor;", "struct Lazy;", "static DATATYPE: u8 = 0;", "struct Vec2; struct Vec3; struct DVec2; struct DVec3;", "struct Error; struct Custom;", "fn random() {} fn thread_rng() {}", "struct Storage; struct RuntimeUnitStorage;", "struct Ratio;", "trait ToString {}", "type Float64 = f64;",
           "mod my { pub struct Rng; pub struct StdRng; pub struct SmallRng; pub fn random() -> u8 { 1 } pub trait SliceRandom {} pub struct Distribution; } use my::*; fn user(_: Rng, _: StdRng, _: SmallRng, _: Distribution) -> u8 { random() }",
           "trait Powi { fn powi(self) -> u8; } struct P; impl Powi for P { fn powi(self) -> u8 { 2 } } fn user() -> u8 { P.powi() }", "trait Abs { fn abs2(&self) -> Self; } impl Abs for f64 { fn abs2(&self) -> f64 { self * self } } fn user() -> f64 { (2.0f64).abs2() }",
           "struct Length; struct Time; struct Mass;", "const N: usize = 2; const X: f64 = 1.0;", "fn x() {} fn y() {} fn value() {} fn new() {} fn units_of() {}"],
    "serde": ["use serde::de;", "use serde::{Deserialize, Deserializer, Serialize, Serializer};", "use serde::de::{Error, Visitor};", "use serde::*;", "#[derive(serde::Serialize, serde::Deserialize)] struct Data { a: f64 }"],
    "rand": ["use rand::Rng;", "use rand::prelude::*;", "use rand::distributions::*;", "use rand::distributions::uniform::*;", "use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformFloat, UniformSampler};", "use rand::{self, thread_rng, Rng, RngCore, SeedableRng};"],
    "hdf5": ["use hdf5::*;", "use hdf5::H5Type;", "use hdf5::types::{FloatSize, TypeDescriptor};"],
    "mpi": ["use mpi::traits::*;", "use mpi::traits::Equivalence;", "use mpi::datatype::*;"],
    "vec2": ["use glam::Vec2;", "use glam::*;"],
    "dvec3": ["use glam::DVec3;"],
}


def surroundings(caps):
    return [x for f, l in SURROUNDINGS.items() if f is None or f in caps for x in l]


def packed(xs):
    """surroundings that can stand in one module together"""
    plain = set("use struct fn mod trait std type enum self for impl pub u8 f64 const static usize derive as io".split())
    packs = []
    for x in xs:
        names = set(re.findall(r"\w+", x)) - plain | ({"*"} if "*" in x and ("rand" in x or "my" in x) else set())
        for p in packs:
            if not p[0] & names:
                p[0].update(names)
                p[1].append(x)
                break
        else:
            packs.append((names, [x]))
    return [p[1] for p in packs]


def surrounded(x):
    unit = "diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension Long; #[base(Long)] #[symbol(m)] unit meter; );"
    return f"mod MOD {{ #![allow(unused, dead_code)] {x} {unit} }}"


class Pool:
    """Target directories for parallel cargo builds; third-party artefacts are hard links."""

    def __init__(self, n):
        self.free, self.lock, self.dirs = [], threading.Condition(), []
        for i in range(n):
            d = f"{TARGET}-p19-{i}"
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            r = subprocess.run(["cp", "-al", os.path.join(TARGET, "debug"), d + "/debug"], capture_output=True, text=True)
            if r.returncode != 0:
                raise EngineError("copy of the target directory: " + r.stderr[-300:])
            os.unlink(d + "/debug/.cargo-lock")  # its inode is the lock
            for f in (".rustc_info.json", "CACHEDIR.TAG"):
                if os.path.exists(os.path.join(TARGET, f)):
                    shutil.copy(os.path.join(TARGET, f), d)
            self.dirs.append(d)
            self.clean(d)
            self.free.append(d)

    def clean(self, d):
        import glob

        for sub in ("deps", ".fingerprint", "build", "."):
            for pat in ("diman*", "libdiman*", "anchor*", "libanchor*"):
                for f in glob.glob(os.path.join(d, "debug", sub, pat)):
                    if os.path.isdir(f):
                        shutil.rmtree(f, ignore_errors=True)
                    else:
                        os.unlink(f)

    def close(self):
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def take(self):
        with self.lock:
            while not self.free:
                self.lock.wait()
            return self.free.pop()

    def give(self, d):
        self.clean(d)
        with self.lock:
            self.free.append(d)
            self.lock.notify()


def third_party():
    """Variants of the third-party crates that the combinations need."""
    for n in range(3):
        for c in itertools.combinations(["mpi", "hdf5"], n):
            for l in ([], ["libm"]):
                art, log = try_build(",".join(["f64", "std"] + l + list(c) + (["vec2", "rand", "serde"] if n == 2 else [])))
                # a failure is reported for the combination itself


def ulps(a, b, width):
    """distance of two bit patterns of floats in units in the last place"""
    sign = 1 << (width - 1)

    def order(x):
        return -(x & (sign - 1)) if x & sign else x

    return abs(order(a) - order(b))


def kind(x):
    return "inf" if x.lstrip("f7").strip("0") == "" and x[:3] in ("7ff", "fff") or x in ("7f800000", "ff800000") else ""


def near(a, b):
    """results of two float libraries: equal up to some units in the last place"""
    for x, y in zip(a.split(";"), b.split(";")):
        if x == y:
            continue
        if "inf" in (kind(x), kind(y)):
            continue  # overflow at a different point
        if "nan" in (x, y) or len(x) != len(y) or ulps(int(x, 16), int(y, 16), len(x) * 4) > 16:
            return False
    return True


class Config:
    def __init__(self, feats):
        self.feats = feats
        self.name = ",".join(f for f in FEATURES if f in feats)
        self.failure = None
        self.obs = []  # (kind of program, [(key, value)])
        self.accepted = []  # reject probes that compiled
        self.n_rejects = 0
        self.systems = []
        self.around = {}  # surroundings -> None or why not

    def explore(self, run, pool, keep):
        d = pool.take()
        try:
            env = dict(ENV, CARGO_TARGET_DIR=d, CARGO_BUILD_JOBS="2", OMPI_MCA_btl="self", HWLOC_HIDE_ERRORS="1")
            art, log = build_in(self.name, env)
            if art is None:
                self.failure = "does not build: " + log[-1500:]
                return
            tag = self.name.replace(",", "-")
            kinds = [False] + ([True] if self.feats <= {"f32", "f64", "libm", "si", "rational"} else [])
            for free in kinds:
                p = run.write(f"p-{tag}{'-free' if free else ''}.rs", program(self.feats, free))
                b = p[:-3] + ".bin"
                c = rustc(p, b, art, ["-C", "panic=abort"] if free else [])
                if not c.ok:
                    self.failure = ("freestanding " if free else "") + "probe program does not compile: " + c.text(900)
                    return
                r = run_bin(b, timeout=200, env=env)
                if r.returncode != 0:
                    self.failure = f"probe program failed: rc={r.returncode} {r.stdout[-200:]} {r.stderr[-300:]}"
                    return
                lines = [l.split("\t", 1) for l in r.stdout.splitlines()]
                self.obs.append(("free" if free else "std", lines))
                if not keep:
                    os.unlink(b)
                    os.unlink(p)
            # rejected constructs: an error in the body of every function
            rs = rejects(self.feats)
            self.n_rejects = len(rs)
            live = list(range(len(rs)))
            text = [HEADER + SYS]
            line, where = text[0].count("\n") + 1, {}
            for i in live:
                text.append(rs[i][1].replace("{name}", f"r{i}") + "\n")
                where[line] = i
                line += 1
            p = run.write(f"r-{tag}.rs", "".join(text) + "fn main() {}\n")
            c = rustc(p, p[:-3] + ".rmeta", art, emit_meta=True)
            hit = {where[l] for x in c.diags for l in x.lines if l in where}
            for i in [i for i in live if i not in hit]:
                # alone: errors of an earlier phase may hide later ones
                q = run.write(f"r-{tag}-{i}.rs", HEADER + SYS + rs[i][1].replace("{name}", "r") + "\nfn main() {}\n")
                c1 = rustc(q, q[:-3] + ".rmeta", art, emit_meta=True)
                if c1.ok:
                    self.accepted.append(rs[i])
                os.unlink(q)
            os.unlink(p)
            def system(body):
                return f"pub mod sys {{ diman::unit_system!( quantity_type Quantity; dimension_type Dimension; {body} ); }}"

            names = list(BAD_SYSTEMS)
            p = run.write(f"s-{tag}.rs", HEADER + "".join(f"mod s{i} {{ {system(BAD_SYSTEMS[k])} }}\n" for i, k in enumerate(names)) + "fn main() {}\n")
            c = rustc(p, p[:-3] + ".rmeta", art, emit_meta=True)
            first = HEADER.count("\n") + 1
            hit = {l - first for x in c.diags for l in x.lines}
            os.unlink(p)
            for i, k in enumerate(names):
                if i not in hit:
                    q = run.write(f"s-{tag}-{i}.rs", HEADER + system(BAD_SYSTEMS[k]) + "\nfn main() {}\n")
                    if rustc(q, q[:-3] + ".rmeta", art, emit_meta=True).ok:
                        self.systems.append(k)
                    os.unlink(q)
            # surroundings of a unit system: together, in halves where that fails
            def place(packs):
                xs = [" ".join(p) for p in packs]
                p = run.write(f"a-{tag}.rs", HEADER + "".join(surrounded(x).replace("MOD", f"m{i}") + "\n" for i, x in enumerate(xs)) + "fn main() {}\n")
                c = rustc(p, p[:-3] + ".rmeta", art, emit_meta=True)
                os.unlink(p)
                if c.ok or len(xs) == 1 == len(packs[0]):
                    for x in sum(packs, []):
                        self.around[x] = None if c.ok else c.text(200)
                    return
                if len(xs) == 1:
                    h = len(packs[0]) // 2
                    place([packs[0][:h]])
                    place([packs[0][h:]])
                    return
                first = HEADER.count("\n") + 1
                hit = {l - first for d in c.diags for l in d.lines}
                if len(hit) < len(xs):
                    if hit:
                        place([x for i, x in enumerate(packs) if i not in hit])
                    for i, x in enumerate(packs):
                        if i in hit or not hit:
                            place([x])
                else:
                    place(packs[: len(xs) // 2])
                    place(packs[len(xs) // 2 :])
            place(packed(surroundings(self.feats)))
        finally:
            pool.give(d)


def key_of(key):
    """(library or None, key)"""
    if key.startswith("~"):
        lib, k = key[1:].split(" ", 1)
        return lib, k
    return None, key


def main():
    run = Run("P19")
    third_party()
    all_ = lattice()
    chosen = all_ if os.environ.get("VERIF_P19") == "all" else covering(all_, 5 if run.thorough else 3)
    confs = [Config(c) for c in chosen]
    with Pool(JOBS) as pool:
        pmap(lambda c: c.explore(run, pool, False), confs, jobs=JOBS)
    seen = {}  # key, position -> (library, value, config)
    capskeys = {}
    for c in confs:
        run.states.add(c.name)
        run.transitions += 1
        if c.failure:
            run.violation(f"features {c.name}", c.failure)
            run.outcome("failed")
            continue
        run.validated += 1
        run.outcome("combinations built and run")
        for kind, lines in c.obs:
            count = {}
            for l in lines:
                if len(l) < 2:
                    continue
                lib, k = key_of(l[0])
                n = count[k] = count.get(k, 0) + 1
                run.transitions += 1
                if (k, n) not in seen:
                    seen[k, n] = {}
                vals = seen[k, n]
                if lib not in vals:
                    bad = [(o, v, w) for o, (v, w) in vals.items() if not near(v, l[1])]
                    vals[lib] = (l[1], c.name + " " + kind)
                    if bad:
                        run.violation(f"{k} #{n}", f"{lib}: {l[1]} with {c.name} ({kind}) but {bad[0][0]}: {bad[0][1]} with {bad[0][2]}")
                    else:
                        run.validated += 1
                elif vals[lib][0] != l[1]:
                    run.violation(f"{k} #{n}", f"{l[1]} with {c.name} ({kind}) but {vals[lib][0]} with {vals[lib][1]}")
                else:
                    run.validated += 1
        for k, text in c.accepted:
            run.violation(f"{k} with {c.name}", f"compiles but must not: {text}")
        for k in c.systems:
            run.violation(f"{k} with {c.name}", f"accepted but must not: {BAD_SYSTEMS[k]}")
        n = c.n_rejects + len(BAD_SYSTEMS)
        run.transitions += n
        run.validated += n - len(c.accepted) - len(c.systems)
        run.outcome("constructs rejected", n - len(c.accepted) - len(c.systems))
    # what may stand next to a unit system with some features may also with more
    for c in confs:
        if c.failure:
            continue
        for x, why in c.around.items():
            run.transitions += 1
            small = [b for b in confs if b is not c and not b.failure and b.feats <= c.feats and x in b.around and b.around[x] is None]
            if why is None:
                run.validated += 1
                run.outcome("surroundings of a unit system accepted")
            elif small:
                run.violation(f"surroundings {x} with {c.name}", f"`{x}` next to a unit system is accepted with {small[0].name} but not with {c.name}: {why}")
            else:
                run.validated += 1
                run.outcome("surroundings of a unit system rejected with all of the same or fewer features")
    run.outcome("distinct observations", len(seen))
    for k in list(seen)[:: max(1, len(seen) // 8)]:
        run.sample(f"{k[0]} #{k[1]}: {[v[0][:80] for v in seen[k].values()]}")
    run.extra["combinations"] = dict(lattice=len(all_), explored=len(chosen))
    run.assumptions = ["supported: at least one float type, serde and HDF5 only with std, rational dimensions only with std or libm; quick explores a subset of the lattice which covers every presence/absence pattern of every three features, thorough of every five (VERIF_P19=all explores the whole lattice)",
                       "mathematical functions of different float libraries (std, libm, core) may differ by 16 units in the last place"]
    return run.finish()
