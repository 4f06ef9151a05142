"""P17: random quantities are drawn like random numbers between the bounds.

Every pair of bounds of an alphabet, every sampling entry point, every sequence of generator
outputs of a bounded length over an alphabet of boundary values: the quantity drawn, the number
of generator calls and the failure are compared with the uniform distribution of the floats."""
from .core import *
from .values import SUPPORT

HELP = r"""
use rand::distributions::uniform::{SampleRange, SampleUniform, Uniform, UniformSampler};
use rand::distributions::Distribution; use rand::{Rng, RngCore};
/// A generator that plays back a script and counts its calls.
#[derive(Clone)] struct Script<'a> { s: &'a [u64], i: usize, c32: usize, c64: usize, cb: usize }
impl<'a> Script<'a> { fn new(s: &'a [u64]) -> Self { Script { s, i: 0, c32: 0, c64: 0, cb: 0 } } fn next(&mut self) -> u64 { let v = self.s[self.i % self.s.len()]; self.i += 1; if self.i > 1000 { panic!("more than 1000 draws") } v }
  fn used(&self) -> String { format!("{} {} {} {}", self.i, self.c32, self.c64, self.cb) } }
impl<'a> RngCore for Script<'a> {
  fn next_u32(&mut self) -> u32 { self.c32 += 1; (self.next() >> 32) as u32 }
  fn next_u64(&mut self) -> u64 { self.c64 += 1; self.next() }
  fn fill_bytes(&mut self, dest: &mut [u8]) { self.cb += 1; for b in dest { *b = self.next() as u8 } }
  fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(dest); Ok(()) }
}
type Out<S> = Result<(Vec<S>, String), String>;
fn play<S>(s: &[u64], f: impl FnOnce(&mut Script) -> Vec<S>) -> Out<S> { vals::run(|| { let mut r = Script::new(s); let v = f(&mut r); (v, r.used()) }) }
fn scripts(n: usize, a: &[u64]) -> Vec<Vec<u64>> { let mut v: Vec<Vec<u64>> = vec![vec![]]; for _ in 0..n { v = v.into_iter().flat_map(|p| a.iter().map(move |x| { let mut q = p.clone(); q.push(*x); q })).collect(); } v }
fn words(level: u32) -> Vec<u64> { let mut v = vec![0, u64::MAX, 1 << 63, (1 << 63) - 1, 0x0000_0fff_ffff_ffff, 0xffff_f000_0000_0000, 0x5555_5555_5555_5555, 1 << 12, 1 << 41, 0x8000_0100_0000_1000];
  if level > 0 { for k in 0..64 { v.push(1 << k); v.push(!0 << k); v.push(!0 >> k); v.push(!(1 << k)); } } v.dedup(); v }
"""


def fn_for(f, d, tag):
    q = f"dimensions::{d}<{f}>"
    v = "x.value_unchecked()"
    N = f"let lo: {q} = Quantity::new_unchecked(l); let hi: {q} = Quantity::new_unchecked(h);"
    forms = [
        # (name, quantity, allowed results of the floats)
        ("Uniform::new", "Uniform::new(lo, hi).sample(r)", ["Uniform::new(l, h).sample(r)"]),
        ("Uniform::new by reference", "Uniform::new(&lo, &hi).sample(r)", ["Uniform::new(l, h).sample(r)"]),
        ("Uniform::new_inclusive", "Uniform::new_inclusive(lo, hi).sample(r)", ["Uniform::new_inclusive(l, h).sample(r)"]),
        ("Uniform::new_inclusive by reference", "Uniform::new_inclusive(&lo, hi).sample(r)", ["Uniform::new_inclusive(l, h).sample(r)"]),
        ("Uniform::from range", "Uniform::from(lo..hi).sample(r)", ["Uniform::new(l, h).sample(r)"]),
        ("Uniform::from inclusive range", "Uniform::from(lo..=hi).sample(r)", ["Uniform::new_inclusive(l, h).sample(r)"]),
        ("gen_range", "r.gen_range(lo..hi)", ["Uniform::new(l, h).sample(r)", "r.gen_range(l..h)"]),
        ("gen_range inclusive", "r.gen_range(lo..=hi)", ["Uniform::new_inclusive(l, h).sample(r)", "r.gen_range(l..=h)"]),
        ("sample", "r.sample(Uniform::new(lo, hi))", ["Uniform::new(l, h).sample(r)"]),
        ("sample_single of the range", "(lo..hi).sample_single(r)", ["Uniform::new(l, h).sample(r)", "(l..h).sample_single(r)"]),
        ("sampler", "<<%s as SampleUniform>::Sampler as UniformSampler>::new(lo, hi).sample(r)" % q, ["Uniform::new(l, h).sample(r)"]),
        ("sampler inclusive", "<<%s as SampleUniform>::Sampler as UniformSampler>::new_inclusive(lo, hi).sample(r)" % q, ["Uniform::new_inclusive(l, h).sample(r)"]),
        ("sampler single", "<<%s as SampleUniform>::Sampler as UniformSampler>::sample_single(lo, hi, r)" % q, ["Uniform::new(l, h).sample(r)", "r.gen_range(l..h)"]),
        ("sampler single inclusive", "<<%s as SampleUniform>::Sampler as UniformSampler>::sample_single_inclusive(&lo, &hi, r)" % q, ["Uniform::new_inclusive(l, h).sample(r)", "r.gen_range(l..=h)"]),
        ("empty range", "{ if (lo..hi).is_empty() != (l..h).is_empty() || (lo..=hi).is_empty() != (l..=h).is_empty() { panic!(\"emptiness\") } lo }", ["l"]),
    ]
    multi = [
        ("sample_iter", "Uniform::new(lo, hi).sample_iter(r).take(3).collect::<Vec<_>>()", ["Uniform::new(l, h).sample_iter(r).take(3).collect::<Vec<_>>()"]),
        ("copied distribution", "{ let d = Uniform::new_inclusive(lo, hi); let e = d; let a = d.sample(r); let b = e.clone().sample(r); let c = (&d).sample(r); vec![a, b, c] }", ["{ let d = Uniform::new_inclusive(l, h); vec![d.sample(r), d.sample(r), d.sample(r)] }"]),
        ("mixed draws", "{ let d = Uniform::new(lo, hi); let a = d.sample(r); let n: u32 = r.gen(); let b = d.sample(r); let m: u64 = r.gen(); let c = r.gen_range(lo..=hi); if n as u64 == m { return vec![a, b] } vec![a, b, c] }",
         ["{ let d = Uniform::new(l, h); let a = d.sample(r); let n: u32 = r.gen(); let b = d.sample(r); let m: u64 = r.gen(); let c = %s; if n as u64 == m { return vec![a, b] } vec![a, b, c] }" % w for w in ("Uniform::new_inclusive(l, h).sample(r)", "r.gen_range(l..=h)")]),
        ("mapped", "Uniform::new(lo, hi).map(|x| x + x).sample_iter(r).take(2).collect::<Vec<_>>()", ["Uniform::new(l, h).map(|x| x + x).sample_iter(r).take(2).collect::<Vec<_>>()"]),
    ]
    out = []
    for kind, lst in (("single", forms), ("sequence", multi)):
        for name, qe, wants in lst:
            g = f"play(s, |r| vec![{{ let x: {q} = {qe}; {v} }}])" if kind == "single" else f"play(s, |r| {{ let f = |r: &mut Script| -> Vec<{q}> {{ {qe} }}; f(r).into_iter().map(|x| {v}).collect() }})"
            ws = [f"play(s, |r| vec![{w}])" if kind == "single" else f"play(s, |r| {{ let f = |r: &mut Script| -> Vec<{f}> {{ {w} }}; f(r) }})" for w in wants]
            out.append((name, kind, N, g, ws))
    return out


def main():
    run = Run("P17")
    art = build("rand")
    sysd = """pub mod sys { diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension Length; dimension Time; dimension None = 1; dimension Vel = Length / Time; dimension Odd = Time^-3 * Length^2;
 #[base(Length)] #[symbol(m)] #[prefix(kilo)] unit meter; #[base(Time)] #[symbol(s)] unit second; ); }\nuse sys::{Quantity, Dimension, dimensions, units};
"""
    bounds = "[0.0, 1.0, -1.0, 2.5, -3.25, 0.1, 1e10, -1e-10, T::MAX, T::MIN, T::MIN_POSITIVE, T::from_bits(1), T::from_bits(7), 1.0 + T::EPSILON, 1.0 - T::EPSILON, T::INFINITY, T::NEG_INFINITY, T::NAN, -0.0, 1e30, 1e-30, 3.0, 100.0, 1e20]"
    cs = []
    for f in ("f64", "f32"):
        for d in ("Length", "None", "Vel", "Odd"):
            for name, kind, N, g, ws in fn_for(f, d, ""):
                lvl = (1 if run.thorough else 0)
                if d in ("None", "Odd") and not run.thorough and kind == "sequence":
                    continue
                B = bounds.replace("T::", f + "::")
                sc = "scripts(1, &words(1))" if kind == "single" else f"scripts({3 if run.thorough else 2}, &words(0))"
                if kind == "single" and not run.thorough:
                    sc = "scripts(1, &words(1)).into_iter().step_by(if n % 7 == 0 { 1 } else { 5 }).chain(scripts(1, &words(0))).collect::<Vec<_>>()"
                code = f"""let mut c = Cmp::new(); let b: &[{f}] = &{B}; let mut n = 0;
 for &l in b {{ for &h in b {{ n += 1; if l < h && h - l < l.abs().max(h.abs()) * 1e-3 {{ continue; }} {N} let ss = {sc}; let mut failed = 0;
   for s in &ss {{ let s = &s[..]; if failed > 2 {{ break; }} let got: Out<{f}> = {g}; if got.is_err() {{ failed += 1; }} let mut want: Out<{f}> = {ws[0]};
     {''.join(f'if !got.same(&want) {{ let w2: Out<{f}> = {w}; if got.same(&w2) {{ want = w2; }} }}' for w in ws[1:])}
     c.eq(format_args!("{{:?}}..{{:?}} with generator {{:x?}}", l, h, s), got, want); }} }} }} c.done()""".replace("\n", " ")
                cs.append(Obs(f"{f} {d} {name}", code, None, (f, d)))
    pre = SUPPORT + sysd + HELP
    observe(run, "r", pre, cs, art, chunk=len(cs) // JOBS + 1, extra=["-C", "opt-level=1"])
    from .values import check_values
    check_values(run, cs)
    # the samples have the dimension of the bounds: accepted and rejected programs
    cases = []
    dims = ["Length", "None", "Vel", "Odd", "Time"]
    for f in ("f64", "f32"):
        for a in dims:
            for b in dims:
                for c in dims:
                    for i, e in enumerate(("rand::Rng::gen_range(r, lo..hi)", "rand::Rng::gen_range(r, lo..=hi)", "Uniform::new(lo, hi).sample(r)", "Uniform::new_inclusive(&lo, &hi).sample(r)", "Uniform::from(lo..hi).sample(r)")):
                        if (a == b == c) or (len({a, b, c}) == 2 and (run.thorough or (dims.index(a) + dims.index(b) * 2 + dims.index(c) * 3 + i) % 3 == 0)):
                            n = len(cases)
                            cases.append(Case(f"{f} {a} {b} {c} {e}", f"fn f{n}(lo: dimensions::{a}<{f}>, hi: dimensions::{b}<{f}>, r: &mut Script) -> dimensions::{c}<{f}> {{ {e} }}", a == b == c))
    decide(run, "d", pre, cases, art, batch=100)
    check_decisions(run, "d", cases)
    for c in cs[:: len(cs) // 10]:
        run.sample(f"{c.key}: {c.got}")
    run.assumptions = ["bounds and generator outputs outside the alphabets are not covered, nor bounds that differ by less than a thousandth (rand itself does not terminate for neighbouring floats); drawing by range may agree with either of the two algorithms rand uses for floats (distribution, single draw)"]
    return run.finish()
