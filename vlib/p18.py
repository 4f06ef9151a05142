"""P18: quantities are layout-compatible with their storage in memory, HDF5 and MPI.

All storages x dimensions x array lengths x ways of transfer, compared with the bare numbers;
all orders of first use of the MPI datatypes (one process each)."""
import itertools

from .core import *
from .values import SUPPORT, VECSUPPORT

SYS = """pub mod sys { diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension Length; dimension Time; dimension One = 1; dimension Acc = Length / Time^2; dimension Odd = Time^-3 * Length^7;
 #[base(Length)] #[symbol(m)] unit meter; #[base(Time)] #[symbol(s)] unit second; ); }
use sys::{Quantity, Dimension, dimensions};
"""
DIMS = ["One", "Length", "Acc", "Odd"]
ST = {"f32": ("f32", 1, "f32", "vals::f32s"), "f64": ("f64", 1, "f64", "vals::f64s"), "Vec2": ("glam::Vec2", 2, "f32", "vvals::vec2s"), "Vec3": ("glam::Vec3", 3, "f32", "vvals::vec3s"),
      "DVec2": ("glam::DVec2", 2, "f64", "vvals::dvec2s"), "DVec3": ("glam::DVec3", 3, "f64", "vvals::dvec3s")}

LAYOUT = r"""
use std::mem::{size_of, align_of, needs_drop, transmute_copy};
fn raw<T>(x: &T) -> Vec<u8> { unsafe { std::slice::from_raw_parts(x as *const T as *const u8, size_of::<T>()) }.to_vec() }
fn raws<T>(x: &[T]) -> Vec<u8> { unsafe { std::slice::from_raw_parts(x.as_ptr() as *const u8, std::mem::size_of_val(x)) }.to_vec() }
fn layout<S: Clone, Q>(v: &[S], mk: fn(S) -> Q) -> String {
  let mut e = Vec::new();
  if size_of::<Q>() != size_of::<S>() { e.push(format!("size {} instead of {}", size_of::<Q>(), size_of::<S>())); }
  if align_of::<Q>() != align_of::<S>() { e.push(format!("alignment {} instead of {}", align_of::<Q>(), align_of::<S>())); }
  if size_of::<Option<Q>>() != size_of::<Option<S>>() { e.push("niche".to_string()); }
  if size_of::<(u8, Q)>() != size_of::<(u8, S)>() || size_of::<[Q; 5]>() != size_of::<[S; 5]>() { e.push("size in a tuple or an array".to_string()); }
  if needs_drop::<Q>() != needs_drop::<S>() { e.push("needs_drop".to_string()); }
  let q: Vec<Q> = v.iter().cloned().map(mk).collect();
  for (a, b) in v.iter().zip(&q) { if e.len() < 3 && size_of::<Q>() == size_of::<S>() && raw(a) != raw(b) { e.push(format!("bytes {:?} instead of {:?}", raw(b), raw(a))); } }
  if size_of::<Q>() == size_of::<S>() && raws(v) != raws(&q) { e.push("bytes of a slice".to_string()); }
  if e.is_empty() { format!("OK {}", v.len() + 5) } else { format!("BAD {}", e.join("; ")) } }
"""

HDF = r"""
use hdf5::{H5Type, types::{TypeDescriptor, FloatSize}};
fn same_bytes<A, B>(a: &[A], b: &[B]) -> bool { raws(a) == raws(b) }
trait Bits { fn bits(&self) -> Vec<u64>; } impl Bits for f32 { fn bits(&self) -> Vec<u64> { vec![self.to_bits() as u64] } } impl Bits for f64 { fn bits(&self) -> Vec<u64> { vec![self.to_bits()] } }
/// S: bare type known to HDF5 (number or array of numbers), Q: quantity
fn hdf<S: H5Type + Clone + PartialEq + std::fmt::Debug, Q: H5Type + Clone>(path: &str, values: &[S], want: TypeDescriptor) -> String {
  let mut e: Vec<String> = Vec::new(); let mut n = 0u64;
  macro_rules! ck { ($c: expr, $($m: tt)*) => { n += 1; if !$c { e.push(format!($($m)*)); } } }
  ck!(Q::type_descriptor() == want, "descriptor {:?} instead of {:?}", Q::type_descriptor(), want);
  ck!(Q::type_descriptor() == S::type_descriptor(), "descriptor {:?}, bare {:?}", Q::type_descriptor(), S::type_descriptor());
  ck!(Q::type_descriptor().size() == std::mem::size_of::<Q>(), "descriptor size {} of a type of size {}", Q::type_descriptor().size(), std::mem::size_of::<Q>());
  if !e.is_empty() { return format!("BAD {}", e.join("; ")); }
  let dt = hdf5::Datatype::from_type::<Q>().unwrap(); let ds = hdf5::Datatype::from_type::<S>().unwrap();
  ck!(dt.size() == ds.size() && dt.to_descriptor().unwrap() == ds.to_descriptor().unwrap(), "stored datatype {:?} instead of {:?}", dt.to_descriptor(), ds.to_descriptor());
  let q: Vec<Q> = values.iter().map(|v| unsafe { std::mem::transmute_copy::<S, Q>(v) }).collect();
  {
    let f = hdf5::File::create(path).unwrap();
    for len in 0..LENS { let off = len * 3 % values.len(); let (v, w): (Vec<S>, Vec<Q>) = ((0..len).map(|i| values[(off + i) % values.len()].clone()).collect(), (0..len).map(|i| q[(off + i) % values.len()].clone()).collect());
      let a = f.new_dataset_builder().with_data(&w).create(format!("q{len}").as_str()).is_ok(); let b = f.new_dataset_builder().with_data(&v).create(format!("s{len}").as_str()).is_ok();
      ck!(a == b, "writing {len} elements: {a} but bare {b}"); }
    if let Some(x) = q.first() { f.new_attr::<Q>().create("attr").unwrap().write_scalar(x).unwrap(); }
    f.new_dataset_builder().with_data(&q).chunk(4).create("chunked").unwrap();
    let d = f.new_dataset::<Q>().shape((3, 5)).create("empty").unwrap(); let m: Vec<Q> = (0..15).map(|i| q[i % q.len()].clone()).collect();
    d.write_raw(&m).unwrap(); d.write_slice(&[q[2].clone(), q[3].clone()], (1, 2..4)).unwrap();
  }
  let f = hdf5::File::open(path).unwrap();
  for len in 0..LENS { let off = len * 3 % values.len(); let v: Vec<S> = (0..len).map(|i| values[(off + i) % values.len()].clone()).collect();
    let Ok(dq) = f.dataset(&format!("q{len}")) else { continue }; let Ok(dsx) = f.dataset(&format!("s{len}")) else { continue };
    for (name, d) in [("quantities", &dq), ("numbers", &dsx)] {
      let a: Vec<Q> = d.read_raw().map_err(|x| e.push(format!("{name} of length {len} as quantities: {x}"))).unwrap_or_default(); ck!(same_bytes(&a, &v), "{name} of length {len} read as quantities differ");
      let b: Vec<S> = d.read_raw().map_err(|x| e.push(format!("{name} of length {len} as numbers: {x}"))).unwrap_or_default(); ck!(same_bytes(&b, &v), "{name} of length {len} read as numbers differ");
      ck!(d.dtype().unwrap().to_descriptor().unwrap() == want, "{name} stored as {:?}", d.dtype().unwrap().to_descriptor()); } }
  let a: Q = f.attr("attr").unwrap().read_scalar().unwrap(); let b: S = f.attr("attr").unwrap().read_scalar().unwrap(); ck!(same_bytes(&[a], &values[..1]) && same_bytes(&[b], &values[..1]), "attribute differs");
  let a: Vec<S> = f.dataset("chunked").unwrap().read_raw().unwrap(); ck!(same_bytes(&a, values), "chunked dataset differs");
  let mut m: Vec<S> = (0..15).map(|i| values[i % values.len()].clone()).collect(); m[7] = values[2].clone(); m[8] = values[3].clone();
  let a: Vec<S> = f.dataset("empty").unwrap().read_raw().unwrap(); ck!(same_bytes(&a, &m), "partially written dataset differs");
  let a = f.dataset("empty").unwrap().read_slice_1d::<Q, _>((1, 1..4)).unwrap().to_vec(); ck!(same_bytes(&a, &m[6..9]), "partially read dataset differs");
  if e.is_empty() { format!("OK {n}") } else { format!("BAD {} of {n}: {}", e.len(), e[..e.len().min(3)].join("; ")) } }
"""

MPI = r"""
use mpi::traits::*; use mpi::raw::AsRaw;
fn ty<T: Equivalence>() -> (i32, i64, i64, i64, i64) { let d = T::equivalent_datatype(); let raw = d.as_raw(); unsafe { let mut size = 0; mpi::ffi::MPI_Type_size(raw, &mut size);
  let (mut lb, mut ext) = (0, 0); mpi::ffi::MPI_Type_get_extent(raw, &mut lb, &mut ext); let (mut tlb, mut text) = (0, 0); mpi::ffi::MPI_Type_get_true_extent(raw, &mut tlb, &mut text); (size, lb as i64, ext as i64, tlb as i64, text as i64) } }
/// flattened list of the basic types of a datatype
fn basic(raw: mpi::ffi::MPI_Datatype, out: &mut Vec<String>) { unsafe { let (mut ni, mut na, mut nd, mut comb) = (0, 0, 0, 0); mpi::ffi::MPI_Type_get_envelope(raw, &mut ni, &mut na, &mut nd, &mut comb);
  if nd == 0 { out.push(if raw == f32::equivalent_datatype().as_raw() { "f32" } else if raw == f64::equivalent_datatype().as_raw() { "f64" } else { "?" }.to_string()); }
  else { let mut i = vec![0; ni as usize]; let mut a = vec![Default::default(); na as usize]; let mut d = vec![std::mem::zeroed(); nd as usize]; mpi::ffi::MPI_Type_get_contents(raw, ni, na, nd, i.as_mut_ptr(), a.as_mut_ptr(), d.as_mut_ptr());
    let count = if nd == 1 { i.first().copied().unwrap_or(1) } else { 1 }; for _ in 0..count { for x in &d { basic(*x, out); } } } } }
fn parts<T: Equivalence>() -> Vec<String> { let mut v = Vec::new(); basic(T::equivalent_datatype().as_raw(), &mut v); v }
/// F: component type, K: number of components, Q: quantity
fn mpi_one<F: Equivalence + Clone, Q: Equivalence + Clone>(world: &mpi::topology::SimpleCommunicator, k: usize, values: &[Q], flat: &[F], fname: &str) -> String {
  let mut e: Vec<String> = Vec::new(); let mut n = 0u64;
  macro_rules! ck { ($c: expr, $($m: tt)*) => { n += 1; if !$c { e.push(format!($($m)*)); } } }
  let (s, l, x, tl, tx) = ty::<Q>(); let w = std::mem::size_of::<Q>() as i64;
  ck!((s as i64, l, x, tl, tx) == (w, 0, w, 0, w), "size {s} extent {l} {x} true extent {tl} {tx} for {w} bytes");
  ck!(parts::<Q>() == vec![fname.to_string(); k], "consists of {:?}", parts::<Q>());
  if !e.is_empty() { return format!("BAD {}", e.join("; ")); }
  let me = world.process_at_rank(0);
  for len in 1..LENS { let off = len * 3 % (values.len() - LENS); let q = &values[off..off + len]; let f = &flat[off * k..(off + len) * k];
    let p = world.pack(q); let pf = world.pack(f); ck!(p == pf, "packed bytes of length {len} differ from the packed numbers");
    let mut back: Vec<Q> = values[..len].to_vec(); unsafe { world.unpack_into(&p, &mut back[..], 0); } ck!(raws(&back) == raws(f), "unpacked quantities of length {len}");
    let mut bare: Vec<F> = flat[..len * k].to_vec(); unsafe { world.unpack_into(&p, &mut bare[..], 0); } ck!(raws(&bare) == raws(f), "quantities of length {len} unpacked as numbers");
    let mut back: Vec<Q> = values[..len].to_vec(); unsafe { world.unpack_into(&pf, &mut back[..], 0); } ck!(raws(&back) == raws(f), "numbers of length {len} unpacked as quantities");
    // send to myself; a guard element behind the buffer must stay untouched
    let mut buf: Vec<Q> = values[values.len() - len - 1..].to_vec(); let guard = raws(&buf[len..]);
    mpi::request::scope(|sc| { let r = me.immediate_receive_into(sc, &mut buf[..len]); me.send(q); r.wait(); }); ck!(raws(&buf[..len]) == raws(f) && raws(&buf[len..]) == guard, "sent and received quantities of length {len}");
    let mut nums: Vec<F> = flat[..len * k].to_vec(); mpi::request::scope(|sc| { let r = me.immediate_receive_into(sc, &mut nums[..]); me.send(q); r.wait(); }); ck!(raws(&nums) == raws(f), "quantities of length {len} received as numbers");
    let mut buf: Vec<Q> = values[..len].to_vec(); mpi::request::scope(|sc| { let r = me.immediate_receive_into(sc, &mut buf[..]); me.send(f); r.wait(); }); ck!(raws(&buf) == raws(f), "numbers of length {len} received as quantities");
    let mut all: Vec<Q> = values[..len].to_vec(); world.all_gather_into(q, &mut all[..]); ck!(raws(&all) == raws(f), "gathered quantities of length {len}");
    let mut b: Vec<Q> = q.to_vec(); me.broadcast_into(&mut b[..]); ck!(raws(&b) == raws(f), "broadcast quantities of length {len}"); }
  let (one, st) = mpi::request::scope(|sc| { let r = me.immediate_receive::<Q>(); me.send(&values[1]); r.get() }); ck!(raws(&[one]) == raws(&flat[k..2 * k]), "single quantity"); let _ = st;
  if e.is_empty() { format!("OK {n}") } else { format!("BAD {} of {n}: {}", e.len(), e[..e.len().min(3)].join("; ")) } }
"""


def flat(s):
    return "v.to_vec()" if s[0] == "f" else "v.iter().flat_map(|x| x.to_array()).collect::<Vec<_>>()"


def fam_layout():
    for s, (t, k, f, alpha) in ST.items():
        for d in DIMS:
            yield Obs(f"layout {s} {d}", f"layout::<{t}, dimensions::{d}<{t}>>(&{alpha}(2), Quantity::new_unchecked)", None)
    for t, vs in {"i64": "vals::i64s(0)", "u8": "(0u8..=255).collect::<Vec<_>>()", "bool": "[true, false]", "std::num::NonZeroU16": "[std::num::NonZeroU16::MAX]", "[f32; 7]": "[[1.5f32; 7]]", "(u64, u64)": "[(1u64, 2u64)]",
                  "Box<u8>": "Vec::<Box<u8>>::new()", "()": "[()]", "u128": "[u128::MAX]", "&'static str": "Vec::<&'static str>::new()", "Option<f64>": "[Some(0.5f64); 2]"}.items():
        if t == "Option<f64>":
            vs = "Vec::<Option<f64>>::new()"
        for d in DIMS:
            yield Obs(f"layout {t} {d}", f"layout::<{t}, dimensions::{d}<{t}>>(&{vs}[..], Quantity::new_unchecked)", None)


def fam_hdf(run, lens):
    for s, (t, k, f, alpha) in ST.items():
        bare = f if k == 1 else f"[{f}; {k}]"
        desc = f"TypeDescriptor::Float(FloatSize::U{4 if f == 'f32' else 8})"
        if k > 1:
            desc = f"TypeDescriptor::FixedArray(Box::new({desc}), {k})"
        vals = f"{alpha}(1)" if k == 1 else f"{alpha}(1).into_iter().map(|x| x.to_array()).collect::<Vec<_>>()"
        for d in DIMS:
            yield Obs(f"hdf5 {s} {d}", f'hdf::<{bare}, dimensions::{d}<{t}>>("{run.path(f"h-{s}-{d}.h5")}", &{vals}, {desc})', None)
    yield Obs("hdf5 compound", f"""{{ #[derive(hdf5::H5Type, Clone, Debug, PartialEq)] #[repr(C)] struct P {{ a: u8, x: dimensions::Length<glam::DVec3>, m: dimensions::Acc<f32>, o: dimensions::One<f64> }}
 #[derive(hdf5::H5Type, Clone, Debug, PartialEq)] #[repr(C)] struct B {{ a: u8, x: [f64; 3], m: f32, o: f64 }}
 if P::type_descriptor() != B::type_descriptor() {{ return format!("BAD {{:?}} instead of {{:?}}", P::type_descriptor(), B::type_descriptor()); }}
 let f = hdf5::File::create("{run.path('h-compound.h5')}").unwrap(); let ps: Vec<P> = (0..9).map(|i| P {{ a: i, x: Quantity::new_unchecked(glam::DVec3::new(i as f64, 2.5, -0.0)), m: Quantity::new_unchecked(i as f32 / 3.0), o: Quantity::new_unchecked(1e300) }}).collect();
 f.new_dataset_builder().with_data(&ps).create("p").unwrap(); let bs: Vec<B> = f.dataset("p").unwrap().read_raw().unwrap(); let back: Vec<P> = f.dataset("p").unwrap().read_raw().unwrap();
 if back != ps || !bs.iter().zip(&ps).all(|(b, p)| b.a == p.a && b.x == p.x.value_unchecked().to_array() && b.m == p.m.value_unchecked() && b.o == p.o.value()) {{ return "BAD compound values".to_string(); }} "OK 19".to_string() }}""".replace("\n", " "), None)


def fam_mpi(lens):
    """(storage, dimension) -> expression"""
    out = {}
    for s, (t, k, f, alpha) in ST.items():
        for d in DIMS:
            out[s, d] = f"{{ let v: Vec<{t}> = {alpha}(1); let fl: Vec<{f}> = {flat(s)}; let q: Vec<dimensions::{d}<{t}>> = v.iter().map(|x| Quantity::new_unchecked(*x)).collect(); mpi_one::<{f}, dimensions::{d}<{t}>>(&world, {k}, &q, &fl, \"{f}\") }}"
    return out


def main():
    run = Run("P18")
    art = build("full")
    lens = 40 if run.thorough else 9
    from .values import check_values
    # memory and HDF5
    cs = list(fam_layout())
    pre = SUPPORT + VECSUPPORT + SYS + LAYOUT
    observe(run, "l", pre, cs, art, chunk=len(cs) // 4 + 1)
    ch = list(fam_hdf(run, lens))
    observe(run, "h", pre + HDF.replace("LENS", str(lens)), ch, art, chunk=len(ch) // JOBS + 1, compile_env=dict(ENV, CARGO_MANIFEST_DIR=ANCHOR))
    check_values(run, cs + ch)
    for f in os.listdir(run.dir):
        if f.endswith(".h5"):
            os.unlink(run.path(f))
    # MPI: one process per order of first use
    ex = fam_mpi(lens)
    keys = list(ex)
    names = "".join(f"fn m{i}(world: &mpi::topology::SimpleCommunicator) -> String {ex[k]}\n".replace("&world", "world") for i, k in enumerate(keys))
    derived = r"""
#[derive(mpi::traits::Equivalence, Clone, Copy)] struct P { a: u8, x: dimensions::Length<glam::DVec3>, v: dimensions::Acc<glam::Vec2>, m: dimensions::Acc<f32> }
fn derived(world: &mpi::topology::SimpleCommunicator) -> String { let me = world.process_at_rank(0);
 let ps: Vec<P> = (0..5).map(|i| P { a: i, x: Quantity::new_unchecked(glam::DVec3::new(i as f64, 2.5, 7.0)), v: Quantity::new_unchecked(glam::Vec2::new(1.0, i as f32)), m: Quantity::new_unchecked(i as f32 / 3.0) }).collect();
 let mut b = vec![ps[0]; 5]; mpi::request::scope(|sc| { let r = me.immediate_receive_into(sc, &mut b[..]); me.send(&ps[..]); r.wait(); });
 if b.iter().zip(&ps).all(|(x, y)| x.a == y.a && x.x == y.x && x.v == y.v && x.m == y.m) { "OK 5".to_string() } else { "BAD struct with quantities".to_string() } }
"""
    src = SUPPORT + VECSUPPORT + SYS + LAYOUT + MPI.replace("LENS", str(lens)) + names + derived + f"""
fn main() {{ let fs: &[fn(&mpi::topology::SimpleCommunicator) -> String] = &[{', '.join(f'm{i}' for i in range(len(keys)))}, derived];
 let (universe, _) = mpi::initialize_with_threading(mpi::Threading::Single).unwrap(); let world = universe.world();
 for a in std::env::args().skip(1) {{ let i: usize = a.parse().unwrap(); println!("{{}}\\t{{}}", i, fs[i](&world)); }} }}
"""
    p = run.write("m.rs", HEADER + src)
    b = run.path("m.bin")
    c = rustc(p, b, art)
    if not c.ok:
        run.transitions += 1
        run.violation("mpi program", "does not compile: " + c.text(600))
        return run.finish()
    orders = []
    ix = {k: i for i, k in enumerate(keys)}
    # every order of the first use of the four vector datatypes, then everything else
    rest = [i for i in range(len(keys))] + [len(keys)]
    for perm in itertools.permutations(("Vec2", "Vec3", "DVec2", "DVec3")):
        for d in DIMS if run.thorough else DIMS[:1]:
            orders.append([ix[s, d] for s in perm] + (rest if len(orders) % 12 == 0 or run.thorough else [ix[s, "Odd"] for s in perm]))
    for perm in itertools.permutations(DIMS) if run.thorough else [DIMS[::-1], DIMS[2:] + DIMS[:2]]:
        orders.append([ix[s, d] for s in ST for d in perm])
    orders.append([len(keys)] + rest)

    env = dict(ENV, OMPI_MCA_btl="self", OMPI_MCA_rmaps_base_oversubscribe="1", TMPDIR=run.dir, HWLOC_HIDE_ERRORS="1")
    def launch(o):
        # starting MPI fails now and then on a busy machine; that says nothing about diman
        for attempt in range(6):
            r = run_bin(b, [str(i) for i in o], timeout=200, env=env)
            if "MPI_Init" not in r.stderr or r.stdout:
                break
            time.sleep(2 + 3 * attempt)
        return r

    for o, r in zip(orders, pmap(launch, orders, jobs=6)):
        lines = [l.split("\t") for l in r.stdout.splitlines() if "\t" in l]
        run.states.add(tuple(o))
        if len(lines) < len(o):
            nxt = o[len(lines)]
            who = keys[nxt] if nxt < len(keys) else "derived struct"
            if "MPI_Init" in r.stderr and not lines:
                raise EngineError("MPI does not start here: " + r.stderr[-500:])
            run.transitions += 1
            run.violation(f"mpi {who}", f"process failed after {len(lines)} of {len(o)} datatypes: rc={r.returncode} {r.stderr[-300:]}")
        for i, t in lines:
            i = int(i)
            who = " ".join(keys[i]) if i < len(keys) else "derived struct"
            if t.startswith("OK "):
                run.transitions += int(t[3:])
                run.validated += int(t[3:])
                run.outcome("mpi ok", int(t[3:]))
            else:
                run.transitions += 1
                run.violation(f"mpi {who}", t, dict(order=[keys[k] if k < len(keys) else "derived" for k in o]))
    run.outcome("orders of first use", len(orders))
    for c in (cs + ch)[:: len(cs + ch) // 8]:
        run.sample(f"{c.key}: {c.got}")
    run.assumptions = ["one MPI process (messages to itself); the HDF5 and MPI libraries of the sandbox; arrays up to length %d" % (lens - 1)]
    return run.finish()
