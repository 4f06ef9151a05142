"""P23: a unit system means the same wherever it is defined and used.

The statements of P03 to P06 (every operator form, method and combination of units), printing and
the optional capabilities are executed for the same systems defined in other crates, modules,
editions and by macros, and imported in different ways; each is compared with the bare storage."""
import re

from . import p03, p04, p05, p06
from .core import *
from .values import *

CALL = re.compile(r"diman::unit_system!\((.*?)\);\n", re.S)
# the fields of a dimension are visible in the module of the unit system only
LIT = "pub const fn lit(a: i64, b: i64) -> Dimension { Dimension { a, b } }"
NAMES = ["lit", "Quantity", "Dimension", "dimensions", "units", "constants"]


def split(prelude):
    """The body of the unit system and the rest of the prelude."""
    m = CALL.search(prelude)
    return m.group(1).strip(), prelude[: m.start()] + prelude[m.end():]


def crowd():
    """Other items with the names of the standard library and of the libraries used by diman"""
    types = "Option Result String Vec Box Ordering PhantomData Formatter TypeDescriptor FloatSize UniformFloat DatatypeRef UserDatatype SystemDatatype Lazy RuntimeUnit RuntimeUnitStorage QuantityVisitor Ratio Gcd Error Value Type Item Output Target Sampler Vec2 DVec2 Vec3 DVec3"
    traits = "Clone Copy Default Eq PartialEq PartialOrd Ord Hash Debug Display Add Sub Mul Div Neg Rem AddAssign SubAssign MulAssign DivAssign Deref Sum Iterator IntoIterator Extend From Into TryFrom TryInto AsRef AsMut ToString ToOwned FromStr Drop Fn FnMut FnOnce Send Sync Sized Unpin ConstParamTy Float FloatCore Rng UniformSampler SampleUniform SampleBorrow Serialize Serializer Deserialize Deserializer Visitor H5Type Equivalence FromRaw UnitOfDimension"
    functions = "Ok Err Some drop value value_in sqrt add sub mul div neg abs min max fmt new from into lit_ len sum read_unit_str read_single_unit_str get_quantity_if_dimensions_match"
    modules = "core std alloc serde serde_json rand mpi hdf5 glam diman num_traits once_cell ops fmt cmp iter convert marker num magnitude internal float traits types de ser ratio"
    return (" ".join(f"pub struct {t};" for t in types.split()) + " " + " ".join(f"pub trait {t} {{}}" for t in traits.split())
            + " " + " ".join(f"pub fn {f}() {{}}" for f in functions.split()) + " pub const None: bool = false; pub static ua: bool = true; pub static ub: bool = true; "
            + " ".join(f"pub mod {m} {{}}" for m in modules.split()))


def contexts(body):
    """(name, crates [(crate name, edition, source)], prelude that brings the system into scope)"""
    call = f"diman::unit_system!({body}); {LIT}"
    named = [n for n in NAMES if n != "constants" or "constant " in body]
    yield "another crate", [("home", "2021", f"pub mod sys {{ {call} }}")], "extern crate home; use home::sys::*;"
    yield "another crate, at its root", [("home", "2021", call)], "extern crate home; use home::*;"
    yield "another crate, names only", [("home", "2021", f"mod hidden {{ {call} }} pub use hidden::{{{', '.join(named)}}};")], f"extern crate home as other; use other::{{{', '.join(named)}}};"
    yield "a crate of edition 2018", [("home", "2018", f"pub mod sys {{ {call} }}")], "extern crate home; use home::sys::*;"
    yield "two crates away", [("inner", "2021", call), ("home", "2021", "pub extern crate inner; pub use inner::*;")], "extern crate home; use home::*;"
    yield "a nested module", [], f"mod outer {{ pub mod deep {{ {call} }} pub mod way {{ pub use super::deep::*; }} }} use outer::way::*;"
    yield "a module, names only", [], f"mod inner {{ {call} }} use inner::{{{', '.join(named)}}};"
    yield "a module with other items", [], f"mod inner {{ {crowd()} ::{call} }} use inner::{{{', '.join(named)}}};"
    yield "a module with other items of a glob import", [], f"mod items {{ {crowd()} }} mod inner {{ use super::items::*; ::{call} }} use inner::{{{', '.join(named)}}};"
    yield "a macro for any system", [], f"macro_rules! system {{ ($($t: tt)*) => {{ diman::unit_system!($($t)*); }} }} mod inner {{ system!({body}); {LIT} }} use inner::*;"
    yield "a macro of another crate", [("tools", "2021", "#[doc(hidden)] pub use diman; #[macro_export] macro_rules! system { ($($t: tt)*) => { $crate::diman::unit_system!($($t)*); } }")], f"extern crate tools; mod inner {{ tools::system!({body}); {LIT} }} use inner::*;"
    b = re.sub(r"\bA\b", "$a", re.sub(r"\bua\b", "$u", re.sub(r"\bDimension\b", "$d", re.sub(r"\bQuantity\b", "$q", body))))
    if "$" not in body:
        yield "a macro with names as arguments", [], f"macro_rules! system {{ ($q: ident, $d: ident, $a: ident, $u: ident) => {{ diman::unit_system!({b}); }} }} mod inner {{ system!(Quantity, Dimension, A, ua); {LIT} }} use inner::*;"


OPTIONAL = """
pub fn text<T: ::std::fmt::Debug>(t: T) -> String { format!("{:?}", t) }
"""


def optional():
    """printing, serde, rand, hdf5: statements with the text expected"""
    cs = []
    for T in ("f64", "f32"):
        cs.append(Obs(f"print/{T}", f"text(2.5{T} * units::ua * (3.0{T} * units::ub))", "7.5 ua ub"))
        cs.append(Obs(f"json/{T}", f'serde_json::to_string(&(2.5{T} * units::ua)).unwrap()', '"2.5 ua"'))
        cs.append(Obs(f"json back/{T}", f'{{ let q: dimensions::A<{T}> = serde_json::from_str("\\"5 ua\\"").unwrap(); text(q.value_unchecked()) }}', "5.0"))
        cs.append(Obs(f"json refused/{T}", f'text(serde_json::from_str::<dimensions::A<{T}>>("\\"5 ub\\"").is_err())', "true"))
        cs.append(Obs(f"rand/{T}", f"{{ use rand::{{Rng, SeedableRng}}; let mut a = rand::rngs::StdRng::seed_from_u64(5); let mut b = a.clone(); let q: dimensions::A<{T}> = a.gen_range((1.0{T} * units::ua)..(2.0{T} * units::ua)); text(q.value_unchecked().to_bits() == b.gen_range(1.0{T}..2.0{T}).to_bits()) }}", "true"))
        cs.append(Obs(f"rand distribution/{T}", f"{{ use rand::{{Rng, SeedableRng}}; use rand::distributions::Uniform; let mut a = rand::rngs::StdRng::seed_from_u64(5); let mut b = a.clone(); let q = a.sample(Uniform::new_inclusive(1.0{T} * units::ua, 2.0{T} * units::ua)); text(q.value_unchecked().to_bits() == b.sample(Uniform::new_inclusive(1.0{T}, 2.0{T})).to_bits()) }}", "true"))
        cs.append(Obs(f"hdf5/{T}", f"text(<dimensions::A<{T}> as hdf5::H5Type>::type_descriptor() == <{T} as hdf5::H5Type>::type_descriptor())", "true"))
        cs.append(Obs(f"const/{T}", f"{{ const Q: dimensions::A<{T}> = Quantity::new_unchecked(1.5); static R: dimensions::A<{T}> = Q; text((Q, R)) }}", "(1.5 ua, 1.5 ua)"))
        cs.append(Obs(f"generic function/{T}", f"{{ fn twice<S: Copy + core::ops::Add<Output = S>, const D: Dimension>(q: Quantity<S, D>) -> Quantity<S, D> where Quantity<S, D>: core::ops::Add<Output = Quantity<S, D>> {{ q + q }} text(twice(3.0{T} * units::ub)) }}", "6 ub"))
        cs.append(Obs(f"field/{T}", f"{{ #[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)] struct P {{ a: dimensions::A<{T}>, b: dimensions::B<{T}> }} text(P {{ b: 2.0{T} * units::ub, ..P::default() }}) }}", "P { a: 0 ua, b: 2 ub }"))
    return cs


def main():
    run = Run("P23")
    deep = run.thorough
    small = lambda cs: [c for c in cs if not c.key.startswith(("f32", "Vec", "DVec2"))]
    storages = ["f64", "f32", "Vec2", "Vec3", "DVec2", "DVec3"]
    suites = [
        ("operators", p03.SYS, "", lambda: p03.cases_of(p03.forms(storages), 0)),
        ("scalar methods", p04.SYS, p04.ZS, lambda: p04.cases({1: 0, 2: 0, 3: 0})),
        ("vector methods", p05.SYS, "", lambda: [c for c in p05.cases(False) if deep or "histories" not in c.key]),
        ("units", p06.system(), "", lambda: p06.cases(["f64", "f32"], False) if deep else p06.cases(["DVec3"], False) + [c for c in p06.cases(["f64"], False) if "*" in c.key.split("/")[1] or c.key.count("/") < 3]),
        ("capabilities", "diman::unit_system!(quantity_type Quantity; dimension_type Dimension; dimension A; dimension B; #[base(A)] #[symbol(ua)] unit ua; #[base(B)] #[symbol(ub)] unit ub;);\n", OPTIONAL, optional),
    ]
    jobs = []
    for suite, prelude, more, make in suites:
        body, rest = split(prelude)
        for k, (where, crates, scope) in enumerate(contexts(body)):
            cs = make()
            if not deep and k and len(cs) > 100:
                cs = small(cs)
            jobs.append((suite, where, crates, scope + "\n" + rest.replace("Dimension { a: 1, ..Dimension::none() }", "lit(1, 0)") + more, cs))
    arts = {"vec": build("vec"), "full": build("full")}

    def prepare(i):
        suite, where, crates, prelude, cs = jobs[i]
        art = arts["full" if suite == "capabilities" else "vec"]
        extra = []
        for name, edition, src in crates:
            d = run.path(f"crates{i}")
            os.makedirs(d, exist_ok=True)
            p = run.write(f"{name}{i}.rs", HEADER + src + "\n")
            out = f"{d}/lib{name}.rlib"
            c = rustc(p, out, art, ["--crate-type", "rlib", "--crate-name", name] + extra, edition=edition)
            if not c.ok:
                return None, c.text(600)
            extra += ["--extern", f"{name}={out}", "-L", d]
        return extra, None

    for suite, where, crates, prelude, cs in jobs:
        for c in cs:
            c.expr = re.sub(r"Dimension ?\{ ?a: ([-\d]+), b: ([-\d]+) ?\}", r"lit(\1, \2)", c.expr)
    # crates first
    ready = pmap(prepare, range(len(jobs)))
    for i, ((suite, where, crates, prelude, cs), (extra, why)) in enumerate(zip(jobs, ready)):
        run.states.add((suite, where))
        if why:
            run.violation(f"{suite} in {where}", f"the crate with the unit system does not compile: {why}", dict(crates=crates))
            continue
        art = arts["full" if suite == "capabilities" else "vec"]
        sup = "" if suite == "capabilities" else SUPPORT + VECSUPPORT
        seen = set()
        cs = [c for c in cs if not ((c.key, c.expr) in seen or seen.add((c.key, c.expr)))]
        observe(run, f"c{i}", prelude + sup, cs, art, chunk=max(20, len(cs) // JOBS + 1), extra=["-C", "opt-level=0"] + extra)
        for c in cs:
            c.key = f"{where}: {c.key}"
        if suite == "capabilities":
            check_observations(run, cs)
        else:
            check_values(run, cs)
        run.outcome(f"{where}: {suite}", len(cs))
    for suite, where, crates, prelude, cs in jobs[:: len(jobs) // 10]:
        run.sample(f"{cs[0].key}: {cs[0].got}")
    run.assumptions = ["the places listed in `contexts` are covered; a unit system in the body of a function is not possible by design"]
    return run.finish()
