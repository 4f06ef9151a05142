"""P20: every history of in-place updates equals the same history on the bare number.

The state is a pair of registers of one quantity type and one bare number; the alphabet has every
updating operation the library offers (operator assignments in every reference form, component
replacement, reassignment, swaps, containers, references) and reading operations.  All sequences
up to a depth are executed and compared with the same sequence on the bare storage after each step;
earlier copies of the state are compared again after each subtree."""
from .core import *
from .values import SUPPORT, VECSUPPORT, count_ok

SYS = """pub mod sys { diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension A; dimension B; dimension N = 1; dimension A2 = A^2; dimension R = A^6 / B^6;
#[base(A)] #[symbol(ua)] unit ua; #[base(B)] #[symbol(ub)] unit ub; #[symbol(ux)] unit ux = 12 * ua; #[symbol(tw)] unit dozen = 12; unit ur = 12 * ua^6 / ub^6; ); }
use sys::*;
fn mk<S, const D: Dimension>(s: S) -> Quantity<S, D> { Quantity::new_unchecked(s) }
"""
COMP = {"Vec2": ("f32", "xy"), "Vec3": ("f32", "xyz"), "DVec2": ("f64", "xy"), "DVec3": ("f64", "xyz")}

ENGINE = r"""
#[derive(Clone, Copy)] struct St { x: [Q; 2], z: Z }
#[derive(Clone, Copy, Debug)] struct Bs { x: [S; 2], z: Z }
type Op = (&'static str, fn(&mut St, &mut Bs) -> bool);
fn get(q: Q) -> S { q.value_unchecked() }
fn same(a: &St, b: &Bs) -> bool { get(a.x[0]).same(&b.x[0]) && get(a.x[1]).same(&b.x[1]) && a.z.same(&b.z) }
fn go(d: usize, a: &St, b: &Bs, path: &mut Vec<usize>, n: &mut u64, bad: &mut Vec<String>) {
  for (i, op) in OPS.iter().enumerate() {
    let (mut s, mut t) = (*a, *b);
    let read = (op.1)(&mut s, &mut t);
    *n += 1;
    path.push(i);
    if !read { bad.push(format!("{}: wrong reading", name(path))); }
    else if !same(&s, &t) { bad.push(format!("{}: {:?} {:?} {:?}, bare {:?}", name(path), get(s.x[0]), get(s.x[1]), s.z, t)); }
    else if d > 1 { go(d - 1, &s, &t, path, n, bad); if !same(&s, &t) { bad.push(format!("{}: a copy changed", name(path))); } }
    path.pop();
    if bad.len() > 20 { return; }
  }
}
fn name(p: &[usize]) -> String { p.iter().map(|i| OPS[*i].0).collect::<Vec<_>>().join(" | ") }
fn explore(depth: usize, first: usize) -> (u64, Vec<String>) {
  let (mut n, mut bad) = (0, Vec::new());
  for (x, y, z) in START {
    let b = Bs { x: [x, y], z }; let a = St { x: [mk(x), mk(y)], z };
    let op = &OPS[first]; let (mut s, mut t) = (a, b);
    let read = (op.1)(&mut s, &mut t); n += 1;
    if !read { bad.push(format!("{}: wrong reading", op.0)); } else if !same(&s, &t) { bad.push(format!("{}: {:?} {:?} {:?}, bare {:?}", op.0, get(s.x[0]), get(s.x[1]), s.z, t)); }
    else if depth > 1 { go(depth - 1, &s, &t, &mut vec![first], &mut n, &mut bad); }
    if !same(&a, &b) { bad.push("start changed".to_string()); }
  }
  (n, bad)
}
pub fn run(depth: usize) -> String {
  let next = std::sync::atomic::AtomicUsize::new(0); let res = std::sync::Mutex::new((0u64, Vec::<String>::new()));
  std::thread::scope(|sc| { for _ in 0..THREADS { sc.spawn(|| loop { let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst); if i >= OPS.len() { break } let (n, b) = explore(depth, i); let mut r = res.lock().unwrap(); r.0 += n; r.1.extend(b); }); } });
  let r = res.into_inner().unwrap();
  if r.1.is_empty() { format!("OK {} {}", r.0, OPS.len()) } else { let m = r.1.iter().min_by_key(|x| x.len()).unwrap(); format!("BAD {} of {}: {}", r.1.len(), r.0, m) }
}
"""


def ops(s, dim):
    """(name, code on the quantity state `s`, code on the bare state `t`); a reading operation
    has a boolean expression over both instead of the second code and is marked by None."""
    vec, integer = s in COMP, s == "i64"
    S = s if not vec else "glam::" + s
    T = COMP[s][0] if vec else s
    Q, N = f"dimensions::{dim}<{S}>", f"dimensions::N<{S}>"
    NT = f"dimensions::N<{T}>"
    out = []

    def u(name, q, b):
        out.append((name, q, b))

    def rd(name, e):
        out.append((name, e, None))

    if vec:
        n = len(COMP[s][1])
        lits = [f"{S}::new({', '.join(c[:n])})" for c in (["1.5", "-0.25", "3.0"],)]
        zs, zf = ["2.0"], "3.0"
    elif integer:
        lits, zs = ["3", "-5"], ["2"]
    else:
        lits, zs = ["1.5", "-0.1"], ["0.3"]
    # additions and subtractions
    for o in "+-":
        for l in lits[:1] if vec else lits:
            u(f"x{o}={l}", f"let q: {Q} = mk({l}); s.x[0] {o}= q;", f"t.x[0] {o}= {l};")
        l = lits[0]
        u(f"x{o}=&v", f"let q: {Q} = mk({l}); s.x[0] {o}= &q;", f"t.x[0] {o}= {l};")
        u(f"&mut x{o}=v", f"let q: {Q} = mk({l}); let mut m = &mut s.x[1]; m {o}= q;", f"t.x[1] {o}= {l};")
        u(f"&mut x{o}=&v", f"let q: {Q} = mk({l}); let mut m = &mut s.x[0]; m {o}= &q;", f"t.x[0] {o}= {l};")
        u(f"x{o}=y", f"let q = s.x[1]; s.x[0] {o}= q;", f"let q = t.x[1]; t.x[0] {o}= q;")
        u(f"y{o}=x (split)", f"let (a, b) = s.x.split_at_mut(1); b[0] {o}= a[0]; ", f"let q = t.x[0]; t.x[1] {o}= q;")
        u(f"x=x{o}y", f"s.x[0] = s.x[0] {o} s.x[1];", f"t.x[0] = t.x[0] {o} t.x[1];")
        u(f"x=&y{o}&x", f"s.x[0] = &s.x[1] {o} &s.x[0];", f"t.x[0] = t.x[1] {o} t.x[0];")
        u(f"x=&y{o}x", f"s.x[0] = &s.x[1] {o} s.x[0];", f"t.x[0] = t.x[1] {o} t.x[0];")
        u(f"y=y{o}&x", f"s.x[1] = s.x[1] {o} &s.x[0];", f"t.x[1] = t.x[1] {o} t.x[0];")
    # scalings
    for o in "*/":
        g = "" if not integer or o == "*" else ""
        for z in zs:
            k = f"{z}"
            u(f"x{o}=n", f"let n: {NT} = mk({k}); s.x[0] {o}= n;", f"t.x[0] {o}= ({k} as {T});")
            u(f"y{o}=&n", f"let n: {NT} = mk({k}); s.x[1] {o}= &n;", f"t.x[1] {o}= ({k} as {T});")
            u(f"&mut x{o}=n", f"let n: {NT} = mk({k}); let mut m = &mut s.x[0]; m {o}= n;", f"t.x[0] {o}= ({k} as {T});")
            u(f"&mut y{o}=&n", f"let n: {NT} = mk({k}); let mut m = &mut s.x[1]; m {o}= &n;", f"t.x[1] {o}= ({k} as {T});")
            u(f"x=x{o}n", f"let n: {NT} = mk({k}); s.x[0] = s.x[0] {o} n;", f"t.x[0] = t.x[0] {o} ({k} as {T});")
            u(f"x=&x{o}&n", f"let n: {NT} = mk({k}); s.x[0] = &s.x[0] {o} &n;", f"t.x[0] = t.x[0] {o} ({k} as {T});")
            if not integer:
                u(f"x=x{o}bare", f"s.x[0] = s.x[0] {o} ({k} as {T});", f"t.x[0] = t.x[0] {o} ({k} as {T});")
                if not vec:
                    u(f"x{o}=bare", f"s.x[0] {o}= ({k} as {T});", f"t.x[0] {o}= ({k} as {T});")
                    u(f"y{o}=&bare", f"s.x[1] {o}= &({k} as {T});", f"t.x[1] {o}= ({k} as {T});")
        if vec:
            v = lits[0]
            u(f"x{o}=N vector", f"let n: {N} = mk({v}); s.x[0] {o}= n;", f"t.x[0] {o}= {v};")
            u(f"y{o}=&N vector", f"let n: {N} = mk({v}); s.x[1] {o}= &n;", f"t.x[1] {o}= {v};")
            u(f"y=y{o}N vector", f"let n: {N} = mk({v}); s.x[1] = s.x[1] {o} n;", f"t.x[1] = t.x[1] {o} {v};")
    if not integer:
        u("x=n*x", f"let n: {NT} = mk({zs[0]}); s.x[0] = n * s.x[0];", f"t.x[0] = ({zs[0]} as {T}) * t.x[0];")
        u("x=bare*&x", f"s.x[0] = ({zs[0]} as {T}) * &s.x[0];", f"t.x[0] = ({zs[0]} as {T}) * t.x[0];")
    # reassignment
    u("x=-y", "s.x[0] = -s.x[1];", "t.x[0] = -t.x[1];")
    u("y=x", "s.x[1] = s.x[0];", "t.x[1] = t.x[0];")
    u("x=y.clone()", "s.x[0] = s.x[1].clone();", "t.x[0] = t.x[1];")
    u("x.clone_from(&y)", "let (a, b) = s.x.split_at_mut(1); a[0].clone_from(&b[0]);", "t.x[0] = t.x[1];")
    u("swap", "s.x.swap(0, 1);", "t.x.swap(0, 1);")
    u("mem::swap", "let (a, b) = s.x.split_at_mut(1); std::mem::swap(&mut a[0], &mut b[0]);", "t.x.swap(0, 1);")
    u("y=replace(x)", f"let q: {Q} = mk({lits[0]}); s.x[1] = std::mem::replace(&mut s.x[0], q);", f"t.x[1] = std::mem::replace(&mut t.x[0], {lits[0]});")
    u("y=take(x)", "s.x[1] = std::mem::take(&mut s.x[0]);", "t.x[1] = std::mem::take(&mut t.x[0]);")
    u("x=sum", "s.x[0] = s.x.iter().copied().sum();", f"let mut q = {S}::default(); for v in t.x {{ q += v; }} t.x[0] = q;")
    u("iter_mut", f"let n: {NT} = mk({zs[0]}); for e in s.x.iter_mut() {{ *e *= n; }}", f"for e in t.x.iter_mut() {{ *e *= ({zs[0]} as {T}); }}")
    u("vec iter_mut", f"let q: {Q} = mk({lits[0]}); let mut v = s.x.to_vec(); v.iter_mut().for_each(|mut e| e += q); s.x[1] = v[0]; s.x[0] = v[1];", f"let y = t.x; t.x[1] = y[0] + {lits[0]}; t.x[0] = y[1] + {lits[0]};")
    u("cell", f"let c = std::cell::Cell::new(s.x[0]); c.set(c.get() + s.x[1]); s.x[1] = c.get();", "t.x[1] = t.x[0] + t.x[1];")
    u("refcell", f"let q: {Q} = mk({lits[0]}); let c = std::cell::RefCell::new(s.x[0]); *c.borrow_mut() -= q; s.x[0] = c.into_inner();", f"t.x[0] -= {lits[0]};")
    u("function", f"fn f(a: &mut {Q}, b: &{Q}) {{ *a += b; *a -= *b; *a += b; }} let q = s.x[1]; f(&mut s.x[0], &q);", "let q = t.x[1]; t.x[0] += q; t.x[0] -= q; t.x[0] += q;")
    u("closure", f"let q: {Q} = mk({lits[0]}); let r = &mut s.x; let mut f = |k: usize| r[k] += q; f(0); f(1);", f"t.x[0] += {lits[0]}; t.x[1] += {lits[0]};")
    u("option", "let mut o = Some(s.x[0]); if let Some(a) = o.as_mut() { *a += s.x[1]; } s.x[0] = o.unwrap();", "t.x[0] += t.x[1];")
    u("fold", f"s.x[0] = s.x.iter().fold(mk({lits[0]}), |a: {Q}, b| a - b);", f"t.x[0] = t.x.iter().fold({lits[0]}, |a, b| a - *b);")
    if not integer:
        u("x=abs(y)", "s.x[0] = s.x[1].abs();", "t.x[0] = t.x[1].abs();")
        if vec:
            u("x=zero", f"s.x[0] = <{Q}>::zero();", f"t.x[0] = {S}::ZERO;")
            for k, c in enumerate(COMP[s][1]):
                D = f"dimensions::{dim}<{T}>"
                u(f"set_{c}", f"let q: {D} = mk(7.25); s.x[0].set_{c}(q);", f"t.x[0].{c} = 7.25;")
                u(f"set_{c} through &mut", f"let q: {D} = s.x[0].{c}(); let m = &mut s.x[1]; m.set_{c}(-q);", f"t.x[1].{c} = -t.x[0].{c};")
            cs = COMP[s][1]
            rot = cs[1:] + cs[0]
            u("new", f"s.x[0] = <{Q}>::new({', '.join(f's.x[{i % 2}].{c}()' for i, c in enumerate(rot))});", f"t.x[0] = {S}::new({', '.join(f't.x[{i % 2}].{c}' for i, c in enumerate(rot))});")
            u("x=length", f"let l: dimensions::{dim}<{T}> = s.x[0].length(); s.z += (l / mk::<{T}, {{ dims::{dim} }}>(2.0)).value();".replace(f"mk::<{T}, {{ dims::{dim} }}>(2.0)", f"{{ let k: dimensions::{dim}<{T}> = mk(2.0); k }}"), "t.z += t.x[0].length() / 2.0;")
            rd("read components", " && ".join(f"s.x[1].{c}().value_unchecked().same(&t.x[1].{c})" for c in cs))
        else:
            u("x=zero", f"s.x[0] = <{Q}>::zero();", "t.x[0] = 0.0;")
            u("x=min", f"let q: {Q} = mk(0.75); s.x[0] = s.x[0].min(q);", "t.x[0] = t.x[0].min(0.75);")
            u("x=max", f"let q: {Q} = mk(0.75); s.x[0] = s.x[0].max(q);", "t.x[0] = t.x[0].max(0.75);")
            u("x=clamp", f"let a: {Q} = mk(-0.5); let b: {Q} = mk(2.0); s.x[0] = s.x[0].clamp(a, b);", "t.x[0] = t.x[0].clamp(-0.5, 2.0);")
            un = {"A": "units::ux", "N": "units::dozen", "R": "units::ur"}[dim]
            u("x=z*unit", f"s.x[0] = s.z * {un};", f"t.x[0] = t.z * (12.0 as {T});")
            u("z=in unit", f"s.z = s.x[0].value_in({un});", f"t.z = t.x[0] / (12.0 as {T});")
            rd("read in unit", f"s.x[1].value_in({un}).same(&(t.x[1] / (12.0 as {T})))")
            rd("read predicates", "s.x[0].is_nan() == t.x[0].is_nan() && s.x[0].is_positive() == (t.x[0] > 0.0) && s.x[0].is_negative_or_zero() == (t.x[0] <= 0.0)")
            if dim == "R":
                u("x=sqrt squared", f"let r = s.x[0].sqrt(); let q: {Q} = r.squared(); s.x[0] = q;", "t.x[0] = t.x[0].sqrt().powi(2);")
        u("x=ratio*y", f"s.x[0] = {{ let r: dimensions::N<{S}> = s.x[0] / s.x[1]; r }} * s.x[1];", "t.x[0] = t.x[0] / t.x[1] * t.x[1];")
    # the bare number and dimensionless quantities
    if dim == "N":
        if vec:
            v = lits[0]
            bare = [v]
        else:
            bare = [lits[-1]]
        for b in bare:
            for o in "+-":
                u(f"x{o}=bare", f"s.x[0] {o}= {b};", f"t.x[0] {o}= {b};")
                u(f"x{o}=&bare", f"s.x[0] {o}= &{b};", f"t.x[0] {o}= {b};")
                u(f"&mut x{o}=bare", f"let mut m = &mut s.x[0]; m {o}= {b};", f"t.x[0] {o}= {b};")
                u(f"x=y{o}bare", f"s.x[0] = s.x[1] {o} {b};", f"t.x[0] = t.x[1] {o} {b};")
                if not integer:
                    u(f"x=bare{o}y", f"s.x[0] = {b} {o} s.x[1];", f"t.x[0] = {b} {o} t.x[1];")
                if not vec and not integer:
                    u(f"z{o}=x", f"s.z {o}= s.x[0];", f"t.z {o}= t.x[0];")
                    u(f"z{o}=&y", f"s.z {o}= &s.x[1];", f"t.z {o}= t.x[1];")
                    u(f"x{o}=z", f"s.x[0] {o}= s.z;", f"t.x[0] {o}= t.z;")
            u("x=from", f"s.x[0] = {b}.into();" if vec else f"s.x[0] = ({b} as {T}).into();", f"t.x[0] = {b};")
        if not vec and not integer:
            for o in "*/":
                u(f"z{o}=x", f"s.z {o}= s.x[0];", f"t.z {o}= t.x[0];")
                u(f"z{o}=&y", f"s.z {o}= &s.x[1];", f"t.z {o}= t.x[1];")
                u(f"x{o}=z", f"s.x[0] {o}= s.z;", f"t.x[0] {o}= t.z;")
            u("z=value", "s.z = s.x[0].value();", "t.z = t.x[0];")
            u("z=deref", "s.z = *s.x[0];", "t.z = t.x[0];")
            u("x=cos", "s.x[0] = s.x[0].cos();", "t.x[0] = t.x[0].cos();")
            rd("read compare bare", "(s.x[0] < s.z) == (t.x[0] < t.z) && (s.z == s.x[1]) == (t.z == t.x[1])")
        rd("read value_ref", "s.x[0].value_ref().same(&t.x[0]) && s.x[1].value().same(&t.x[1]) && (*s.x[0]).same(&t.x[0])")
    # reading
    rd("read raw", "s.x[0].value_unchecked_ref().same(&t.x[0]) && s.x[1].value_unchecked().same(&t.x[1])")
    if vec:
        rd("read compare", "(s.x[0] == s.x[1]) == (t.x[0] == t.x[1]) && (&s.x[0] != &s.x[1]) == (t.x[0] != t.x[1])")
    else:
        rd("read compare", "(s.x[0] == s.x[1]) == (t.x[0] == t.x[1]) && (s.x[0] < s.x[1]) == (t.x[0] < t.x[1]) && s.x[0].partial_cmp(&s.x[1]) == t.x[0].partial_cmp(&t.x[1])")
    rd("read copies", "{ let c = s.x; let mut d = c; d[0] += c[1]; d.swap(0, 1); c[0].value_unchecked().same(&t.x[0]) && d[0].value_unchecked().same(&t.x[1]) && d[1].value_unchecked().same(&(t.x[0] + t.x[1])) }")
    return out


PRINT = [("read debug", """{ let p = format!("{:?}", s.x[0]); let w = format!("{}", t.x[0]); p.starts_with(&w) }""", None)]


def program(s, dim, fast_ops=True):
    vec = s in COMP
    S = s if not vec else "glam::" + s
    T = COMP[s][0] if vec else s
    rows = []
    for name, q, b in ops(s, dim) + PRINT:
        body = f"{q} {b} true" if b is not None else q
        rows.append(f'("{name}", |s, t| {{ {body} }})')
    if vec:
        n = len(COMP[s][1])
        start = ", ".join(f"({S}::new({', '.join(a[:n])}), {S}::new({', '.join(b[:n])}), 0.5)" for a, b in ((["2.5", "-0.75", "1e3"], ["0.1", "4.0", "-0.0"]), (["0.0", f"{T}::NAN", "-3.0"], ["1e-30", "-7.5", f"{T}::INFINITY"])))
    elif s == "i64":
        start = "(7, -4, 0), (0, 1, 0)"
    else:
        start = f"(2.5, -0.75, 0.5), (0.0, {T}::NAN, -3.0), ({T}::INFINITY, {T}::MIN_POSITIVE, 1e30)"
    return f"""#[allow(dead_code)] mod m_{s}_{dim} {{ use super::*; type S = {S}; type Q = dimensions::{dim}<{S}>; type Z = {T}; const THREADS: usize = 8;
const START: [(S, S, Z); {start.count('(S') or start.count('), (') + 1}] = [{start}];
static OPS: &[Op] = &[{(', '+chr(10)).join(rows)}];
{ENGINE} }}
"""


def main():
    run = Run("P20")
    jobs = [(s, d) for s in ("f64", "f32", "i64", "Vec2", "Vec3", "DVec2", "DVec3") for d in ("A", "N")] + [("f64", "R"), ("f32", "R")]
    arts = {False: build("core"), True: build("vec")}

    def work(j):
        s, d = j
        vec = s in COMP
        src = HEADER + SYS + SUPPORT + (VECSUPPORT if vec else "") + program(s, d) + f'fn main() {{ println!("{{}}", m_{s}_{d}::run(std::env::args().nth(1).unwrap().parse().unwrap())); }}\n'
        p = run.write(f"{s}-{d}.rs", src)
        c = rustc(p, p[:-3] + ".bin", arts[vec], ["-C", "opt-level=2"])
        return c

    res = {}
    for (s, d), c in zip(jobs, pmap(work, jobs)):
        key = f"histories of {s} with dimension {d}"
        if not c.ok:
            run.transitions += 1
            run.violation(key, "an operation is not available: " + c.text(900))
            continue
        n = 5 if s == "i64" and (d == "A" or run.thorough) else 5 if run.thorough and d != "N" else 4
        r = run_bin(run.path(f"{s}-{d}.bin"), [str(n)], timeout=3000)
        got = r.stdout.strip()
        if got.startswith("OK "):
            _, k, al = got.split()
            run.transitions += int(k)
            run.validated += int(k)
            run.n_states += int(k)
            run.outcome(f"{key}: alphabet {al}, depth {n}", int(k))
            run.sample(f"{key}: all {k} histories over {al} operations up to length {n} agree")
        else:
            run.transitions += 1
            run.validated += 1
            run.violation(key, got or f"failed: {r.stderr[-300:]}")
    run.assumptions = ["values that the histories reach from the given start values; the depth given in the outcomes"]
    return run.finish()
