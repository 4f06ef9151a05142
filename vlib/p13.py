"""P13: printed quantities denote the quantity that was printed.

For every dimension vector of a box in every unit system of a family the printed text is
compared with the text of the bare number plus a unit expression, which is evaluated with the
reference meaning of the symbols."""
from .core import *
from .dsys import *
from .values import SUPPORT, VECSUPPORT

FORMATS = ["{:?}", "{:.0?}", "{:.3?}", "{:.17?}", "{:10?}", "{:<10?}", "{:^11?}", "{:>10?}", "{:*<12?}", "{:+?}", "{:010?}", "{:+012.2?}", "{:8.1?}", "{:#?}", "{:_^+14.3?}"]
HELP = r"""
mod show {
 use std::fmt::{Debug, Display, Formatter, Result};
 pub fn all(v: &dyn Display, q: &dyn Debug, suffix: &str, bad: &mut Vec<String>) -> usize {
  let mut n = 0;
  macro_rules! cmp { ($($a: tt $b: tt),*) => { $( { n += 1; let (a, b) = (format!($a, q), format!($b, v) + suffix); if a != b { bad.push(format!("{} printed {:?} instead of {:?}", $a, a, b)); } } )* } }
  cmp!(FORMATS);
  for w in [0usize, 3, 9] { for p in [0usize, 2, 5] { n += 1; let (a, b) = (format!("{:w$.p$?}", q), format!("{:w$.p$}", v) + suffix); if a != b { bad.push(format!("width {w} precision {p} printed {:?} instead of {:?}", a, b)); } } }
  struct W<'a>(&'a dyn Display, &'a str); impl<'a> Debug for W<'a> { fn fmt(&self, f: &mut Formatter<'_>) -> Result { Display::fmt(self.0, f)?; f.write_str(self.1) } }
  let w = W(v, suffix);
  n += 3;
  if format!("{:?} {:.2?}", Some(q), [q, q]) != format!("{:?} {:.2?}", Some(&w), [&w, &w]) { bad.push(format!("nested {:?} {:?}", Some(q), Some(&w))); }
  if format!("{:#?} {:#.2?}", Some(q), [q, q]) != format!("{:#?} {:#.2?}", Some(&w), [&w, &w]) { bad.push(format!("nested pretty {:?} {:?}", Some(q), Some(&w))); }
  if q.to_debug_string() != w.to_debug_string() { bad.push("to string".to_string()); }
  // every point at which the output can fail: for good when its room is used up, or once at the k-th piece
  let full = format!("{:?}", q);
  let mut pieces = Fails { room: usize::MAX, at: usize::MAX, seen: 0, text: String::new() };
  if std::fmt::write(&mut pieces, format_args!("{:?}", q)).is_err() { bad.push("printing fails".to_string()); }
  for room in 0..=full.len() { n += 1; let mut o = Fails { room, at: usize::MAX, seen: 0, text: String::new() };
    let r = std::fmt::write(&mut o, format_args!("{:?}", q));
    if r.is_ok() != (room >= full.len()) || !full.starts_with(&o.text) { bad.push(format!("into {room} bytes: {:?} after writing {:?}", r, o.text)); } }
  for at in 0..pieces.seen { n += 1; let mut o = Fails { room: usize::MAX, at, seen: 0, text: String::new() };
    let r = std::fmt::write(&mut o, format_args!("{:?}", q));
    if r.is_ok() { bad.push(format!("piece {at} of {} could not be written, yet printing succeeds with {:?}", pieces.seen, o.text)); } }
  n }
 struct Fails { room: usize, at: usize, seen: usize, text: String }
 impl std::fmt::Write for Fails { fn write_str(&mut self, s: &str) -> Result { let k = self.seen; self.seen += 1; if k == self.at { return Err(std::fmt::Error); } if s.len() > self.room { self.room = 0; return Err(std::fmt::Error); } self.room -= s.len(); self.text.push_str(s); Ok(()) } }
 pub trait S { fn to_debug_string(&self) -> String; } impl<T: Debug + ?Sized> S for T { fn to_debug_string(&self) -> String { let mut s = String::new(); std::fmt::write(&mut s, format_args!("{:?}", self)).unwrap(); s } }
 pub struct Own(pub u8);
 impl Display for Own { fn fmt(&self, f: &mut Formatter<'_>) -> Result { if f.alternate() { write!(f, "own#{}", self.0) } else { f.pad("own") } } }
}
use show::all;
""".replace("FORMATS", ", ".join(f'"{f}" "{f.replace("#?", "#").replace("?", "")}"' for f in FORMATS))


def system_module(i, stmts, meaning, vecs, mode):
    """mode: which values are printed"""
    full = [QT, DT] + stmts + dim_defs(meaning["bases"], vecs)
    vals = {"few": "[1.5f64, -0.0, 1e22]", "all": "vals::f64s(2)"}[mode]
    more = """
      for v in vals::f32s(1) { n += all(&v, &Quantity::<f32, D>::new_unchecked(v), s, &mut bad); }
      for v in [i64::MIN, -3, 0, 77] { n += all(&v, &Quantity::<i64, D>::new_unchecked(v), s, &mut bad); }
      n += all(&'c', &Quantity::<char, D>::new_unchecked('c'), s, &mut bad);
      n += all(&"text", &Quantity::<&str, D>::new_unchecked("text"), s, &mut bad);
      n += all(&show::Own(3), &Quantity::<show::Own, D>::new_unchecked(show::Own(3)), s, &mut bad);
    """ if mode == "all" else """
      n += all(&2.5f32, &Quantity::<f32, D>::new_unchecked(2.5), s, &mut bad);"""
    vec = """
      for v in vvals::dvec3s(0) { n += all(&v, &Quantity::<glam::DVec3, D>::new_unchecked(v), s, &mut bad); }
      for v in vvals::vec2s(0) { n += all(&v, &Quantity::<glam::Vec2, D>::new_unchecked(v), s, &mut bad); }
      for v in vvals::vec3s(0) { n += all(&v, &Quantity::<glam::Vec3, D>::new_unchecked(v), s, &mut bad); }
      for v in vvals::dvec2s(0) { n += all(&v, &Quantity::<glam::DVec2, D>::new_unchecked(v), s, &mut bad); }
    """ if mode == "all" else ""
    code = " ".join(f'{{ let q: dimensions::X{j}<f64> = Quantity::new_unchecked(1.0); t("{i}\\t{j}", q); }}' for j in range(len(vecs)))
    return f"""mod m{i} {{ use super::*; {text(full)}
    fn t<const D: Dimension>(k: &str, one: Quantity<f64, D>) {{
      let d = format!("{{:?}}", one); let s = d.strip_prefix("1").unwrap_or("NO NUMBER");
      let mut bad: Vec<String> = Vec::new(); let mut n = 0;
      for v in {vals} {{ let q = Quantity::<f64, D>::new_unchecked(v); n += all(&v, &q, s, &mut bad);
        n += 1; if !format!("{{:?}}", q).strip_suffix(s).and_then(|x| x.parse::<f64>().ok()).map_or(false, |x| x.same(&v)) {{ bad.push(format!("{{:?}} does not read back", v)); }} }}
      {more} {vec}
      println!("{{}}\\t{{}}\\t{{}}\\t{{}}\\t{{}}", k, s, n, bad.len(), bad.get(0).map(|x| x.replace("\\n", "~")).unwrap_or_default()); }}
    pub fn main() {{ {code} }} }}
""".replace("\n", " ") + "\n"


def check_lines(run, out, jobs, tag):
    """jobs: i -> (key, meaning, vecs)"""
    got = {}
    for l in out.splitlines():
        f = l.split("\t")
        if len(f) == 6:
            got[int(f[0]), int(f[1])] = f[2:]
    for i, (key, meaning, vecs) in jobs.items():
        for j, v in enumerate(vecs):
            run.states.add((tag, key, v))
            r = got.get((i, j))
            show = ", ".join(map(str, v))
            if r is None:
                run.transitions += 1
                run.violation(f"{tag} {key} ({show})", "nothing printed (panic?)")
                continue
            suffix, n, bad, first = r
            run.transitions += int(n) + 1
            run.validated += int(n) + 1
            if bad != "0":
                run.violation(f"{tag} {key} ({show})", f"{bad} of {n} texts differ from the bare number followed by {suffix!r}: {first}")
            try:
                if suffix and not suffix.startswith(" "):
                    raise ValueError(f"no space between number and unit")
                f, w = eval_suffix(suffix, meaning)
                if f != 1 or w != tuple(map(Fr, v)):
                    raise ValueError(f"denotes factor {f} and dimension ({', '.join(map(str, w))})")
                run.outcome("base units" if "^" in suffix or suffix.count(" ") > 1 else ("one symbol" if suffix else "no unit"))
            except ValueError as e:
                run.violation(f"{tag} {key} ({show})", f"printed unit {suffix!r} of a quantity of dimension ({show}): {e}")


def main():
    run = Run("P13")
    art = build("vec")
    jobs = []
    for key, st in systems(run.thorough):
        problems, meaning = analyse([QT, DT] + st)
        assert not problems, (key, problems)
        r = 3 if run.thorough else 2
        jobs.append((key, st, meaning, box(2, -r, r), "few"))
    for n in range(0, 8):
        st = one_base(n)
        problems, meaning = analyse([QT, DT] + st)
        assert not problems
        vecs = box(n, -2, 2) if n <= 2 else (box(n, -1, 1) if n <= 3 else sparse(n, 2, 2 if not run.thorough else 3))
        for c in range(0, len(vecs), 150):
            jobs.append((f"{n} base dimensions, part {c // 150}", st, meaning, vecs[c : c + 150], "few"))
    st = base_of(True) + pool()[0]
    jobs.append(("all values", st, analyse([QT, DT] + st)[1], [(0, 0), (1, 0), (1, 1), (2, -3)], "all"))
    st = one_base(2)
    jobs.append(("large exponents", st, analyse([QT, DT] + st)[1], [(9, 0), (10, -10), (-99, 1), (100, 100), (1000000, -1), (-2147483648, 2147483647)], "few"))

    def go(tag, art, jobs, per):
        chunks = [list(enumerate(jobs))[i : i + per] for i in range(0, len(jobs), per)]

        def work(ix):
            i, ch = ix
            src = SUPPORT + VECSUPPORT + HELP + "".join(system_module(k, st, m, vecs, mode) for k, (key, st, m, vecs, mode) in ch) + "fn main() { " + " ".join(f"m{k}::main();" for k, _ in ch) + " }\n"
            return ch, run_program(run, f"{tag}{i}", src, art, soft=True)
        for ch, (kind, r) in pmap(work, list(enumerate(chunks))):
            if kind == "compile":
                run.transitions += 1
                run.violation(f"{tag} {ch[0][1][0]}", f"program does not compile: {r.text(500)}")
                continue
            check_lines(run, r.stdout, {k: (key, m, vecs) for k, (key, st, m, vecs, mode) in ch}, tag)
    go("system", art, jobs, 3)
    # rational exponents
    rat = build("rational")
    ex = [Fr(x) for x in ("-2", "-3/2", "-1", "-1/2", "-1/3", "0", "1/3", "1/2", "2/3", "1", "5/3", "2")]
    vecs = list(itertools.product(ex, repeat=2))
    st = base_of(True) + pool()[0] + pool()[2] + [U("rt", power(ref("ua"), Fr(1, 2)), symbol="rt")]
    m = analyse([QT, DT] + st)[1]
    st2 = one_base(2)
    rjobs = [("rational", st, m, vecs[:72], "few"), ("rational, second half", st, m, vecs[72:], "few"), ("rational, base units only", st2, analyse([QT, DT] + st2)[1], vecs[::1 if run.thorough else 3], "few"),
             ("rational, all values", st, m, [(Fr(1, 2), Fr(0)), (Fr(1), Fr(-2, 3))], "all")]
    go("rational", rat, rjobs, 1)
    # the shipped SI module: every named dimension
    from .p07 import DIMS, UNITS, BASE, PREFIX
    syms, names = {}, {}
    for nm, sym, pre, factor, dims in UNITS:
        if sym:
            for pn, ps, e in [("", "", 0)] + ([p for p in PREFIX if p[0] != pre] if pre else []):
                syms[ps + sym] = ps + sym
                names[ps + sym] = ("unit", Fr(factor) * Fr(10) ** e, tuple(map(Fr, dims)))
    meaning = dict(bases=BASE, symbols=syms, names=names)
    si = build("si")
    body = system_module(0, [], dict(meaning, bases=[]), [], "few")
    body = re.sub(r"diman::unit_system!\(.*?\);", "use diman::si::*;", body, count=1)
    calls = " ".join(f'{{ let q: dimensions::{n}<f64> = Quantity::new_unchecked(1.0); t("0\\t{j}", q); }}' for j, n in enumerate(DIMS))
    body = body.replace("pub fn main() {  }", "pub fn main() { " + calls + " }")
    kind, r = run_program(run, "si", SUPPORT + HELP + body + "fn main() { m0::main(); }\n", si, soft=True)
    if kind == "compile":
        run.transitions += 1
        run.violation("si", f"program does not compile: {r.text(500)}")
    else:
        check_lines(run, r.stdout, {0: ("dimensions", meaning, list(DIMS.values()))}, "si")
    for k, st, m, vecs, mode in jobs[:: len(jobs) // 8]:
        run.sample(f"{k}: {len(vecs)} dimensions, e.g. {vecs[len(vecs) // 2]}")
    run.assumptions = ["unit systems in which every base dimension has a base unit; number formatting itself is that of the bare storage in the same program"]
    return run.finish()
