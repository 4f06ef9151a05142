"""P14: serialising and deserialising a quantity returns the same quantity.

Round trips over unit systems x dimension boxes x storages x value alphabets x formats, and the
full matrix (written as dimension i, read as dimension j).  The thorough tier also sends every
single one of the 2^32 f32 values through a round trip."""
from .core import *
from .dsys import *
from .values import SUPPORT, VECSUPPORT

HELP = r"""
mod rt {
 use super::vals::Same; use serde::{Serialize, de::DeserializeOwned};
 pub type Bad = Vec<String>;
 #[derive(serde::Serialize, serde::Deserialize)] pub struct Holder<Q> { pub a: Q, pub b: Vec<Q>, pub c: Option<Q>, pub d: (Q, u8), pub e: std::collections::BTreeMap<String, Q> }
 #[derive(serde::Serialize, serde::Deserialize)] pub struct Flat<Q> { pub x: i32, #[serde(flatten)] pub inner: Inner<Q> }
 #[derive(serde::Serialize, serde::Deserialize)] pub struct Inner<Q> { pub q: Q }
 #[derive(serde::Serialize, serde::Deserialize)] #[serde(untagged)] pub enum Un<Q> { N { q: Q }, M(Q) }
 #[derive(serde::Serialize, serde::Deserialize)] #[serde(tag = "kind")] pub enum Tag<Q> { A { q: Q }, B { r: Q } }
 pub struct W<'a, Q>(pub &'a Q); impl<'a, Q: Serialize> std::fmt::Display for W<'a, Q> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.serialize(f) } }
 pub fn direct<Q: Serialize + DeserializeOwned>(q: &Q) -> Result<Q, String> { let s = W(q).to_string(); Q::deserialize(serde::de::IntoDeserializer::<serde::de::value::Error>::into_deserializer(s.as_str())).map_err(|e| e.to_string()) }
 pub fn short<Q: Serialize + DeserializeOwned, S: Same>(q: &Q, get: fn(&Q) -> S, bad: &mut Bad) -> usize {
  let want = get(q);
  let mut t = |k: &str, r: Result<Q, String>| { match r { Ok(x) if get(&x).same(&want) => {}, Ok(x) => bad.push(format!("{k}: {:?} came back as {:?} ({})", want, get(&x), W(q))), Err(e) => bad.push(format!("{k}: {:?} written as {}: {e}", want, W(q))) } };
  t("direct", direct(q));
  t("json", serde_json::to_string(q).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())));
  t("yaml", serde_yaml::to_string(q).map_err(|e| e.to_string()).and_then(|s| serde_yaml::from_str(&s).map_err(|e| e.to_string())));
  t("binary", bin(q, true).and_then(|b| unbin(&b, true)));
  t("binary without tags", bin(q, false).and_then(|b| unbin(&b, false)));
  5 }
 pub fn long<Q: Serialize + DeserializeOwned + Clone, S: Same>(q: &Q, get: fn(&Q) -> S, bad: &mut Bad) -> usize {
  let n = short(q, get, bad);
  let want = get(q);
  let mut t = |k: &str, r: Result<Vec<Q>, String>| { match r { Ok(x) => { for y in x { if !get(&y).same(&want) { bad.push(format!("{k}: {:?} came back as {:?}", want, get(&y))) } } }, Err(e) => bad.push(format!("{k}: {:?} written as {}: {e}", want, W(q))) } };
  macro_rules! s { ($e: expr) => { $e.map_err(|e| e.to_string()) } }
  t("json value", s!(serde_json::to_value(q)).and_then(|v| s!(serde_json::from_value(v))).map(|x| vec![x]));
  t("yaml value", s!(serde_yaml::to_value(q)).and_then(|v| s!(serde_yaml::from_value(v))).map(|x| vec![x]));
  t("json reader", s!(serde_json::to_vec_pretty(q)).and_then(|v| s!(serde_json::from_reader(&v[..]))).map(|x| vec![x]));
  t("json slice", s!(serde_json::to_vec(q)).and_then(|v| s!(serde_json::from_slice(&v))).map(|x| vec![x]));
  t("yaml reader", s!(serde_yaml::to_string(q)).and_then(|v| s!(serde_yaml::from_reader(v.as_bytes()))).map(|x| vec![x]));
  let mut e = std::collections::BTreeMap::new(); e.insert("k".to_string(), q.clone()); e.insert("1".to_string(), q.clone());
  let h = Holder { a: q.clone(), b: vec![q.clone(), q.clone()], c: Some(q.clone()), d: (q.clone(), 7), e };
  let un = |h: Holder<Q>| { let mut v = h.b; v.push(h.a); v.extend(h.c); v.push(h.d.0); v.extend(h.e.into_values()); if v.len() != 7 { panic!("lost values") } v };
  t("json struct", s!(serde_json::to_string(&h)).and_then(|v| s!(serde_json::from_str(&v))).map(un));
  t("yaml struct", s!(serde_yaml::to_string(&h)).and_then(|v| s!(serde_yaml::from_str(&v))).map(un));
  let f = Flat { x: 3, inner: Inner { q: q.clone() } };
  t("json flatten", s!(serde_json::to_string(&f)).and_then(|v| s!(serde_json::from_str::<Flat<Q>>(&v))).map(|x| vec![x.inner.q]));
  t("yaml flatten", s!(serde_yaml::to_string(&f)).and_then(|v| s!(serde_yaml::from_str::<Flat<Q>>(&v))).map(|x| vec![x.inner.q]));
  let uq = |u: Un<Q>| match u { Un::N { q } => vec![q], Un::M(q) => vec![q] };
  t("json untagged", s!(serde_json::to_string(&Un::M(q.clone()))).and_then(|v| s!(serde_json::from_str::<Un<Q>>(&v))).map(uq));
  t("yaml untagged", s!(serde_yaml::to_string(&Un::N { q: q.clone() })).and_then(|v| s!(serde_yaml::from_str::<Un<Q>>(&v))).map(uq));
  let tq = |u: Tag<Q>| match u { Tag::A { q } => vec![q], Tag::B { r } => vec![r] };
  t("json tagged", s!(serde_json::to_string(&Tag::B { r: q.clone() })).and_then(|v| s!(serde_json::from_str::<Tag<Q>>(&v))).map(tq));
  n + 12 }
 // A binary format of our own (not human readable); with tags it is self-describing, without
 // them the reader only has the hints of the type that is read.
 type E = serde::de::value::Error;
 fn no<T>(w: &str) -> Result<T, E> { Err(serde::de::Error::custom(format!("binary format: {w}"))) }
 struct Out { tags: bool, b: Vec<u8> }
 impl Out { fn put(&mut self, t: u8, x: &[u8]) -> Result<(), E> { if self.tags { self.b.push(t); } self.b.extend_from_slice(x); Ok(()) } }
 macro_rules! nums { ($($f: ident $t: ty, $c: expr;)*) => { $(fn $f(self, v: $t) -> Result<(), E> { self.put($c, &v.to_le_bytes()) })* } }
 impl<'a> serde::Serializer for &'a mut Out { type Ok = (); type Error = E;
  type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = serde::ser::Impossible<(), E>; type SerializeMap = serde::ser::Impossible<(), E>; type SerializeStruct = Self; type SerializeStructVariant = serde::ser::Impossible<(), E>;
  nums! { serialize_i8 i8, 0; serialize_i16 i16, 1; serialize_i32 i32, 2; serialize_i64 i64, 3; serialize_u8 u8, 4; serialize_u16 u16, 5; serialize_u32 u32, 6; serialize_u64 u64, 7; serialize_f32 f32, 8; serialize_f64 f64, 9; }
  fn serialize_bool(self, v: bool) -> Result<(), E> { self.serialize_u8(v as u8) } fn serialize_char(self, v: char) -> Result<(), E> { self.serialize_str(&v.to_string()) }
  fn serialize_str(self, v: &str) -> Result<(), E> { self.put(10, &(v.len() as u64).to_le_bytes())?; self.b.extend_from_slice(v.as_bytes()); Ok(()) }
  fn serialize_bytes(self, v: &[u8]) -> Result<(), E> { self.put(11, &(v.len() as u64).to_le_bytes())?; self.b.extend_from_slice(v); Ok(()) }
  fn serialize_none(self) -> Result<(), E> { no("none") } fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> { v.serialize(self) }
  fn serialize_unit(self) -> Result<(), E> { Ok(()) } fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> { Ok(()) } fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> { no("variant") }
  fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(self) } fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> { no("variant") }
  fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> { match n { Some(n) => { self.put(12, &(n as u64).to_le_bytes())?; Ok(self) } None => no("length") } } fn serialize_tuple(self, n: usize) -> Result<Self, E> { if self.tags { self.serialize_seq(Some(n)) } else { Ok(self) } }
  fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, E> { self.serialize_tuple(n) } fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { no("variant") }
  fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { no("map") } fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, E> { self.serialize_tuple(n) } fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { no("variant") }
  fn is_human_readable(&self) -> bool { false } }
 macro_rules! comp { ($($tr: ident $f: ident;)*) => { $(impl<'a> serde::ser::$tr for &'a mut Out { type Ok = (); type Error = E; fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) } fn end(self) -> Result<(), E> { Ok(()) } })* } }
 comp! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; }
 impl<'a> serde::ser::SerializeStruct for &'a mut Out { type Ok = (); type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(&mut **self) } fn end(self) -> Result<(), E> { Ok(()) } }
 pub fn bin<Q: Serialize>(q: &Q, tags: bool) -> Result<Vec<u8>, String> { let mut o = Out { tags, b: Vec::new() }; q.serialize(&mut o).map_err(|e| e.to_string())?; Ok(o.b) }
 struct In<'a> { tags: bool, b: &'a [u8] }
 impl<'a> In<'a> { fn take(&mut self, n: usize) -> Result<&'a [u8], E> { if n > self.b.len() { return no("end of input"); } let (x, r) = self.b.split_at(n); self.b = r; Ok(x) }
  fn len(&mut self) -> Result<usize, E> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()) as usize) }
  fn value<'de, V: serde::de::Visitor<'de>>(&mut self, hint: u8, v: V) -> Result<V::Value, E> { let t = if self.tags { self.take(1)?[0] } else { hint };
   macro_rules! n { ($f: ident $t: ty) => { v.$f(<$t>::from_le_bytes(self.take(std::mem::size_of::<$t>())?.try_into().unwrap())) } }
   match t { 0 => n!(visit_i8 i8), 1 => n!(visit_i16 i16), 2 => n!(visit_i32 i32), 3 => n!(visit_i64 i64), 4 => n!(visit_u8 u8), 5 => n!(visit_u16 u16), 6 => n!(visit_u32 u32), 7 => n!(visit_u64 u64), 8 => n!(visit_f32 f32), 9 => n!(visit_f64 f64),
    10 => { let n = self.len()?; let x = self.take(n)?; match std::str::from_utf8(x) { Ok(x) => v.visit_str(x), Err(_) => no("text") } } 11 => { let n = self.len()?; let x = self.take(n)?; v.visit_bytes(x) }
    12 => { let n = self.len()?; v.visit_seq(Items { d: self, n }) } _ => no("unknown type") } } }
 struct Items<'x, 'a> { d: &'x mut In<'a>, n: usize }
 impl<'de, 'x, 'a> serde::de::SeqAccess<'de> for Items<'x, 'a> { type Error = E; fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> { if self.n == 0 { return Ok(None); } self.n -= 1; s.deserialize(&mut *self.d).map(Some) } fn size_hint(&self) -> Option<usize> { Some(self.n) } }
 macro_rules! hints { ($($f: ident $t: expr;)*) => { $(fn $f<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.value($t, v) })* } }
 impl<'de, 'x, 'a> serde::Deserializer<'de> for &'x mut In<'a> { type Error = E; fn is_human_readable(&self) -> bool { false }
  hints! { deserialize_any 255; deserialize_bool 4; deserialize_i8 0; deserialize_i16 1; deserialize_i32 2; deserialize_i64 3; deserialize_u8 4; deserialize_u16 5; deserialize_u32 6; deserialize_u64 7; deserialize_f32 8; deserialize_f64 9; deserialize_char 10; deserialize_str 10; deserialize_string 10; deserialize_bytes 11; deserialize_byte_buf 11; deserialize_seq 12; deserialize_identifier 10; deserialize_ignored_any 255; deserialize_map 255; deserialize_option 255; deserialize_unit 255; }
  fn deserialize_unit_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_unit() } fn deserialize_newtype_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
  fn deserialize_tuple<V: serde::de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> { if self.tags { self.value(255, v) } else { v.visit_seq(Items { d: self, n }) } } fn deserialize_tuple_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> { self.deserialize_tuple(n, v) }
  fn deserialize_struct<V: serde::de::Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> { self.deserialize_tuple(f.len(), v) } fn deserialize_enum<V: serde::de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> { no("enum") } }
 pub fn unbin<Q: DeserializeOwned>(b: &[u8], tags: bool) -> Result<Q, String> { let mut d = In { tags, b }; let q = Q::deserialize(&mut d).map_err(|e| e.to_string())?; if d.b.is_empty() { Ok(q) } else { Err("bytes left over".to_string()) } }
}
"""
STORAGES = ["f32", "Vec2", "Vec3", "DVec2", "DVec3"]
SPEC = {"f64": "[1.5f64, -0.0, 1e22, f64::MAX, f64::MIN_POSITIVE, f64::NAN, f64::NEG_INFINITY]", "f32": "[2.5f32, f32::MAX, -0.0, f32::from_bits(1), f32::INFINITY]"}


def path(s):
    return s if s[0] == "f" else "glam::" + s


def module(i, stmts, meaning, vecs, mode):
    """mode few: f64 and matrix; all storages: every storage, few values; values: every value of
    the alphabets in every format"""
    full = [QT, DT] + stmts + dim_defs(meaning["bases"], vecs)
    code = []
    tests = {}

    def fn(s, kind, values):
        tests[s] = f"fn t_{s}<const D: Dimension>(bad: &mut rt::Bad) -> usize {{ fn get<const D: Dimension>(q: &Quantity<{path(s)}, D>) -> {path(s)} {{ *q.value_unchecked_ref() }} let mut n = 0; for v in {values} {{ n += rt::{kind}(&Quantity::<{path(s)}, D>::new_unchecked(v), get::<D>, bad); }} n }}".replace("*q.value_unchecked_ref()", "q.value_unchecked()")
    if mode == "few":
        fn("f64", "short", SPEC["f64"])
    elif mode == "storages":
        fn("f64", "long", SPEC["f64"])
        fn("f32", "long", SPEC["f32"])
        for s in STORAGES[1:]:
            fn(s, "short", f"vvals::{s.lower()}s(0).into_iter().step_by(7)")
    else:
        lvl = int(mode[6:])
        fn("f64", "short", f"vals::f64s({lvl})")
        fn("f32", "short", f"vals::f32s({lvl})")
        for s in STORAGES[1:]:
            fn(s, "short", f"vvals::{s.lower()}s({min(lvl, 2)})")
    body = " ".join(f'n += t_{s}::<D>(&mut bad);' for s in tests)
    calls = " ".join(f'{{ let q: dimensions::X{j}<f64> = Quantity::new_unchecked(1.0); t("{i}\\t{j}", q); w.push(text(q)); wb.push(rt::bin(&(q * 1.25), true).unwrap()); }}' for j in range(len(vecs)))
    reads = ", ".join(f"|s| serde_json::from_str::<dimensions::X{j}<f64>>(s).ok().map(|q| q.value_unchecked())" for j in range(len(vecs)))
    readsb = ", ".join(f"|s| rt::unbin::<dimensions::X{j}<f64>>(s, true).ok().map(|q| q.value_unchecked())" for j in range(len(vecs)))
    reads32 = ", ".join(f"|s| serde_yaml::from_str::<dimensions::X{j}<f32>>(s).ok().map(|q| q.value_unchecked() as f64)" for j in range(len(vecs))) if mode == "storages" else ""
    return f"""mod m{i} {{ use super::*; {text(full)}
    {' '.join(tests.values())}
    fn text<const D: Dimension>(q: Quantity<f64, D>) -> String {{ serde_json::to_string(&(q * 1.25)).unwrap() }}
    fn t<const D: Dimension>(k: &str, _: Quantity<f64, D>) {{ let mut bad = Vec::new(); let mut n = 0; {body}
      println!("{{}}\\t{{}}\\t{{}}\\t{{}}", k, n, bad.len(), bad.get(0).map(|x| x.replace("\\n", "~").replace("\\t", " ")).unwrap_or_default()); }}
    pub fn main() {{ let mut w: Vec<String> = Vec::new(); let mut wb: Vec<Vec<u8>> = Vec::new(); {calls}
      let r: &[fn(&str) -> Option<f64>] = &[{reads}]; let rb: &[fn(&[u8]) -> Option<f64>] = &[{readsb}]; let r32: &[fn(&str) -> Option<f64>] = &[{reads32}];
      for i in 0..w.len() {{ for j in 0..r.len() {{ let v = r[j](&w[i]); if v != (i == j).then_some(1.25) {{ println!("{i}\\tmatrix\\t{{i}}\\t{{j}}\\t{{:?}}\\t{{}}", v, w[i]); }}
        let v = rb[j](&wb[i]); if v != (i == j).then_some(1.25) {{ println!("{i}\tmatrix\t{{i}}\t{{j}}\t{{:?}}\tbinary {{:?}}", v, w[i]); }}
        if r32.len() > 0 {{ let v = r32[j](&w[i]); if v != (i == j).then_some(1.25) {{ println!("{i}\\tmatrix\\t{{i}}\\t{{j}}\\t{{:?}}\\t{{}}", v, w[i]); }} }} }} }}
    }} }}
""".replace("\n", " ") + "\n"


def go(run, tag, art, jobs, per):
    chunks = [list(enumerate(jobs))[i : i + per] for i in range(0, len(jobs), per)]

    def work(ix):
        i, ch = ix
        src = SUPPORT + VECSUPPORT + HELP + "".join(module(k, st, m, vecs, mode) for k, (key, st, m, vecs, mode) in ch) + "fn main() { " + " ".join(f"m{k}::main();" for k, _ in ch) + " }\n"
        return ch, run_program(run, f"{tag}{i}", src, art, soft=True)

    for ch, (kind, r) in pmap(work, list(enumerate(chunks))):
        if kind == "compile":
            run.transitions += 1
            run.violation(f"{tag} {ch[0][1][0]}", f"program does not compile: {r.text(500)}")
            continue
        got, mat = {}, {}
        for l in r.stdout.splitlines():
            f = l.split("\t")
            if len(f) == 6 and f[1] == "matrix":
                mat.setdefault(int(f[0]), []).append(f[2:])
            elif len(f) == 5:
                got[int(f[0]), int(f[1])] = f[2:]
        for k, (key, st, m, vecs, mode) in ch:
            show = lambda v: "(" + ", ".join(map(str, v)) + ")"
            for j, v in enumerate(vecs):
                run.states.add((tag, key, v))
                g = got.get((k, j))
                if g is None:
                    run.transitions += 1
                    run.violation(f"{tag} {key} {show(v)}", f"no result: rc={r.returncode} {r.stderr[-300:]}")
                    continue
                run.transitions += int(g[0])
                run.validated += int(g[0])
                run.outcome("round trip", int(g[0]))
                if g[1] != "0":
                    run.violation(f"{tag} {key} {show(v)}", f"{g[1]} of {g[0]} round trips differ: {g[2]}")
            n = 2 * len(vecs) ** 2
            run.transitions += n
            run.validated += n
            run.outcome("written as one dimension, read as another", n)
            for i, j, v, w in mat.get(k, []):
                run.violation(f"{tag} {key} {show(vecs[int(i)])} read as {show(vecs[int(j)])}", f"{w} gives {v}")


def main():
    run = Run("P14")
    art = build("serde")
    jobs = []
    for n, (key, st) in enumerate(systems(run.thorough)):
        problems, meaning = analyse([QT, DT] + st)
        assert not problems
        if not run.thorough and key.startswith("units ") and key[6:].isdigit() and n % 3:
            continue
        jobs.append((key, st, meaning, box(2, -2, 2), "few"))
    for n in range(0, 8):
        st = one_base(n)
        m = analyse([QT, DT] + st)[1]
        vecs = box(n, -2, 2) if n <= 2 else (box(n, -1, 1) if n <= 3 else sparse(n, 2, 2 if n < 6 or run.thorough else 1))
        jobs.append((f"{n} base dimensions", st, m, vecs[:: 1 if run.thorough else 2] if len(vecs) > 60 else vecs, "few"))
    P = pool()
    st = base_of(True) + [u for g in P for u in g]
    m = analyse([QT, DT] + st)[1]
    b = box(2, -2, 2)
    for c in range(0, 25, 3):
        jobs.append((f"all storages, part {c // 3}", st, m, b[c : c + 3], "storages"))
    for i, v in enumerate([(0, 0), (1, 0), (1, 1), (-1, -3)]):
        jobs.append((f"all values {v}", st, m, [v], "values" + ("4" if run.thorough else "2")))
    st = one_base(2)
    jobs.append(("large exponents", st, analyse([QT, DT] + st)[1], [(9, 0), (10, -10), (-99, 1), (100, 100), (1000000, -1), (-2147483648, 2147483647)], "few"))
    # big programs first
    jobs.sort(key=lambda j: j[4] == "few")
    go(run, "system", art, jobs, 1)
    rat = build("rational")
    ex = [Fr(x) for x in ("-2", "-3/2", "-1", "-1/2", "-1/3", "0", "1/3", "1/2", "2/3", "1", "5/3", "2")]
    vecs = list(itertools.product(ex, repeat=2))
    if not run.thorough:
        vecs = vecs[::3]
    st = base_of(True) + P[0] + P[2] + [U("rt", power(ref("ua"), Fr(1, 2)), symbol="rt")]
    m = analyse([QT, DT] + st)[1]
    st2 = one_base(2)
    rjobs = [(f"rational, part {c}", st, m, vecs[c::4], "few") for c in range(4)] + [("rational, base units only", st2, analyse([QT, DT] + st2)[1], vecs[::3], "few"),
             ("rational, all storages", st, m, [(Fr(1, 2), Fr(0)), (Fr(1), Fr(-2, 3)), (Fr(1), Fr(1)), (Fr(0), Fr(0))], "storages"), ("rational, all values", st, m, [(Fr(1, 2), Fr(-5, 3))], "values2")]
    go(run, "rational", rat, rjobs, 1)
    if run.thorough:
        # all f32 values
        src = HELP.replace("super::vals::Same", "super::Same") + """
trait Same: std::fmt::Debug { fn same(&self, o: &Self) -> bool; } impl Same for f32 { fn same(&self, o: &f32) -> bool { self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan() } }
diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension A; #[base(A)] #[symbol(m)] unit ua; dimension X = A^-2; );
fn main() { let hs: Vec<_> = (0..8u64).map(|k| std::thread::spawn(move || { let mut n = 0u64; let mut bad = Vec::new();
  for b in k << 29 .. (k + 1) << 29 { let v = f32::from_bits(b as u32); n += 1; let q: dimensions::X<f32> = Quantity::new_unchecked(v);
    match rt::direct(&q) { Ok(r) if r.value_unchecked().same(&v) => {}, Ok(r) => bad.push(format!("{:?} came back as {:?}", v, r.value_unchecked())), Err(e) => bad.push(format!("{:?}: {e}", v)) } if bad.len() > 3 { break; } }
  (n, bad) })).collect(); for h in hs { let (n, bad) = h.join().unwrap(); println!("{n}\\t{}\\t{}", bad.len(), bad.join("; ")); } }
"""
        kind, r = run_program(run, "exhaustive", src, art, extra=["-O"], timeout=850, soft=True)
        if kind == "compile":
            raise EngineError("exhaustive program: " + r.text())
        for l in r.stdout.splitlines():
            n, nb, first = l.split("\t")
            run.transitions += int(n)
            run.validated += int(n)
            run.outcome("exhaustive f32 round trip", int(n))
            if nb != "0":
                run.violation("all f32 values", first)
    for k, st, m, vecs, mode in jobs[:: len(jobs) // 8]:
        run.sample(f"{k}: {len(vecs)} dimensions, {mode}, e.g. {vecs[len(vecs) // 2]}")
    run.assumptions = ["formats: serde_json and serde_yaml (text, value trees, readers, flattened/tagged/untagged containers) and the plain string (de)serialiser of serde",
                       "unit systems in which every base dimension has a base unit; f64 values restricted to the alphabet"]
    return run.finish()
