"""P15: every string of a bounded token language, deserialised as several dimensions and
storages, against a reference parser."""
import itertools
import re

from .core import *
from .usys import *
from .dsys import eval_suffix

STM = [D("A"), D("B"), U("ua", base="A", symbol="m", prefixes=("kilo",)), U("ub", base="B", symbol="s"), U("hr", mul(num("3600"), ref("ub")), symbol="h"),
       U("nw", div(ref("ua"), power(ref("ub"), 2)), symbol="N"), U("pc", num("0.25"), symbol="pc"), U("om", div(num("8"), ref("ub")), symbol="Ω"), U("nosym", mul(num("3"), ref("ua")))]
# the rational system also has units of fractional dimensions
RSTM = STM + [U("root", mul(num("4"), power(ref("ua"), Fr(1, 2))), symbol="q"), U("third", power(ref("ub"), Fr(-2, 3)), symbol="w")]
# requested dimensions
DIMS = {"none": (0, 0), "len": (1, 0), "time": (0, 1), "acc": (1, -2), "rate": (0, -1), "sq": (2, 0)}
RDIMS = {"none": (0, 0), "len": (1, 0), "half": (Fr(1, 2), 0), "third": (0, Fr(-1, 3)), "acc": (1, -2)}

NUM = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?\Z")
WS = " \t\n\r"


def number(t):
    if NUM.match(t):
        return Fr(t) if not t.rstrip("0123456789+-eE").endswith(".") or True else None
    if t in ("inf", "-inf", "NaN"):
        return t
    return None


def unit_tokens(toks, meaning, rational):
    """(factor, dims) or None when malformed; 'skip' when the reference has no opinion"""
    f, v = Fr(1), [Fr(0)] * 2
    for t in toks:
        sym, hat, ex = t.partition("^")
        if sym not in meaning["symbols"]:
            return None
        k = Fr(1)
        if hat:
            if re.fullmatch(r"[+-]?[0-9]+", ex):
                k = Fr(ex)
            elif rational and re.fullmatch(r"[+-]?[0-9]+/[0-9]+", ex):
                if int(ex.split("/")[1]) == 0:
                    return None
                k = Fr(ex)
            else:
                return None
            if abs(k.numerator) >= 2**31 or k.denominator >= 2**31:
                return None
        _, g, w = meaning["names"][meaning["symbols"][sym]]
        if k.denominator == 1:
            f *= g ** int(k)
        else:
            f *= Fr(float(g) ** float(k))
        v = [a + b * k for a, b in zip(v, w)]
    return f, tuple(v)


def reference(s, n, meaning, rational):
    """('err',) or ('ok', [numbers], factor, dims); n components, 0 for a scalar"""
    s = s.strip()
    if n == 0:
        toks = s.split()
        if not toks:
            return None
        x = number(toks[0])
        if x is None:
            return None
        u = unit_tokens(toks[1:], meaning, rational)
        return None if u is None else ([x],) + u
    m = re.match(r"\(([^()]*)\)(.*)\Z", s, re.S)
    if not m:
        return None
    comps = [number(t) for t in m.group(1).split()]
    if len(comps) != n or None in comps:
        return None
    u = unit_tokens(m.group(2).split(), meaning, rational)
    return None if u is None else (comps,) + u


def strings(deep, rational):
    """(string, dimensional?) of the token language"""
    units = ["m", "s", "km", "h", "N", "pc", "Ω", "m^2", "m^-1", "s^-2", "s^0", "h^-1", "N^1"]
    odd = ["x", "M", "kh", "nosym", "ua", "m^", "^2", "m^2^3", "m^x", "m^1.5", "m^2.0", "m^+2", "m^99999999999", "m^--1", "m*s", "m/s", "1", "2.5", ",", "m,", "(m)", "m^(2)", "kkm", "m²", "^", "m^ 2", "m ^2", "μm", "0", "-", "N^-0", "m^02", "m^2147483648", "kg", "m^-2147483649"]
    frac = ["m^1/2", "m^-1/2", "m^2/4", "s^-1/3", "N^1/2", "m^1/0", "m^1/-2", "m^0/5", "m^/2", "m^1/", "m^1/2/3", "m^3/2", "h^1/2", "m^1/3000000000", "m^ 1/2"]
    if rational:
        units = ["m", "s", "km", "h", "N", "m^1/2", "m^-1/2", "s^-1/3", "m^2/4", "s^-2", "h^1/2"]
        odd = odd[:14] + frac + ["q", "q^2", "q^-1", "q^1/2", "q^6/3", "w", "w^3/2", "w^-1/2", "w^-3"]
    else:
        odd = odd + frac[:4]
    nums = ["1", "-2.5", "3e2", "+.5", "1e-3", "0", "7.", "1E+2"]
    badnum = ["", "x", "1,5", "1_0", "0x1", "--1", "1e", "e1", ".", "1m", "1.2.3", "m", "+", "1f64", "½", "1 000", "(1)", "[1]", "1d", "'1'"]
    depth = 3
    alls = units + odd
    seqs = [()]
    for n in (1, 2):
        seqs += list(itertools.product(alls, repeat=n))
    seqs += list(itertools.product(units if deep else units[:9], repeat=3))
    if deep:
        seqs += list(itertools.product(alls, repeat=3))
        seqs += list(itertools.product(units, repeat=4))
    for i, q in enumerate(seqs):
        yield " ".join((nums[i % len(nums)],) + q)
    for x in nums + badnum + ["inf", "-inf", "NaN"]:
        for q in [(), ("m",), ("m", "s"), ("pc",), ("m^2", "m^-1")]:
            for sep in (" ", "  ", "\t", " \n ", ""):
                for lead, trail in (("", ""), (" ", ""), ("", " "), ("\n\t", "\r\n"), ("a ", ""), ("", " a"), ("", " 1")):
                    yield lead + sep.join((x,) + q) + trail
    long = ["m"] * 5 + ["m^-5"] + ["s^3", "s^-3"]
    for p in itertools.permutations(long[4:]) if not deep else itertools.permutations(long[3:]):
        yield "2 " + " ".join(long[:4] + list(p))
    for k in (2147483647, -2147483647):
        yield f"2 m^{k} m^{-k} m"
        yield f"2 m^{k} s m^{-k}"
    for k in range(-12, 13):
        yield f"2 km^{k} m^{1 - k}"
        yield f"2 h^{k} s^{-2 - k} m"
        if rational:
            for d in (1, 2, 3, 4):
                yield f"2 q^{k}/{d} q^{2 * d - k}/{d}"
                yield f"2 q^{k}/{d} m^{-k}/{2 * d}"
                yield f"2 w^{k}/{d} s^{2 * k}/{3 * d}"
                yield f"2 w^{3 * k}/{2 * d} s^{k}/{d} w^1/2"
                yield f"2 km^{k}/{d} m^{d - k}/{d} N^2/2 q^-2"
        yield f"4 pc^{k}"
        yield f"4 Ω^{k} s^{k}"


def vector_strings(deep, n):
    nums = ["1", "-2.5", "3e2", "NaN", "x", ",", "1,", "(", ")", "1)"]
    units = ["", "m", "km", "s^-2 m", "x", "m^", "1", "(1)", ")", "m)", "m m^-1", "( m )", "h"]
    good = ["1", "-2.5", "3e2", "inf"]
    for k in range(0, 5):
        for c in itertools.product(good[:3] if k > 3 else good, repeat=k):
            for u in (units if k == n else units[:2]):
                yield f"({' '.join(c)}) {u}"
    for c in itertools.product(nums, repeat=n):
        for u in units if deep else ("", "m", "N"):
            yield f"({' '.join(c)}) {u}"
    comps = " ".join(["1", "2", "4"][:n])
    for lead in ("", " ", "\n", "a", "1 ", "a ", "(", "()", "( ", "[", "m ", "-", "2*"):
        for open_ in ("(", "( ", "(\t", "((", "[", "", "{"):
            for close_ in (")", " )", "))", "]", "", "} "):
                for u in (" m", " km ", " s", " ", " m x", "  m\t", ") m"):
                    yield f"{lead}{open_}{comps}{close_}{u}"
    for sep in (", ", ",", "  ", "\t", ";", " ; ", "\n"):
        for u in units:
            yield "(" + sep.join(["1", "2", "4"][:n]) + ") " + u
    for x in ("", " ", "(", ")", "()", ")(", "1", "1 m", "m", "( )", "(1 2 3 4 5)", ")1 2(", "(1 2) (3 4) m", "(1 2 3) (1 2 3) m", ")(1 2) m", "(1 2)) m", "(1 2 3)) m"):
        yield x


def rounded(x, f32):
    """the float nearest to x (ties to even), as a fraction; None when it is out of range"""
    p, lo, hi = (24, -126, 127) if f32 else (53, -1022, 1023)
    if x == 0:
        return Fr(0)
    a = abs(x)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fr(2) ** e > a:
        e -= 1
    q = Fr(2) ** (max(e, lo) - p + 1)
    r = round(a / q) * q
    return None if r >= Fr(2) ** (hi + 1) else r if x > 0 else -r


def decimal(x):
    """the exact decimal expansion of a dyadic fraction"""
    n, k = x.numerator, x.denominator.bit_length() - 1
    s = str(abs(n) * 5**k).rjust(k + 1, "0")
    return ("-" if n < 0 else "") + (s[:-k] + "." + s[-k:] if k else s)


def exact_numbers(f32, deep):
    """texts next to floats and next to the middle between two floats"""
    p, lo, hi = (24, -126, 127) if f32 else (53, -1022, 1023)
    exps = [lo - p + 1, lo - 1, lo, -p - 1, -p, -2, -1, 0, 1, 2, p - 1, p, p + 1, 40, 100, hi - 1, hi]
    mants = [0, 1, 2, 3, 2 ** (p - 2), 2 ** (p - 2) + 1, 0x2AAAAA % 2 ** (p - 1), 2 ** (p - 1) - 2, 2 ** (p - 1) - 1]
    out = []
    for e in exps if deep or f32 else exps[2:-2]:
        for m in mants:
            q = Fr(2) ** (max(e, lo) - p + 1)
            x = (2 ** (p - 1) + m) * q if e >= lo else Fr(2) ** e
            for y in (x, x + q / 2):
                t = decimal(y)
                out.append(t)
                dot = t if "." in t else t + ".0"
                out.append(dot + "000000000001")
                # one unit in the last decimal place below
                out.append(decimal_below(dot))
                sig = t.replace(".", "").lstrip("0")
                if len(sig) > 1:
                    ex = len(t.split(".")[0].lstrip("0")) - 1 if t.split(".")[0].strip("0") else -(len(t.split(".")[1]) - len(t.split(".")[1].lstrip("0")) + 1)
                    out.append(f"-{sig[0]}.{sig[1:]}e{ex}")
                    out.append(f"{sig}E{ex - len(sig) + 1}")
                    out.append(f"{sig[0]}.{sig[1:20]}e{ex}")
    return out


def decimal_below(t):
    a, b = t.split(".")
    n = int(a + b) * 1000 - 1
    s = str(n).rjust(len(b) + 4, "0")
    return s[: -(len(b) + 3)] + "." + s[-(len(b) + 3):]


SC = ["f64", "f32"]
VE = [("DVec2", 2), ("DVec3", 3), ("Vec2", 2), ("Vec3", 3)]


def program(dims, rational):
    stm = RSTM if rational else STM
    dd = []
    for k, v in dims.items():
        e = None
        for b, x in zip("AB", v):
            if x:
                t = power(ref(b), x) if x != 1 else ref(b)
                e = t if e is None else mul(e, t)
        dd.append(D("R_" + k, e if e is not None else num("1")))
    rows, srows = [], []
    for s in SC + [v for v, _ in VE]:
        p = s if s[0] == "f" else "glam::" + s
        out = "q.value_unchecked()" + ("" if s[0] == "f" else ".to_array()")
        fs = ", ".join(f"|s, how| show(how, s, |r: dimensions::R_{d}<{p}>| {{ let q = r; format!(\"{{:?}}\", {out}).replace(' ', \"\") }})" for d in dims)
        rows.append(f"&[{fs}]")
    return f"""
use serde::Deserialize; use serde::de::{{IntoDeserializer, DeserializeOwned, value::Error}};
{text([QT, DT] + stm + dd)}
fn show<T: DeserializeOwned>(how: u32, s: &str, f: fn(T) -> String) -> String {{
  macro_rules! d {{ ($e: expr) => {{ T::deserialize(IntoDeserializer::<Error>::into_deserializer($e)).map_err(|_| ()) }} }}
  macro_rules! a {{ ($($t: ty),*) => {{ match how {{ $( n if n == <$t as Code>::CODE => d!(s.parse::<$t>().unwrap()), )* _ => Err(()) }} }} }}
  let r: Result<T, ()> = match how {{
    0 => d!(s), 1 => d!(s.to_string()), 2 => serde_json::from_str(&serde_json::to_string(s).unwrap()).map_err(|_| ()), 3 => T::deserialize(serde::de::value::BorrowedStrDeserializer::<Error>::new(s)).map_err(|_| ()),
    4 => serde_json::from_str(s).map_err(|_| ()), 5 => serde_yaml::from_str(s).map_err(|_| ()), 6 => serde_yaml::from_str(&serde_yaml::to_string(s).unwrap()).map_err(|_| ()),
    _ => a!(i8, i16, i32, i64, u8, u16, u32, u64, f32, f64) }};
  match r {{ Ok(x) => f(x), Err(_) => "E".to_string() }} }}
trait Code {{ const CODE: u32; }}
macro_rules! code {{ ($($t: ty, $n: expr);*) => {{ $( impl Code for $t {{ const CODE: u32 = $n; }} )* }} }}
code!(i8, 10; i16, 11; i32, 12; i64, 13; u8, 14; u16, 15; u32, 16; u64, 17; f32, 18; f64, 19);
type F = fn(&str, u32) -> String;
fn main() {{
  let t: &[&[F]] = &[{', '.join(rows)}];
  let inp = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
  let mut out = String::new();
  for l in inp.split('\\u{{1}}') {{ let mut p = l.splitn(3, '\\u{{2}}'); let (Some(how), Some(st), Some(s)) = (p.next(), p.next(), p.next()) else {{ continue }};
    let how: u32 = how.parse().unwrap(); let st: usize = st.parse().unwrap();
    let r: Vec<String> = t[st].iter().map(|f| std::panic::catch_unwind(|| f(s, how)).unwrap_or("PANIC".to_string())).collect();
    out.push_str(&r.join("\\t")); out.push('\\n'); }}
  print!("{{}}", out); }}
"""


def num_close(got, want, factor, f32):
    """got: text of the value; want: number token value times factor"""
    if want == "NaN":
        return got == "NaN"
    if want in ("inf", "-inf"):
        return got == want
    w = want * factor
    lim = Fr(2) ** 127 if f32 else Fr(2) ** 1000
    try:
        g = Fr(float(got))
    except (ValueError, OverflowError):
        return abs(w) > lim
    if abs(w) > lim:
        return abs(g) >= lim
    tol = Fr(1, 2**20) if f32 else Fr(1, 2**45)
    tiny = Fr(2) ** -120 if f32 else Fr(2) ** -980
    return abs(g - w) <= abs(w) * tol or (abs(w) < tiny and abs(g) < 2 * tiny)


def judge(run, tag, items, lines, dims, meaning, rational):
    """items: (how, storage index, string, reference result)"""
    dl = list(dims.items())
    if len(lines) != len(items):
        raise EngineError(f"{tag}: {len(lines)} answers to {len(items)} questions")
    for (how, st, s, refr), line in zip(items, lines):
        got = line.split("\t")
        for (dn, dv), g in zip(dl, got):
            run.transitions += 1
            run.validated += 1
            want_ok = refr is not None and refr[2] == tuple(map(Fr, dv))
            name = (SC + [v for v, _ in VE])[st]
            if not want_ok:
                run.outcome("rejected" if refr is None else "rejected: other dimension")
                if g != "E":
                    run.violation(f"{tag} {s!r} as {dn}/{name} via {how}", f"must be an error ({'malformed' if refr is None else 'dimension (' + ', '.join(map(str, refr[2])) + ')'}), gave {g}")
                continue
            run.outcome("accepted")
            comps = g.strip("[]").split(",")
            single = how == 18 or name in ("f32", "Vec2", "Vec3")
            if refr[1] == 1 and how != 19 and g not in ("E", "PANIC") and len(comps) == len(refr[0]):
                # in units of factor one the number is the one that the float type reads
                bits = [None if x in ("NaN", "inf", "-inf") else rounded(x, single) for x in refr[0]]
                gots = [rounded(Fr(c), single) if NUM.match(c) else None for c in comps]
                if any(b is not None and b != h for b, h in zip(bits, gots)):
                    run.violation(f"{tag} {s!r} as {dn}/{name} via {how}", f"is not read as the float type reads the number: gave {g}")
                if all(b is not None for b in bits):
                    continue
            if g in ("E", "PANIC") or len(comps) != len(refr[0]) or not all(num_close(c, x, refr[1], how == 18 or name in ("f32", "Vec2", "Vec3")) for c, x in zip(comps, refr[0])):
                run.violation(f"{tag} {s!r} as {dn}/{name} via {how}", f"must be {[str(x) for x in refr[0]]} * {float(refr[1])}, gave {'an error' if g == 'E' else g}")


def main():
    run = Run("P15")
    for tag, config, dims, rational in (("int", "serde", DIMS, False), ("rational", "rational", RDIMS, True)):
        art = build(config)
        problems, meaning = analyse([QT, DT] + (RSTM if rational else STM))
        assert not problems
        items = []
        memo = {}
        seen = set()
        for s in strings(run.thorough, rational):
            if s in seen or "\x01" in s:
                continue
            seen.add(s)
            r = reference(s, 0, meaning, rational)
            hows = (0, 2) if len(seen) % 4 else (0, 1, 3, 6)
            for how in (hows if run.thorough or len(seen) % 8 == 0 else (0,)):
                items.append((how, 0, s, r))
            if len(seen) % 3 == 0 or run.thorough:
                items.append((0, 1, s, r))
        run.outcome(f"{tag}: scalar strings", len(seen))
        for vi, (v, n) in enumerate(VE):
            vs = set(vector_strings(run.thorough, n))
            for i, s in enumerate(sorted(vs)):
                r = reference(s, n, meaning, rational)
                if n == 3 and v == "Vec3" and not run.thorough and i % 2:
                    continue
                items.append((0, 2 + vi, s, r))
                if i % 10 == 0:
                    items += [(2, 2 + vi, s, r), (1, 2 + vi, s, r), (3, 2 + vi, s, r)]
            for s in list(seen)[::50]:
                items.append((0, 2 + vi, s, reference(s, n, meaning, rational)))
            run.outcome(f"{tag}: vector strings", len(vs))
        for f32 in (True, False) if not rational or run.thorough else (True,):
            for i, x in enumerate(sorted(set(exact_numbers(f32, run.thorough)))):
                u = ("m", "", "m^2 m^-1", "m")[i % 4]
                items.append(((0, 2, 1, 6)[i // 4 % 4], int(f32), f"{x} {u}", reference(f"{x} {u}", 0, meaning, rational)))
                items.append((0, int(not f32), f"{x} {u}", reference(f"{x} {u}", 0, meaning, rational)))
                if i % (1 if run.thorough else 5) == 0:
                    for vi, (v, n) in enumerate(VE):
                        t = f"({' '.join([x, '1', '0.5'][:n])}) {u}" if i % 2 else f"({' '.join(['1', x, x][:n])}) {u}"
                        items.append((0, 2 + vi, t, reference(t, n, meaning, rational)))
        # bare numbers of every kind
        for st in range(6):
            for how, lim in ((10, 7), (11, 15), (12, 31), (13, 63), (14, 8), (15, 16), (16, 32), (17, 64)):
                signed = how < 14
                # about the middles between two floats of either precision
                mid = {2**e + m * 2 ** (e - p) + d for p in (24, 53) for e in range(p + 1, lim) for m in (1, 2, 3, 2**p - 1) for d in (-1, 0, 1)}
                mid |= {-x for x in mid} if signed else set()
                mid = {x for x in mid if -(2**lim) * signed <= x < 2**lim} if st < 2 else set()
                for x in sorted({0, 1, 7, 100, 2**lim - 1} | ({-1, -100, -(2**lim)} if signed else set()) | mid):
                    items.append((how, st, str(x), ([Fr(x)], Fr(1), (Fr(0), Fr(0))) if st < 2 else None))
            for how in (18, 19):
                for x in ("0", "-0.5", "1e30", "3.25", "1e-30") + (("1.1", "16777217", "-9007199254740993", "1e-40", "5e-324", "3.4028235e38", "1.00000005960464477540") if how == 18 or st != 1 else ()):
                    items.append((how, st, x, ([Fr(x)], Fr(1), (Fr(0), Fr(0))) if st < 2 else None))
            for x in ("1", "-3", "2.5", "1e3", "18446744073709551615", "-9223372036854775808"):
                # serde_json refuses a number where a string is asked for: only yaml hands it over
                for how in (5,):
                    items.append((how, st, x, ([Fr(x)], Fr(1), (Fr(0), Fr(0))) if st < 2 else None))
            for x in ("true", "null", "[]", "[1]", "[1,2]", "[1,2,3]", "{}", '{"a":1}', '""', '["1 m"]'):
                items.append((4, st, x, None))
                items.append((5, st, x, None))
            for x in ("3 m", "2 km", "4 pc", "'5'", "\"6 s\""):
                t = x.strip("'\"")
                items.append((5, st, x, reference(t, 0, meaning, rational) if st < 2 else None))
            for n, x in ((2, "(1 2) m"), (3, "(1 2 3) km"), (2, "'(1 2)'"), (2, "[1, 2] m")):
                if st > 1:
                    items.append((5, st, x, reference(x.strip("'"), VE[st - 2][1], meaning, rational)) if not x.startswith("[") else (5, st, x, None))
        src = program(dims, rational)
        p = run.write(f"{tag}.rs", HEADER + src)
        b = run.path(f"{tag}.bin")
        c = rustc(p, b, art)
        if not c.ok:
            run.transitions += 1
            run.violation(f"{tag} program", "does not compile: " + c.text(500))
            continue
        k = len(items) // JOBS + 1
        parts = [items[i : i + k] for i in range(0, len(items), k)]

        def work(ix):
            i, part = ix
            f = run.path(f"{tag}{i}.in")
            with open(f, "w", newline="") as fh:
                fh.write("\x01".join(f"{h}\x02{s}\x02{t}" for h, s, t, _ in part))
            r = run_bin(b, args=[f])
            if r.returncode:
                return None, r
            return r.stdout.split("\n")[:-1], r
        for part, (lines, r) in zip(parts, pmap(work, list(enumerate(parts)))):
            if lines is None:
                run.violation(f"{tag} crash", r.stderr[-500:])
                continue
            judge(run, tag, part, lines, dims, meaning, rational)
        run.n_states += len({(st, s) for _, st, s, _ in items})
        for it in items[:: len(items) // 6]:
            run.sample(f"{tag} {it[2]!r}: {'error' if it[3] is None else it[3]}"[:200])
    run.assumptions = ["strings outside the token language and longer than its bound are not covered; accepted spellings of numbers beyond decimal notation (infinity, nan) are not judged",
                       "values are compared up to rounding of the unit factors (2^-45 relative for f64, 2^-20 for f32)"]
    return run.finish()
