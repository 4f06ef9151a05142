"""P12: consistent unit systems are accepted and usable.

The consistent members of the family of P11 are expanded by the real macro; a part of them
(all in the thorough tier), plus families of type names, numbers of base dimensions and
several systems per crate, is compiled completely, used, and the meaning of every name
compared with the reference semantics."""
import itertools

from .core import *
from .p01 import snake
from .p07 import close
from .p11 import family, verdicts
from .usys import *

HELP = """
pub fn dim<S, const D: {DT}>(_: &{QT}<S, D>) -> String {{ format!("{{:?}}", D) }}
pub fn obs<const D: {DT}>(k: &str, a: {QT}<f64, D>, b: {QT}<f64, D>) {{ println!("{{}}\\t{{:?}} {{:?}} {{}}", k, a.value_unchecked(), b.value_unchecked(), dim(&(a + b))); }}
"""


def dim_text(dt, bases, v):
    return f"{dt} {{ " + ", ".join(f"{snake(b)}: {int(x)}" for b, x in zip(bases, v)) + " }" if bases else dt


def use_program(meaning, tag, qt="Quantity", dt="Dimension"):
    """Statements that use every name of the system; returns (code, expectations)."""
    code, expect = [], {}
    lit = lambda v: "{" + dt + "{" + ", ".join(f"{snake(b)}: {int(x)}" for b, x in zip(meaning["bases"], v)) + "}}"
    for n, (kind, f, v) in meaning["names"].items():
        k = f"{tag}/{n}"
        if kind == "dimension":
            code.append(f'obs("{k}", {{ let q: dimensions::{n}<f64> = {qt}::new_unchecked(1.0); q }}, {qt}::new_unchecked(2.0));')
            expect[k] = (Fr(1), Fr(2), dim_text(dt, meaning["bases"], v))
        else:
            m = f"{kind}s::{n}"
            if f == 0:
                continue
            code.append(f'obs("{k}", 1.0f64 * {m}, {m} * 2.0f64);')
            expect[k] = (f, 2 * f, dim_text(dt, meaning["bases"], v))
            code.append(f'println!("{k}/in\\t{{:?}} {{:?}} -", (3.0f64 * {m}).value_in({m}), {{ let q: {qt}<f64, {lit(v)}> = {m}.new(4.0f64); q.value_in({m}) }});')
            expect[k + "/in"] = (Fr(3), Fr(4), "-")
    return code, expect


def module(system, meaning, tag, name, qt="Quantity", dt="Dimension", extra=""):
    code, expect = use_program(meaning, tag, qt, dt)
    return (f"mod {name} {{ {text(system)}\n" + HELP.format(QT=qt, DT=dt) + extra + "pub fn main() { " + " ".join(code) + " } }\n").replace("\n", " ") + "\n", expect


def custom(qt, dt, stmts):
    return [St("quantity_type", qt), St("dimension_type", dt)] + stmts


BASES = ["Length", "Time", "AmountOfSubstance", "T", "MyX2", "E", "LuminousIntensity", "Type"]


def shapes(deep):
    """(key, system, quantity type, dimension type)"""
    names = ["Quantity", "Q", "MyQuantity", "Dim", "Phys", "SiQuantity", "X", "QuantityF", "Length_", "Dimension"]
    dts = ["Dimension", "D0", "Dims", "MyDimension", "QuantityDim", "Q", "Quantity", "Exponents"]
    st = AB + [U("half", mul(num("0.5"), ref("ua"))), C("k", mul(num("3"), ref("ub")), ann="B"), D("V", div(ref("A"), ref("B")))]
    for q, d in itertools.product(names, dts):
        if q != d and (deep or q == "Quantity" or d == "Dimension" or (names.index(q) + dts.index(d)) % 4 == 0):
            yield f"types {q} {d}", custom(q, d, st), q, d
    yield "types swapped", custom("Dimension", "Quantity", st), "Dimension", "Quantity"
    for n in range(0, 9):
        for with_units in ("all", "none", "some"):
            for derived in (False, True):
                s = [D(b) for b in BASES[:n]]
                s += [U(f"u{i}", base=b, symbol=f"s{i}") for i, b in enumerate(BASES[:n]) if with_units == "all" or (with_units == "some" and i % 2)]
                if derived:
                    s += [D(f"V{i}", div(ref(BASES[i]), power(ref(BASES[(i + 1) % n]), 2))) for i in range(n)] + [U("pure", num("7")), C("c", num("2.5")), D("One", num("1"))]
                    if with_units == "all" and n:
                        s += [U("big", mul(num("1e10"), power(ref("u0"), 3)), ann=None), C("kc", div(num("2"), ref(f"u{n - 1}")))]
                yield f"{n} base dimensions, units {with_units}, derived {derived}", custom("Quantity", "Dimension", s), "Quantity", "Dimension"
    for b in ("Type", "Loop", "Crate", "Ref", "Match", "Async", "Dyn", "In", "Yield", "Move"):
        yield f"base dimension named {b}", custom("Quantity", "Dimension", [D(b), D("A"), U("ut", base=b, symbol="ut"), U("ua", base="A", symbol="ua"), D("V", mul(ref(b), ref("A"))), U("x", mul(ref("ut"), ref("ua")), ann="V")]), "Quantity", "Dimension"
    for b in ("r#Type", "r#type", "r#in", "r#MyType", "r#async", "r#Length"):
        yield f"base dimension named {b}", custom("Quantity", "Dimension", [D(b), D("A"), U("ut", base=b, symbol="ut"), U("ua", base="A", symbol="ua"), D("V", mul(ref(b), ref("A"))), U("x", mul(ref("ut"), ref("ua")), ann="V"), D("r#Box", ref("V"))]), "Quantity", "Dimension"
    for n in ("r#try", "r#in", "r#as", "r#loop", "r#Self_", "r#abc", "r#dyn", "r#yield"):
        yield f"unit named {n}", custom("Quantity", "Dimension", [D("A"), D("B"), U(n, base="A", symbol=n, prefixes=("kilo", "atto"), aliases=("r#fn",)), U("ub", base="B", symbol="ub", aliases=("r#where",), prefixes=ALL_PREFIXES),
               U("r#ref", div(mul(num("2"), ref(n)), ref("kiloub")), symbol="r#mut"), C("r#const", mul(num("3"), ref(n)), ann="A"), U("x", mul(ref("kilo" + unraw(n)), ref("r#const")), aliases=("r#priv",))]), "Quantity", "Dimension"
    # names of letters of any script, without capital letters, of capital letters only, with underscores and digits
    for b, q, d in (("Länge", "Größe", "Maß"), ("ΔT", "Quantity", "Dimension"), ("長さ", "物理量", "次元"), ("lower", "quantity_", "dimension_"), ("lower_case", "Quantity", "dim"), ("HTTP", "QUANTITY", "DIMENSION"),
                    ("My_Type", "My_Quantity", "My_Dimension"), ("A1B2", "Q1", "D2"), ("Z_", "Q_", "D_"), ("_Y", "_Q", "_D"), ("Çé", "Quantity", "Dimension"), ("ΣΣ", "Σ", "Π")):
        yield f"letters {b} {q} {d}", custom(q, d, [D(b), D("A"), U("ellen", base=b, symbol="ä", prefixes=("kilo", "micro"), aliases=("mètre", "メートル")), U("ua", base="A", symbol="µ_1", prefixes=("milli",)), D(b + "Ω", mul(ref(b), power(ref("A"), -2))),
               U("größen", div(mul(num("2.5"), ref("kilomètre")), power(ref("milliua"), 2)), ann=b + "Ω", symbol="米"), C("Ñ", mul(num("3"), ref("microメートル")), ann=b)]), q, d
    # names that are used inside the generated code
    for n in ("x", "y", "s", "q", "f", "a", "d", "val", "value", "result", "unit", "other", "rhs", "self_", "r#type", "S", "D", "DL", "F", "FL", "Q", "N", "T", "len", "name", "v", "exponent", "num", "e", "serializer", "rng", "low", "high", "core", "std", "glam", "serde", "diman"):
        yield f"unit named {n}", custom("Quantity", "Dimension", AB + [U(n, mul(num("2"), ref("ua"))), C(n + "_c", mul(num("3"), ref(n)))]), "Quantity", "Dimension"
        if n[0].isupper():
            yield f"dimension named {n}", custom("Quantity", "Dimension", AB + [D(n, ref("A")), U("x", ref("ua"), ann=n)]), "Quantity", "Dimension"
            yield f"base dimension named {n}", custom("Quantity", "Dimension", AB + [D(n), U("x", base=n, symbol="x")]), "Quantity", "Dimension"


def sname(b):
    s = snake(b)
    return s + "_" if s in ("type", "loop", "crate", "ref", "match", "async", "dyn", "in", "yield", "move") else s


def compile_group(run, name, art, group):
    """group: [(key, module text, expectations)]; returns the observations per key or the
    compile error of the group's members."""
    src = "".join(m.replace("mod MOD ", f"mod m{i} ") for i, (_, m, _) in enumerate(group))
    src += "fn main() { " + " ".join(f"m{i}::main();" for i in range(len(group))) + " }\n"
    return run_program(run, name, src, art, soft=True)


def decide_groups(run, tag, art, mods, per):
    groups = [mods[i : i + per] for i in range(0, len(mods), per)]

    def work(ix):
        i, g = ix
        kind, r = compile_group(run, f"{tag}{i}", art, g)
        if kind == "ran" and r.returncode == 0:
            return [(m, ("ran", r.stdout)) for m in g]
        out = []
        for j, m in enumerate(g):
            kind, r = compile_group(run, f"{tag}{i}-{j}", art, [m])
            if kind == "ran" and r.returncode == 0:
                out.append((m, ("ran", r.stdout)))
            else:
                out.append((m, ("failed", r.text(300) if kind == "compile" else "crash: " + r.stderr[-300:])))
        if all(o[1][0] == "ran" for o in out):
            out[-1] = (g[-1], ("failed", "compiles alone but not next to other systems in one crate: " + (r.text(300) if kind == "compile" else "")))
        return out

    for res in pmap(work, list(enumerate(groups))):
        for (key, mod, expect), (kind, txt) in res:
            run.transitions += 1
            run.validated += 1
            if kind == "failed":
                run.outcome("does not compile")
                run.violation(key, f"consistent system does not compile or run: {txt}", dict(program=mod))
                continue
            run.outcome("compiled and used")
            got = dict(l.split("\t", 1) for l in txt.splitlines() if "\t" in l)
            for k, (a, b, d) in expect.items():
                run.transitions += 1
                run.validated += 1
                g = got.get(k, "").split(" ", 2)
                if len(g) != 3 or not close(g[0], a, 44) or not close(g[1], b, 44) or not dims_match(g[2], d):
                    run.violation(f"{key} {k.split('/', 1)[1]}", f"expected {float(a)} {float(b)} {d}, observed {got.get(k)}", dict(program=mod))


def dims_match(got, want):
    # a keyword as field name may be spelled in any way: compare the exponents in order
    num_of = lambda s: [x.split(":")[-1].strip(" }") for x in s.split("{")[-1].split(",")] if ":" in s else []
    return got == want or num_of(got) == num_of(want)


def main():
    run = Run("P12")
    fast = build("f64", fast=True)
    seen = set()
    good = []
    for fam, key, sys_, problems, meaning in family(run.thorough):
        if not problems and text(sys_) not in seen:
            seen.add(text(sys_))
            good.append((fam, key, sys_, meaning))
    shp = [(k, s, q, d) + analyse(s) for k, s, q, d in shapes(run.thorough)]
    for k, s, q, d, problems, _ in shp:
        assert not problems, (k, problems)
    # 1. every consistent system is accepted by the macro
    res = verdicts(run, "v", [text(g[2]) for g in good], fast)
    ok = []
    for g, (acc, why) in zip(good, res):
        run.transitions += 1
        run.validated += 1
        run.states.add((g[0], g[1]))
        run.outcome(f"{g[0]}: " + ("accepted" if acc else "rejected"))
        if not acc:
            run.violation(g[1], f"consistent system is rejected: {why}", dict(system=text(g[2])))
        else:
            ok.append(g)
    # 2. compiled completely and used
    step = 1 if run.thorough else 6
    mods = []
    for fam, key, sys_, meaning in ok[::step]:
        m, e = module(sys_, meaning, key.replace('"', "'"), "MOD")
        mods.append((key, m, e))
    decide_groups(run, "g", fast, mods, 12)
    mods = []
    for k, s, q, d, _, meaning in shp:
        if any(sname(b) != snake(b) for b in meaning["bases"]):
            meaning = dict(meaning, bases=list(meaning["bases"]))
        run.states.add(k)
        m, e = module(s, meaning, k, "MOD", q, d)
        if any(sname(b) != snake(b) for b in meaning["bases"]):
            # the field name is not writable: leave out the statements that spell it
            m = re.sub(r"println!\(\"[^\"]*/in[^;]*; q\.value_in\([^)]*\) \}\);", "", m)
            e = {x: y for x, y in e.items() if not x.endswith("/in")}
        mods.append((k, m, e))
    decide_groups(run, "h", fast, mods, 6)
    # 3. type names and vectors, serde, rand, mpi, hdf5 code together
    full = build("full")
    few = [x for x in shp if x[0] in ("types Q Dims", "types swapped", "types Phys Quantity", "2 base dimensions, units all, derived True", "8 base dimensions, units all, derived True", "0 base dimensions, units none, derived True", "3 base dimensions, units none, derived True",
                                      "types MyQuantity Dimension", "types Quantity MyDimension")]
    if run.thorough:
        few = shp
    mods = []
    for k, s, q, d, _, meaning in few:
        if any(sname(b) != snake(b) for b in meaning["bases"]):
            continue
        v = f"""pub fn vec() {{ let a = {q}::<glam::DVec3, {{{d}::none()}}>::new_unchecked(glam::DVec3::X); let l = a.length(); let p = {q}::<f32, {{{d}::none()}}>::new_unchecked(1.5);
 let s = serde_json::to_string(&p).unwrap(); let r: {q}<f32, {{{d}::none()}}> = serde_json::from_str(&s).unwrap(); assert!(r == p); }} """
        m, e = module(s, meaning, k, "MOD", q, d, extra=v)
        m = m.replace("pub fn main() {", "pub fn main() { vec();")
        mods.append(("all features: " + k, m, e))
    decide_groups(run, "i", full, mods, 2)
    for g in good[:: len(good) // 8]:
        run.sample(f"{g[1]}: accepted")
    for m in mods[:4]:
        run.sample(m[0])
    run.assumptions = ["systems outside the family are not covered; base dimensions whose names become equal in snake case, and type names equal to items of the macro (Unit, Magnitude, Exponent, RuntimeUnit) are excluded"]
    return run.finish()
