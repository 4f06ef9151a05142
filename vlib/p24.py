"""P24: the text of a unit system is read completely and by its grammar.

All token strings in the neighbourhood of well-formed unit systems (every deletion, insertion,
replacement, exchange and grouping of tokens) and all token strings up to a length as
definitions, exponents and attributes are expanded by the real macro.  The verdict is compared
with a recursive-descent reference parser followed by the reference semantics; the meaning of
what is accepted is compared as well."""
import itertools
import re

from .core import *
from .p07 import close
from .p11 import verdicts
from .p12 import decide_groups, module
from .usys import *

KEYWORDS = set("_ abstract as async await become box break const continue crate do dyn else enum extern false final fn for if impl in let loop macro match mod move mut override priv pub ref return Self self static struct super trait true try type typeof unsafe unsized use virtual where while yield".split())
OPEN = {"(": ")", "[": "]", "{": "}"}


class Reject(Exception):
    pass


class Unsure(Exception):
    """the property does not say"""


def is_ident(t):
    return (t[0].isalpha() or t[0] == "_") and t not in KEYWORDS


def is_number(t):
    return t[0].isdigit()


def balanced(ts):
    st = []
    for t in ts:
        if t in OPEN:
            st.append(OPEN[t])
        elif t in ")]}":
            if not st or st.pop() != t:
                return False
    return not st


class Parser:
    """Reads a list of tokens between two positions; groups are matched beforehand."""

    def __init__(self, ts, rational):
        self.ts, self.i, self.end, self.rational = ts, 0, len(ts), rational
        self.close, st = {}, []
        for k, t in enumerate(ts):
            if t in OPEN:
                st.append(k)
            elif t in ")]}":
                self.close[st.pop()] = k
        self.unsure = False

    def peek(self):
        return self.ts[self.i] if self.i < self.end else None

    def take(self, t=None):
        x = self.peek()
        if x is None or (t is not None and x != t):
            raise Reject(f"{x} instead of {t}")
        self.i += 1
        return x

    def ident(self):
        x = self.take()
        if not is_ident(x):
            raise Reject(f"{x} is no name")
        return x

    def within(self, f):
        """f applied to the contents of the group that starts here; all of it must be read"""
        k = self.i
        e, self.i, self.end = self.end, k + 1, self.close[k]
        r = f()
        if self.i != self.end:
            raise Reject("something left in a group")
        self.i, self.end = self.close[k] + 1, e
        return r

    def number(self):
        sign = ""
        if self.peek() == "-":
            self.take()
            sign = "-"
        x = self.take()
        if not is_number(x):
            raise Reject(f"{x} is no number")
        m = re.fullmatch(r"(0x[0-9A-Fa-f_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(?:\.[0-9_]*)?(?:[eE][+-]?[0-9_]+)?)(\w*)", x)
        if m.group(2):
            if m.group(2) in ("f32", "f64") or re.fullmatch("[iu](8|16|32|64|128|size)", m.group(2)):
                raise Unsure
            raise Reject(f"{x} is a number with the suffix {m.group(2)}")
        x = m.group(1).replace("_", "")
        return sign + (str(int(x, 0)) if x[:2] in ("0x", "0b", "0o") else x)

    def int(self):
        x = self.number()
        if not x.lstrip("-").isdigit():
            raise Reject(f"{x} is no integer")
        return int(x)

    def exponent(self):
        if self.rational and self.peek() == "(":
            def frac():
                n = self.int()
                self.take("/")
                d = self.int()
                if d == 0:
                    raise Reject("zero denominator")
                return Fr(n, d)
            return self.within(frac)
        return self.int()

    def factor(self):
        t = self.peek()
        if t == "(":
            return self.within(self.expr)
        v = ref(self.ident()) if t and is_ident(t) else num(self.number())
        if self.peek() == "^":
            self.take()
            return power(v, self.exponent())
        return v

    def expr(self):
        l = self.factor()
        while self.peek() not in (None, ";"):
            t = self.peek()
            if t in "*/":
                self.take()
            elif not is_ident(t):
                raise Reject(f"{t} is no operator")
            r = self.factor()
            l = div(l, r) if t == "/" else mul(l, r)
        return l

    def names(self):
        out = []
        while self.peek() is not None:
            out.append(self.ident())
            if self.peek() is not None:
                self.take(",")
        return out

    def prefixes(self):
        out = self.names()
        for p in out:
            if p not in PREFIX_OF:
                raise Reject(f"{p} is no prefix")
        return out

    def attribute(self):
        n = self.take()
        if n not in ("base", "symbol", "alias", "prefix", "metric_prefixes"):
            raise Reject(f"unknown attribute {n}")
        if self.peek() != "(":
            if n != "metric_prefixes":
                raise Reject("arguments are missing")
            return n, []
        if n in ("base", "symbol"):
            return n, self.within(self.ident)
        if n == "alias":
            return n, self.within(self.names)
        if n == "prefix":
            return n, self.within(self.prefixes)

        def skip():
            if self.peek() is None:
                return []
            self.take("skip")
            self.take(":")
            return self.prefixes()
        return n, self.within(skip)

    def entry(self):
        attrs = []
        while self.peek() == "#":
            self.take()
            if self.peek() != "[":
                raise Reject("no attribute")
            attrs.append(self.within(self.attribute))
        k = self.take()
        if k in ("quantity_type", "dimension_type"):
            s = St(k, self.ident())
        elif k == "dimension":
            s = St(k, self.ident())
            if self.peek() == "=":
                self.take()
                s.rhs = self.expr()
        elif k in ("unit", "constant"):
            s = St(k, self.ident())
            if self.peek() == ":":
                self.take()
                s.ann = self.ident()
            if k == "constant" or self.peek() == "=":
                self.take("=")
                s.rhs = self.expr()
        else:
            raise Reject(f"no definition starts with {k}")
        if attrs and k != "unit":
            self.unsure = True
        if k == "unit":
            by = lambda n: [v for m, v in attrs if m == n]
            if len(by("base")) > 1 or len(by("symbol")) > 1 or len(by("metric_prefixes")) > 1:
                raise Reject("attribute given twice")
            s.base = by("base")[0] if by("base") else None
            s.symbol = by("symbol")[0] if by("symbol") else None
            s.aliases = tuple(x for v in by("alias") for x in v)
            s.prefixes = tuple(p for v in by("metric_prefixes") for p in ALL_PREFIXES if p not in v) + tuple(p for v in by("prefix") for p in v)
        return s

    def system(self):
        out = []
        while self.peek() is not None:
            out.append(self.entry())
            if self.peek() is not None:
                self.take(";")
        return out


def judge(ts, rational=False):
    """('accept', meaning, system) / ('reject', why, None) / ('unsure', None, None)"""
    p = Parser(ts, rational)
    try:
        s = p.system()
    except Reject as e:
        return "reject", str(e), None
    except Unsure:
        return "unsure", None, None
    try:
        problems, meaning = analyse(s)
    except (ZeroDivisionError, OverflowError):
        return "unsure", None, None
    if problems:
        return "reject", problems[0], None
    types = [x.name for x in s if x.kind.endswith("_type")]
    taken = {n for n, m in meaning["names"].items() if m[0] == "dimension"}
    if p.unsure or len(set(types)) != 2 or set(types) & taken or not all(n[0].isupper() for n in types):
        return "unsure", None, None
    return "accept", meaning, s


def tokens(text_):
    out = []
    for m in re.finditer(r"0[xbo]\w+|\d[\d_]*(\.(?![A-Za-z_.])[\d_]*)?([eE][+-]?[\d_]+)?\w*|[A-Za-z_]\w*|\"[^\"]*\"|'\w+|\S", text_):
        out.append(m.group(0))
    return out


BASES = [
    "quantity_type Q; dimension_type Dd; dimension A; dimension B; dimension C = A / B ^ 2; #[base(A)] #[symbol(ua)] #[prefix(kilo, milli)] #[alias(va)] unit ua; #[base(B)] #[symbol(ub)] unit ub: B; "
    "#[metric_prefixes(skip: kilo)] #[symbol(x)] unit x: C = 2.0 * ua / (ub * ub); constant K: C = 3 x;",
    "constant K = 2 * u / v ^ -1; #[alias(w)] unit v = u ^ 2; dimension_type Dim; #[symbol(u)] #[base(L)] #[metric_prefixes] unit u; dimension L; quantity_type Qu; dimension E = 1 * L ^ -2",
]
EDITS = ["A", "ua", "x", "unit", "constant", "dimension", "quantity_type", "dimension_type", "base", "symbol", "alias", "prefix", "metric_prefixes", "skip", "kilo", "1", "2", "2.5", "-", "+", "*", "/", "^", ":", "=", ";", ",", "#", ".",
         '"s"', "true", "fn", "_", "self", "'a", "&", "!", "$", "%", "=>", "0"]


SHORT = "#[base(A)] #[symbol(v)] #[alias(w)] unit v: A; unit x = 2 * v / ub ^ 2;"
FEW = ["ub", "A", "unit", "2", "-", "*", "^", ":", "=", ";", ",", "#"]


def neighbours(ts, deep, EDITS=EDITS):
    """every token string one edit away"""
    n = len(ts)
    yield "unchanged", ts
    for i in range(n):
        yield f"delete {i} {ts[i]}", ts[:i] + ts[i + 1:]
        yield f"double {i} {ts[i]}", ts[: i + 1] + ts[i:]
        if i + 1 < n:
            yield f"exchange {i} {ts[i]} {ts[i + 1]}", ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:]
        for e in EDITS:
            if e != "$":
                yield f"replace {i} {ts[i]} by {e}", ts[:i] + [e] + ts[i + 1:]
    for i in range(n + 1):
        for e in EDITS:
            if e != "$":
                yield f"insert {i} {e}", ts[:i] + [e] + ts[i:]
        for o, c in OPEN.items():
            for j in range(i, min(n, i + (6 if deep else 4)) + 1):
                yield f"{o} around {i}..{j}", ts[:i] + [o] + ts[i:j] + [c] + ts[j:]
    # a group opened or removed
    st = []
    for i, t in enumerate(ts):
        if t in OPEN:
            st.append(i)
        elif t in ")]}":
            k = st.pop()
            yield f"ungroup {k}..{i}", ts[:k] + ts[k + 1: i] + ts[i + 1:]
            yield f"delete group {k}..{i}", ts[:k] + ts[i + 1:]
            for o, c in OPEN.items():
                yield f"regroup {k}..{i} {o}", ts[:k] + [o] + ts[k + 1: i] + [c] + ts[i + 1:]
            for j in range(k, i):
                yield f"close {k} after {j} instead of {i}", ts[: j + 1] + [t] + ts[j + 1: i] + ts[i + 1:]
    # statements left out, doubled
    starts = [0] + [i + 1 for i, t in enumerate(ts) if t == ";"]
    for a, b in itertools.combinations(starts + [n], 2):
        yield f"without {a}..{b}", ts[:a] + ts[b:]
        yield f"twice {a}..{b}", ts[:b] + [";"] * (ts[b - 1: b] != [";"]) + ts[a:]
        yield f"reordered {a}..{b}", ts[b:] + [";"] * (ts[-1:] != [";"]) + ts[a:b] + [";"] * (ts[b - 1: b] != [";"]) + ts[:a]


FIX = tokens("quantity_type Q; dimension_type Dd; dimension A; dimension B; #[base(A)] #[symbol(ua)] unit ua; #[base(B)] #[symbol(ub)] unit ub; constant k = 3.5; ")


def strings(alpha, n):
    for k in range(n + 1):
        for s in itertools.product(alpha, repeat=k):
            s = list(s)
            if balanced(s):
                yield s


def family(deep, rational):
    """(key, tokens)"""
    d = 1 if deep else 0
    if rational:
        for s in strings(["(", ")", "/", "1", "2", "0", "-"], 6 + d):
            yield "exponent " + " ".join(s), FIX + tokens("unit x = ua ^") + s
        for s in strings(["(", ")", "/", "2", "ua"], 5 + d):
            yield "exponent within " + " ".join(s), FIX + tokens("unit x = 2 * ua ^") + s + tokens("; unit y = x")
        return
    for i, b in enumerate(BASES):
        ts = tokens(b)
        for key, t in neighbours(ts, deep):
            if balanced(t):
                yield f"text {i}, {key}", t
    for s in strings(["2", "ua", "*", "/", "^", "(", ")", "-"], 5 + d):
        yield "unit x = " + " ".join(s), FIX + tokens("unit x =") + s + [";"]
    ts = tokens(SHORT)
    for key, t in neighbours(ts, False, FEW):
        if deep:
            for key2, t2 in neighbours(t, False, FEW) if balanced(t) else ():
                if balanced(t2):
                    yield f"text, {key}, {key2}", FIX + t2
        elif balanced(t):
            yield f"text, {key}", FIX + t
    # the texts as they are written: spaces separate, or do not
    for k in range(1, 6 + d):
        for s in itertools.product(["2", "ua", "^", "-", "*", "/", "(", ")", " "], repeat=k):
            w = "".join(s)
            if k > 1 and w == w.strip() and not any(c in w for c in ("//", "/*", "*/", "  ", " ^", " *", " /", "^ ", "* ", "/ ")) and balanced(list(w.replace("ua", "x"))):
                yield f"written unit x={w}", FIX + tokens("unit x=" + w + ";"), f"unit x={w};"
    numbers = ["2.0", "2.", "02", "2_0", "2e0", "2e1", "2E1", "2e-1", "2e+1", "2.5e1", "2.5e-1", "0x10", "0b11", "0o17", "1_000.5", "1e3", "2ua", "2.0ua", "2m", "2_ua", "0x10ua", "2s", "1A", "1.0A", "2u", "2f", "2B", "2_", "1_", "1.0", "1.", "1e0", "10e-1", "0x1", "2km", "2kiloua"]
    for n in numbers:
        for pat in ("unit x = #;", "unit x = # * ua;", "unit x = # ua;", "unit x = ua / #;", "unit x = ua ^ #;", "unit x = ua ^ - #;", "unit x = - #;", "unit x = # ^ 2;", "unit x = (#) ua;", "constant x = ua #;", "constant x: A = 3 ua #;", "dimension X = #;", "dimension X = # / A;", "dimension X = A ^ #;", "dimension X = A ^ - #;", "dimension X = A * #;"):
            w = pat.replace("#", n)
            yield "written " + w, FIX + tokens(w), w
    for s in strings(["2", "ub", "k", "A", "*", "/", "^", "(", ")", "-", "2.5", ":", "="], 3 + d):
        yield "constant x " + " ".join(s), FIX + tokens("constant x") + s
        yield "unit x " + " ".join(s) + "; ...", FIX + tokens("unit x") + s + tokens("; unit y = 2 * ub;")
    for s in strings(["1", "A", "B", "*", "/", "^", "(", ")", "2", "-", "="], 4 + d):
        yield "dimension X " + " ".join(s), tokens("dimension X") + s + [";"] + FIX
    al = ["base", "symbol", "alias", "prefix", "metric_prefixes", "skip", "kilo", "A", ":", ",", "(", ")"]
    for s in strings(al, 4 + d):
        yield "#[" + " ".join(s) + "]", FIX + ["#", "["] + s + ["]"] + tokens("unit x = 2 * ua;")
    for s in strings(["skip", "kilo", "mega", ":", ","], 5 + d):
        yield "#[metric_prefixes(" + " ".join(s) + ")]", FIX + tokens("#[metric_prefixes(") + s + tokens(")] unit x = 2 * ua;")
    for s in strings(["kilo", "y", ",", ";"], 5 + d):
        yield "#[alias(" + " ".join(s) + ")]", FIX + tokens("#[alias(") + s + tokens(")] unit x = 2 * ua;")
        yield "#[prefix(" + " ".join(s) + ")]", FIX + tokens("#[prefix(") + s + tokens(")] unit x = 2 * ua;")


def call(ts):
    return "diman::unit_system!( " + " ".join(ts) + " );"


def main():
    run = Run("P24")
    for cfg, rational in (("f64", False), ("rational", True)):
        art = build(cfg, fast=True)
        uniq = {}
        for key, ts, *written in family(run.thorough, rational):
            uniq.setdefault(f"diman::unit_system!( {' '.join(FIX)} {written[0]} );" if written else call(ts), (key, ts))
        items = [(k, ts, t) + judge(ts, rational) for t, (k, ts) in uniq.items()]
        items = [it for it in items if it[3] != "unsure"]
        res = verdicts(run, f"v{rational}", [it[2] for it in items], art, per=300)
        mods = []
        for it, (acc, why) in zip(items, res):
            key, ts, t, verdict, what, system = it
            run.transitions += 1
            run.validated += 1
            run.states.add((cfg, verdict, what if verdict == "reject" else None))
            run.outcome(f"{cfg}: {verdict}")
            if "panicked" in why:
                run.violation(key, f"the macro panics: {why}", dict(system=t))
            elif acc and verdict == "reject":
                run.violation(key, f"accepted, although {what}", dict(system=t))
            elif not acc and verdict == "accept":
                run.violation(key, f"well-formed and consistent, but rejected: {why}", dict(system=t))
            elif acc and not rational:
                mods.append((key, t, system, what))
        # the meaning of what was accepted
        seen, todo = set(), []
        for key, t, system, meaning in mods:
            sig = repr((sorted((n, k, f, v) for n, (k, f, v) in meaning["names"].items()), key.split()[0] == "text"))
            if not key.startswith("text"):
                sig = " ".join(key.split())
            if sig in seen:
                continue
            seen.add(sig)
            todo.append((key, t, system, meaning))
        units = [x for x in todo if x[0].startswith(("unit", "constant", "dimension", "written"))]
        whole = [x for x in todo if not x[0].startswith(("unit", "constant", "dimension", "written"))]
        out = []
        for key, t, system, meaning in whole[:: 1 if run.thorough else 3]:
            q, d = [[s.name for s in system if s.kind == k][0] for k in ("quantity_type", "dimension_type")]
            m, e = module(system, meaning, key.replace('"', "'"), "MOD", q, d)
            # the text as it was given, not as the reference would write it
            assert text(system) in m
            out.append((key, m.replace(text(system), t), e))
        decide_groups(run, "w", art, out, 12)
        run.outcome("meaning compared", len(out))
        together(run, art, units)
    for it in items[:: len(items) // 10]:
        run.sample(f"{it[0]} -> {it[3]}")
    run.assumptions = ["spellings of numbers other than decimal, attributes on statements other than units and types with the name of a dimension are not judged; texts outside the neighbourhoods are not covered"]
    return run.finish()


def together(run, art, items, per=250):
    """Definitions of `x` that only differ in it: many in one system."""
    if not items:
        return
    groups = [items[i : i + per] for i in range(0, len(items), per)]

    def work(ix):
        g, its = ix
        defs, uses, want = [], [], {}
        for i, (key, t, system, meaning) in enumerate(its):
            st = [s for s in system if s.name in ("x", "X")][0]
            kind, f, v = meaning["names"][st.name]
            body = re.split(rf"{st.kind} {st.name}\b", t, maxsplit=1)[1]
            body = body[: body.index(";")]
            if body.count(")") > body.count("("):
                body = body[: body.rindex(")")]
            defs.append(f"{st.kind} {st.name}{i} {body};")
            vec = ", ".join(f"{b.lower()}: {int(x)}" for b, x in zip(meaning["bases"], v))
            if kind == "dimension":
                if st.rhs is None:
                    defs.pop()
                    continue
                uses.append(f'println!("{i}\\t{{:?}} {{}}", 1.0, dim(&dimensions::X{i}::<f64>::new_unchecked(1.0)));')
            else:
                uses.append(f'println!("{i}\\t{{:?}} {{}}", (1.0 * {kind}s::x{i}).value_unchecked(), dim(&(1.0 * {kind}s::x{i})));')
            names = {b: int(x) for b, x in zip(meaning["bases"], v)}
            want[str(i)] = (key, f, f"Dd {{ a: {names['A']}, b: {names['B']} }}")
        src = "mod m { diman::unit_system!( " + " ".join(FIX) + " " + " ".join(defs) + " ); pub fn dim<const d: Dd>(_: &Q<f64, d>) -> String { format!(\"{:?}\", d) } pub fn main() { " + "\n".join(uses) + " } } fn main() { m::main() }"
        return want, run_program(run, f"t{g}", src, art, soft=True)

    for want, (kind, r) in pmap(work, list(enumerate(groups))):
        if kind != "ran" or r.returncode:
            run.violation("together", f"definitions that are accepted alone are not accepted together: {r.text(500) if kind == 'compile' else r.stderr[-300:]}")
            continue
        got = dict(l.split("\t", 1) for l in r.stdout.splitlines() if "\t" in l)
        for i, (key, f, d) in want.items():
            if f and not Fr(1, 10**300) < abs(f) < 10**300:
                continue
            run.transitions += 1
            run.validated += 1
            run.outcome("meaning compared")
            a, b = got.get(i, " ").split(" ", 1)
            if not a or not close(a, f, 44) or b != d:
                run.violation(key, f"means {float(f)} {d}, observed {got.get(i)}")
