"""Reference semantics of unit systems: which are consistent and what they mean.

A system is a list of statements built by the constructors below; `text` gives the input of
the macro, `analyse` its problems (any problem means the system must be rejected) or the
meaning of every name."""
from fractions import Fraction as Fr

from .p07 import PREFIX

PREFIX_OF = {p[0]: p for p in PREFIX}
ALL_PREFIXES = [p[0] for p in PREFIX]


def unraw(name):
    return name[2:] if name.startswith("r#") else name


class Problem(Exception):
    pass


# --- expressions ------------------------------------------------------------------------
def num(text):
    return ("num", text, Fr(text.replace("_", "")))


def ref(name):
    return ("ref", name)


def power(atom, n):
    return ("pow", atom, n)


def mul(l, r):
    return ("*", l, r)


def div(l, r):
    return ("/", l, r)


def etext(e):
    t = e[0]
    if t in ("num", "ref"):
        return e[1]
    if t == "pow":
        n = e[2]
        return etext(e[1]) + "^" + (f"({n.numerator}/{n.denominator})" if isinstance(n, Fr) and n.denominator != 1 else str(int(n)))
    r = etext(e[2])
    if e[2][0] in "*/":
        r = f"({r})"
    return f"{etext(e[1])} {t} {r}"


def refs(e):
    t = e[0]
    if t == "num":
        return []
    if t == "ref":
        return [e[1]]
    if t == "pow":
        return refs(e[1])
    return refs(e[1]) + refs(e[2])


def nums(e):
    t = e[0]
    if t == "num":
        return [e[2]]
    if t == "ref":
        return []
    if t == "pow":
        return nums(e[1])
    return nums(e[1]) + nums(e[2])


def evaluate(e, env, n):
    """(factor, dimension vector)"""
    t = e[0]
    if t == "num":
        return e[2], (Fr(0),) * n
    if t == "ref":
        return env[e[1]]
    if t == "pow":
        f, v = evaluate(e[1], env, n)
        k = e[2]
        kf = Fr(k)
        if kf.denominator == 1:
            g = f ** int(k) if f else Fr(0)
        else:
            g = Fr(float(f) ** float(k))
        return g, tuple(x * kf for x in v)
    (f, v), (g, w) = evaluate(e[1], env, n), evaluate(e[2], env, n)
    if t == "*":
        return f * g, tuple(a + b for a, b in zip(v, w))
    return f / g, tuple(a - b for a, b in zip(v, w))


# --- statements -------------------------------------------------------------------------
class St:
    def __init__(self, kind, name, rhs=None, ann=None, base=None, symbol=None, aliases=(), prefixes=(), attrs=None):
        self.kind, self.name, self.rhs, self.ann, self.base = kind, name, rhs, ann, base
        self.symbol, self.aliases, self.prefixes, self.attrs = symbol, tuple(aliases), tuple(prefixes), attrs

    def text(self):
        if self.kind in ("quantity_type", "dimension_type"):
            return f"{self.kind} {self.name};"
        a = ""
        if self.kind == "unit":
            if self.attrs is not None:
                a = " ".join(f"#[{x}]" for x in self.attrs) + " "
            else:
                if self.base:
                    a += f"#[base({self.base})] "
                if self.symbol:
                    a += f"#[symbol({self.symbol})] "
                if self.prefixes == tuple(ALL_PREFIXES):
                    a += "#[metric_prefixes] "
                elif self.prefixes:
                    a += f"#[prefix({', '.join(self.prefixes)})] "
                if self.aliases:
                    a += f"#[alias({', '.join(self.aliases)})] "
        return a + f"{self.kind} {self.name}" + (f": {self.ann}" if self.ann else "") + (f" = {etext(self.rhs)}" if self.rhs else "") + ";"


def D(name, rhs=None):
    return St("dimension", name, rhs)


def U(name, rhs=None, **k):
    return St("unit", name, rhs, **k)


def C(name, rhs, ann=None):
    return St("constant", name, rhs, ann)


QT, DT = St("quantity_type", "Quantity"), St("dimension_type", "Dimension")
AB = [D("A"), D("B"), U("ua", base="A", symbol="ua"), U("ub", base="B", symbol="ub")]


def text(system):
    return "diman::unit_system!( " + " ".join(s.text() for s in system) + " );"


def analyse(system):
    """(list of problems, meaning) -- meaning: base dimensions, name -> (kind, factor, vector),
    symbols -> unit name"""
    problems = []
    for k in ("quantity_type", "dimension_type"):
        n = sum(s.kind == k for s in system)
        if n != 1:
            problems.append(f"{n} {k} statements")
    bases = [s.name for s in system if s.kind == "dimension" and s.rhs is None]
    n = len(bases)
    # expansion of prefixes and aliases
    entries = []  # (kind, name, rhs or None, ann, base, symbol)
    baseunits = {}
    for s in system:
        if s.kind in ("quantity_type", "dimension_type"):
            continue
        if s.kind != "unit":
            entries.append((s.kind, s.name, s.rhs, s.ann, None, None))
            if s.kind == "dimension" and s.rhs and any(x != 1 for x in nums(s.rhs)):
                problems.append(f"factor in dimension {s.name}")
            continue
        if s.base and s.rhs:
            problems.append(f"base unit {s.name} with an expression")
        if not s.base and not s.rhs:
            problems.append(f"unit {s.name} with neither base dimension nor expression")
        if s.base:
            if s.base not in bases:
                problems.append(f"base unit {s.name} of {s.base}, which is no base dimension")
            elif s.base in baseunits:
                problems.append(f"second base unit {s.name} for {s.base}")
            baseunits.setdefault(s.base, s.name)
            if not s.symbol:
                problems.append(f"base unit {s.name} without symbol")
        for p in (None,) + s.prefixes:
            pre = PREFIX_OF[p] if p else ("", "", 0)
            for a in (None,) + s.aliases:
                # a raw identifier denotes the name without its prefix r#
                nm = pre[0] + unraw(a or s.name) if p else a or s.name
                sym = pre[1] + unraw(s.symbol) if s.symbol and a is None else None
                if p is None and a is None:
                    entries.append(("unit", nm, s.rhs, s.ann, s.base, sym))
                else:
                    entries.append(("unit", nm, mul(("num", "", Fr(10) ** pre[2]), ref(s.name)), s.ann, None, sym))
    names = {}
    for e in entries:
        if e[1] in names:
            problems.append(f"{e[1]} defined twice")
        names.setdefault(e[1], e)
    seen = {}
    for e in entries:
        if e[5]:
            if e[5] in seen:
                problems.append(f"symbol {e[5]} of {seen[e[5]]} and {e[1]}")
            seen.setdefault(e[5], e[1])
    for kind, nm, rhs, ann, base, sym in entries:
        for r in refs(rhs) if rhs else ([base] if base else []):
            if r not in names:
                problems.append(f"undefined {r}")
            elif not base:
                other = names[r][0]
                if (kind == "dimension") != (other == "dimension"):
                    problems.append(f"{kind} {nm} refers to {other} {r}")
        if ann is not None and kind != "dimension":
            if ann not in names:
                problems.append(f"undefined {ann}")
            elif names[ann][0] != "dimension":
                problems.append(f"annotation {ann} is no dimension")
    if problems:
        return problems, None
    env = {}
    for i, b in enumerate(bases):
        env[b] = (Fr(1), tuple(Fr(int(i == k)) for k in range(n)))
    todo = [e for e in entries if e[1] not in env]
    while todo:
        rest = []
        for e in todo:
            kind, nm, rhs, ann, base, sym = e
            if base:
                env[nm] = env[base]
            elif all(r in env for r in refs(rhs)):
                env[nm] = evaluate(rhs, env, n)
            else:
                rest.append(e)
        if len(rest) == len(todo):
            return [f"cycle through {', '.join(e[1] for e in rest)}"], None
        todo = rest
    for kind, nm, rhs, ann, base, sym in entries:
        if ann is not None and kind != "dimension" and env[ann][1] != env[nm][1]:
            problems.append(f"{nm}: {ann} violated")
    if problems:
        return problems, None
    return [], dict(bases=bases, names={e[1]: (e[0],) + env[e[1]] for e in entries}, symbols=seen, baseunits=baseunits)
