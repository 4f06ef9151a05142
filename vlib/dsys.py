"""Unit systems and dimension boxes shared by the checks on printing and serialisation."""
import itertools

from .core import *
from .usys import *


def pool():
    """units that may stand next to the base units; the first four are used in all
    combinations, in the thorough tier all are"""
    return [
        [U("nw", mul(ref("ua"), ref("ub")), symbol="N")],  # factor one, derived dimension
        [U("two", mul(num("2"), mul(ref("ua"), ref("ub"))), symbol="T"), U("zwo", mul(num("2"), ref("ua")), symbol="Z")],  # not factor one
        [U("ra", num("1"), symbol="rad"), U("pct", num("0.01"), symbol="pct")],  # dimensionless
        [U("aaa", ref("ua"), symbol="am"), U("zzz", ref("ub"), symbol="zs")],  # second names for the base units
        [U("hz", div(num("1"), ref("ub")), symbol="Hz"), U("noname", power(ref("ua"), 2))],  # without symbol
        [U("near", mul(num("1.0000000000000002"), ref("ua")), symbol="near"), U("nearr", mul(num("0.9999999999999999"), power(ref("ua"), 2)), symbol="nearr")],
        [U("thou", mul(num("0.001"), ref("kiloub")), symbol="th", prefixes=("kilo",)), U("k2", power(ref("kiloub"), 2), symbol="k2")],
        [U("neg", mul(num("-1"), ref("ua")), symbol="neg"), C("cc", power(ref("ua"), 2)), U("tiny", mul(num("1e-300"), ref("ub")), symbol="tiny")],
    ]


def base_of(prefixed):
    return [D("A"), D("B"), U("ua", base="A", symbol="m", aliases=("uas",)), U("ub", base="B", symbol="s", prefixes=("kilo", "milli"))]


def systems(deep):
    """(key, statements, base dimensions)"""
    P = pool()
    n = len(P) if deep else 4
    for sel in itertools.product((0, 1), repeat=n):
        extra = [u for i, s in enumerate(sel) if s for u in P[i]]
        yield "units " + "".join(map(str, sel)), base_of(True) + extra
    if not deep:
        for i in range(4, len(P)):
            yield f"units group {i}", base_of(True) + P[i]
            yield f"units without group {i}", base_of(True) + [u for j, g in enumerate(P) if j != i for u in g]
        yield "all units", base_of(True) + [u for g in P for u in g]
    # keywords as names and symbols
    yield "raw names", [D("A"), D("B"), U("r#try", base="A", symbol="r#in", prefixes=("kilo", "micro"), aliases=("r#fn", "r#type")), U("r#as", base="B", symbol="r#as"), U("r#ref", mul(ref("kilotry"), ref("r#as")), symbol="r#mut", prefixes=("milli",)), U("one", mul(ref("r#try"), ref("r#as")), symbol="r#for")]
    # base units after everything that refers to them, base symbols containing prefixes
    yield "kilogram", [U("gram", mul(num("0.001"), ref("kg")), symbol="g", prefixes=("milli", "mega")), U("kg", base="B", symbol="kg"), U("tonne", mul(num("1000"), ref("kg")), symbol="t"),
                       U("mm", mul(num("1000000"), ref("milligram")), symbol="mg2"), D("B"), D("A"), U("ua", base="A", symbol="m")]


def one_base(n):
    """systems with n base dimensions, each with a unit"""
    names = ["Length", "Time", "MassX", "T", "CurrentFlow", "AmountOfSubstance", "J"][:n]
    return [D(b) for b in names] + [U(f"u{i}", base=b, symbol=f"s{i}") for i, b in enumerate(names)]


def box(n, lo, hi):
    return list(itertools.product(range(lo, hi + 1), repeat=n))


def sparse(n, r, k):
    """vectors with at most k non-zero exponents between -r and r"""
    out = {(0,) * n}
    for pos in itertools.combinations(range(n), k):
        for v in itertools.product(range(-r, r + 1), repeat=k):
            x = [0] * n
            for p, e in zip(pos, v):
                x[p] = e
            out.add(tuple(x))
    return sorted(out)


def dim_defs(bases, vecs):
    """dimension definitions X0, X1, ... with these exponents"""
    out = []
    for i, v in enumerate(vecs):
        e = None
        for b, x in zip(bases, v):
            if x:
                t = power(ref(b), x) if x != 1 else ref(b)
                e = t if e is None else mul(e, t)
        out.append(D(f"X{i}", e if e is not None else num("1")))
    return out


def eval_suffix(suffix, meaning):
    """(factor, dimension vector) of printed unit text; raises ValueError"""
    f, v = Fr(1), [Fr(0)] * len(meaning["bases"])
    for tok in suffix.split():
        sym, _, ex = tok.partition("^")
        if sym not in meaning["symbols"]:
            raise ValueError(f"unknown symbol {sym}")
        k = Fr(ex.strip("()")) if ex else Fr(1)
        _, g, w = meaning["names"][meaning["symbols"][sym]]
        if k.denominator == 1:
            f *= g ** int(k)
        elif g != 1:
            raise ValueError(f"root of {g}")
        v = [a + b * k for a, b in zip(v, w)]
    return f, tuple(v)
