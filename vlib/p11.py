"""P11 (and the verdict half of P12): every system of a bounded family is expanded by the real
macro; its verdict is compared with the reference semantics of vlib/usys.py."""
import itertools
import re

from .core import *
from .usys import *


def ann_exprs(u):
    """(text of expression over atoms A, B, vector) for annotations; u maps A/B to names"""
    a, b = ref(u[0]), ref(u[1])
    one = num("1")
    return [a, b, mul(a, b), div(a, b), div(b, a), power(a, 2), power(a, -1), div(one, a), one, div(a, a), mul(a, div(b, b)), power(a, 0), mul(power(a, 2), power(b, -1)),
            div(power(b, 3), b), power(b, 2), div(mul(a, b), mul(b, a)), div(mul(a, b), b), mul(power(a, 1), power(b, 0)), div(one, mul(a, b)), power(b, -2)]


def fam_annotations(deep):
    """every annotation by every expression, as unit, constant, base unit, prefixed unit"""
    ds = ann_exprs(("A", "B"))
    us = ann_exprs(("ua", "ub"))
    kinds = ("unit", "constant", "chain") if deep else ("unit", "constant")
    for i, d in enumerate(ds):
        for j, u in enumerate(us):
            for k in kinds:
                if not deep and k == "constant" and (i + j) % 3:
                    continue
                if k == "unit":
                    x = [U("x", mul(num("3"), u), ann="X")]
                elif k == "constant":
                    x = [C("x", mul(u, num("2.5")), ann="X")]
                else:
                    x = [U("w", u), C("k", ref("w")), U("x", ref("k"), ann="X", prefixes=("kilo",), aliases=("xs",))]
                yield f"annotation {k}: {etext(u)} as {etext(d)}", AB + [D("X", d)] + x
    for d in ds:
        yield f"annotation base unit as {etext(d)}", [D("A"), D("B"), D("X", d), U("ua", base="A", symbol="ua", ann="X"), U("ub", base="B", symbol="ub", ann="B")]
        yield f"annotation prefixed unit as {etext(d)}", AB + [D("X", d), U("x", mul(num("2"), ref("ua")), ann="X", symbol="x", prefixes=("kilo", "deci"), aliases=("xs",))]
        # in a system with a third base dimension that cancels
        yield f"annotation three dimensions as {etext(d)}", AB + [D("E"), D("X", mul(d, div(ref("E"), ref("E")))), U("x", ref("ua"), ann="X")]
        yield f"annotation third dimension as {etext(d)}", AB + [D("E"), U("ue", base="E", symbol="ue"), D("X", d), U("x", mul(ref("ua"), ref("ue")), ann="X")]
    for a in ("ua", "x", "k", "zz", "A", "B", "kiloua"):
        for t in ([U("x", ref("ua"), ann=a)], [C("k", ref("ua"), ann=a), U("x", num("2"))]):
            yield f"annotation {a}", [D("A"), D("B"), U("ua", base="A", symbol="ua", prefixes=("kilo",)), U("ub", base="B", symbol="ub")] + t


def fam_graph(deep):
    """every assignment of right-hand sides to a bounded number of names"""
    mk = {"dimension": lambda n, r: D(n, r), "unit": lambda n, r: U(n, r), "constant": lambda n, r: C(n, r)}
    kinds = list(mk)
    # three names, single references
    atoms3 = ["x", "y", "z", "zz", "ua", "A", "1"]
    for ks in itertools.combinations_with_replacement(kinds, 3):
        for rhs in itertools.product(range(len(atoms3)), repeat=3):
            # interesting shapes only: thin out those made of leaves alone
            if not deep and (sum(r < 3 for r in rhs) < 2 or (rhs[0] + 3 * rhs[1] + 5 * rhs[2]) % 2 and sum(r < 3 for r in rhs) < 3):
                continue
            sys_ = list(AB)
            for k, n, r in zip(ks, "xyz", rhs):
                a = atoms3[r]
                sys_.append(mk[k](n, num("1") if a == "1" else ref(a)))
            yield f"graph3 {' '.join(k[0] for k in ks)} {' '.join(atoms3[r] for r in rhs)}", sys_
    # two names, products of two references
    atoms2 = ["x", "y", "zz", "ua", "B", "1", "2"]
    pairs = [(a,) for a in atoms2] + list(itertools.product(atoms2, repeat=2))
    A = lambda a: num(a) if a.isdigit() else ref(a)
    shapes = {1: lambda p: A(p[0]), 2: lambda p: mul(A(p[0]), A(p[1])), 3: lambda p: div(num("1"), mul(A(p[0]), A(p[1])))}
    for ks in itertools.product(kinds, repeat=2):
        for p in pairs:
            for q in pairs if deep else [(a,) for a in ("x", "y", "ua", "B")]:
                e = shapes[1 if len(p) == 1 else 2](p)
                f = shapes[1 if len(q) == 1 else (3 if deep else 2)](q)
                if len(p) == 1 and len(q) == 1 and deep:
                    e = power(e, 2)
                yield f"graph2 {' '.join(k[0] for k in ks)} {etext(e)} | {etext(f)}", AB + [mk[ks[0]]("x", e), mk[ks[1]]("y", f)]
    # long cycles and chains, every length, through alternating kinds; cut or closed
    for n in range(1, 9 if deep else 7):
        for closed in (True, False):
            for pat in (["unit"], ["constant"], ["unit", "constant"], ["dimension"]):
                sys_ = list(AB)
                for i in range(n):
                    leafs = ref("A") if pat == ["dimension"] else ref("ua")
                    nxt = ref(f"c{(i + 1) % n}") if closed or i + 1 < n else leafs
                    sys_.append(mk[pat[i % len(pat)]](f"c{i}", mul(leafs, nxt) if i % 2 else nxt))
                yield f"{'cycle' if closed else 'chain'} of {n} {'/'.join(pat)}", sys_


def fam_symbols(deep):
    """every pair of symbols with prefixes (clashes of generated symbols and names)"""
    syms = ["a", "aa", "da", "ka", "k", "daa", "ma", "Ma"]
    prefs = [(), ("kilo",), ("deca",), ("deci", "kilo"), tuple(ALL_PREFIXES)]
    opts = [(s, p) for s in syms for p in prefs]
    for (s, p), (t, q) in itertools.combinations_with_replacement(opts, 2):
        if not deep and len(p) == 16 and len(q) == 16:
            continue
        # a clash of symbols must be found whatever the units are
        yield f"symbols {s}{list(p) if len(p) < 16 else 'all'} {t}{list(q) if len(q) < 16 else 'all'}", AB + [U("x", mul(num("3"), ref("ua")), symbol=s, prefixes=p), U("y", mul(num("3"), ref("ua")), symbol=t, prefixes=q)]
    for s, p in opts:
        yield f"symbols base ua against {s}{p}", [D("A"), D("B"), U("ua", base="A", symbol="a", prefixes=("kilo", "deca", "mega")), U("ub", base="B", symbol="ub"), U("x", ref("ub"), symbol=s, prefixes=p)]
        yield f"symbols two base units {s}{p}", [D("A"), D("B"), U("ua", base="A", symbol="a"), U("ub", base="B", symbol=s, prefixes=p)]
    names = ["x", "kilox", "decax", "y"]
    for n, m in itertools.product(names, repeat=2):
        for p, al in itertools.product([(), ("kilo",), ("kilo", "deca")], [(), ("y",), ("kiloy", "x2")]):
            for other in (U(m, ref("ub")), C(m, ref("ub")), D(m, ref("B")), U(m, ref("ub"), aliases=("y2",), prefixes=("kilo",))):
                yield f"names {n}{list(p)}{list(al)} and {other.text()}", AB + [U(n, ref("ua"), prefixes=p, aliases=al), other]
    # names that are alike are different names
    for n, m in (("x", "X"), ("X", "x"), ("speed", "SPEED"), ("speed", "Speed"), ("x", "x_"), ("x", "_x"), ("x", "xx"), ("x", "x1"), ("x1", "x2"), ("Ua", "UA"), ("kilox", "kiloX"), ("a", "b"), ("ab", "aB"), ("x_y", "xy"), ("xY", "x_y"), ("Ax", "ax")):
        for p in ((), ("kilo",)):
            for k in (U, C, D):
                for l in (U, C, D):
                    fst = k(n, ref("A") if k is D else ref("ua"), **(dict(prefixes=p, symbol="s") if k is U else {}))
                    snd = l(m, ref("B") if l is D else mul(num("2"), ref("ub")), **(dict(prefixes=p, symbol="t") if l is U else {}))
                    yield f"alike {fst.text()} {snd.text()}", AB + [fst, snd]
                    if k is l is U:
                        yield f"alike aliases {n} {m} {list(p)}", AB + [U("w", ref("ua"), aliases=(n, m), prefixes=p)]
                        yield f"alike, one refers to the other {n} {m} {list(p)}", AB + [fst, U(m, mul(num("2"), ref(n)), prefixes=p, symbol="t")]
    for s_, t_ in (("a", "A"), ("m", "M"), ("kg", "Kg"), ("s", "s_"), ("mm", "Mm")):
        for p in ((), ("kilo",), ("milli", "mega")):
            yield f"alike symbols {s_} {t_} {list(p)}", AB + [U("x", ref("ua"), symbol=s_, prefixes=p), U("y", mul(num("3"), ref("ua")), symbol=t_, prefixes=p)]
    for n in ("A", "ua", "B", "ub"):
        for s in (U(n, ref("ua")), C(n, ref("ua")), D(n, ref("A")), D(n), U("q", ref("ua"), aliases=(n,)), U("q", ref("ua"), aliases=("r", "r"))):
            yield f"redefinition {s.text()}", AB + [s]
    for p in (("kilo", "kilo"), ("kilo", "mega", "kilo")):
        yield f"same prefix twice {p}", AB + [U("x", ref("ua"), prefixes=p)]
    for n in "xyz":
        yield f"same definition twice {n}", AB + [U("x", ref("ua")), C("y", ref("ua")), D("z", ref("A"))] + [{"x": U("x", ref("ua")), "y": C("y", ref("ua")), "z": D("z", ref("A"))}[n]]


def fam_base(deep):
    """every choice of base units for two base dimensions"""
    opts = []
    for base in ("A", "B", "E", "x", "zz", "u0", None):
        for sym in (True, False):
            for rhs in (None, "ux", "2"):
                opts.append((base, sym, rhs))
    for n in (0, 1, 2, 3):
        for combo in itertools.product(opts, repeat=n):
            if n == 2 and not deep and (combo[0][2] == "2" or combo[1][2] == "2"):
                continue
            if n == 3:
                # all assignments of dimensions, one symbol missing at most
                if any(o[2] for o in combo) or sum(not o[1] for o in combo) > 1 or any(o[0] in (None, "u0", "zz") for o in combo):
                    continue
                if not deep and any(not o[1] for o in combo):
                    continue
            sys_ = [D("A"), D("B"), D("E", mul(ref("A"), ref("B"))), U("ux", num("4")), U("x", num("5"))]
            for i, (b, s, r) in enumerate(combo):
                sys_.append(U(f"u{i}", None if r is None else (num("2") if r == "2" else ref(r)), base=b, symbol=f"s{i}" if s else None))
            yield "base units " + " ".join(s.text() for s in sys_[5:]), sys_


def fam_factors(deep):
    """factors in dimension expressions"""
    lits = ["1", "1.0", "1e0", "2", "0", "0.5", "1.5", "-1", "-1.0", "10", "1000000000000000000000", "0.9999999999", "1.0000000001"]
    a = ref("A")
    for l in lits:
        n = num(l)
        for k, e in {"alone": n, "left": mul(n, a), "right": mul(a, n), "divisor": div(a, n), "numerator": div(n, a), "power": power(n, 2), "power0": power(n, 0), "inverse": mul(a, power(n, -1)),
                     "group": mul(a, mul(ref("B"), n)), "deep": div(a, mul(ref("B"), div(a, n)))}.items():
            yield f"factor {l} {k}", AB + [D("X", e)]
            yield f"factor {l} {k} used", AB + [D("Y", mul(ref("X"), ref("B"))), D("X", e)]


def fam_attributes(deep):
    """attribute lists up to length three (four) on a unit; None: not judged"""
    alpha = ["symbol(s)", "symbol(t)", "alias(w)", "alias(v, y)", "metric_prefixes", "metric_prefixes(skip: kilo)", "prefix(kilo)", "prefix(mega, deca)", "base(A)", "base(B)",
             "unknown(x)", "Symbol(s)", "prefixes", "symbol", "alias", "prefix", "base", "metric_prefixes(skip: foo)", "prefix(foo)", "skip(kilo)", "doc", "symbol()", "base()"]
    bad = {"unknown(x)", "Symbol(s)", "prefixes", "symbol", "alias", "prefix", "base", "metric_prefixes(skip: foo)", "prefix(foo)", "skip(kilo)", "doc", "symbol()", "base()"}
    good = [a for a in alpha if a not in bad]
    lists = []
    for n in range(0, 4):
        for l in itertools.product(alpha if n < 3 else good, repeat=n):
            if n == 3 and not deep and len(set(l)) == 3 and not (any(x.startswith("base") for x in l)):
                continue
            lists.append(l)
    for l in lists:
        for rhs in (None, "ub"):
            if rhs is None and not deep and not any("base" in a for a in l):
                continue
            problems = [a for a in l if a in bad]
            by = lambda k: [a for a in l if a.split("(")[0] == k]
            if len(by("symbol")) > 1:
                problems.append("symbol twice")
            if len(by("metric_prefixes")) > 1:
                problems.append("metric_prefixes twice")
            if len(by("base")) > 1:
                problems.append("base twice")
            if by("base") and rhs:
                problems.append("base with expression")
            prefixes = []
            if by("metric_prefixes"):
                prefixes = [p for p in ALL_PREFIXES if "skip" not in by("metric_prefixes")[0] or p != "kilo"]
            for a in by("prefix"):
                prefixes += a[7:-1].split(", ")
            aliases = [x for a in by("alias") for x in a[6:-1].split(", ")]
            base = by("base")[0][5:-1] if by("base") else None
            sym = by("symbol")[0][7:-1] if by("symbol") else None
            used = {"A": "B"}.get(base, "A")
            sys_ = [D("A"), D("B"), U("ub", base=used, symbol="ub")]
            x = U("x", ref(rhs) if rhs else None, base=base if not problems else None, symbol=sym, aliases=aliases, prefixes=prefixes, attrs=list(l))
            yield "attributes " + " ".join(f"#[{a}]" for a in l) + (" = ub" if rhs else ""), sys_ + [x], problems


def fam_minimal(deep):
    """one or two statements in the smallest surroundings: a problem must not need company to be found"""
    contexts = [[], [D("A")], [D("A"), U("ua", base="A", symbol="ua")], [D("A"), D("B"), U("ub", base="B", symbol="ub")], [U("ua", num("2"))], [C("ua", num("2"))]]
    one = []
    for r in ("zz", "A", "ua", "x"):
        for e in (ref(r), mul(num("2"), ref(r)), mul(ref(r), ref(r)), div(num("1"), ref(r)), power(ref(r), 2), power(ref(r), 0), mul(ref("ua"), ref(r)), mul(ref(r), ref("zz")), div(ref("A"), ref(r))):
            one += [U("x", e), C("x", e), D("x", e), U("x", e, symbol="x", prefixes=("kilo",), aliases=("xs",))]
    for e in (num("2"), num("1"), mul(num("2"), num("3"))):
        one += [U("x", e), C("x", e), D("x", e)] + [k("x", e, ann=a) for k in (U, C) for a in ("A", "zz", "ua", "x")]
    for b in ("A", "B", "zz", "ua", "x"):
        one += [U("x", base=b, symbol="x"), U("x", base=b), U("x", base=b, symbol="x", prefixes=("kilo",)), U("x", base=b, prefixes=("kilo",), aliases=("xs",)), U("x", base=b, symbol="x", ann="A"), U("x", base=b, symbol="ua")]
    for n in ("A", "ua"):
        one += [U(n, num("2")), C(n, num("2")), D(n), U("x", num("2"), aliases=(n,))]
    one += [U("x", num("2"), aliases=("x",)), U("x", num("2"), prefixes=("kilo", "kilo")), U("x", num("2"), symbol="x", prefixes=("kilo", "kilo"))]
    users = [[], [U("y", ref("x"))], [C("y", ref("x"))], [D("y", ref("x"))], [U("w", mul(ref("y"), ref("x"))), C("y", ref("x"))]]
    for i, c in enumerate(contexts):
        for j, s in enumerate(one):
            for k, u in enumerate(users):
                if not deep and k and (i + j + k) % 4:
                    continue
                yield f"minimal {' '.join(x.text() for x in c)} | {s.text()} {' '.join(x.text() for x in u)}", c + [s] + u


def fam_types(deep):
    q, d = St("quantity_type", "Quantity"), St("dimension_type", "Dimension")
    q2, d2 = St("quantity_type", "Other"), St("dimension_type", "OtherDim")
    for qs in ([], [q], [q, q], [q, q2]):
        for ds in ([], [d], [d, d], [d2, d]):
            for pos in range(3):
                s = list(AB)
                s[pos:pos] = qs
                yield f"type statements {len(qs)} {len(ds)} at {pos}", s + ds, None, True


FAMILIES = [fam_annotations, fam_graph, fam_symbols, fam_base, fam_factors, fam_attributes, fam_minimal, fam_types]


def family(deep):
    """(key, system, problems, meaning)"""
    for fam in FAMILIES:
        for item in fam(deep):
            key, sys_ = item[0], item[1]
            extra = item[2] if len(item) > 2 and item[2] else []
            raw = len(item) > 3
            full = sys_ if raw else [QT, DT] + sys_
            if extra:
                yield fam.__name__[4:], key, full, list(extra), None
            else:
                problems, meaning = analyse(full)
                yield fam.__name__[4:], key, full, problems, meaning


def verdicts(run, name, texts, art, per=100):
    """Whether the macro accepts each system, and the first message otherwise.  Only macro
    expansion runs (rustc's -Z no-analysis), one system per line."""
    out = [None] * len(texts)
    chunks = [range(i, min(i + per, len(texts))) for i in range(0, len(texts), per)]

    def work(ix):
        n, ids = ix
        first = HEADER.count("\n") + 1
        src = HEADER + "".join(f"mod m{i} {{ {texts[i]} }}\n" for i in ids) + "fn main() {}\n"
        p = run.write(f"{name}{n}.rs", src)
        c = rustc(p, run.path(f"{name}{n}.meta"), art, extra=["-Z", "no-analysis"], emit_meta=True)
        hit = {}
        for d in c.diags:
            for ln in d.lines:
                if 0 <= ln - first < len(ids):
                    hit.setdefault(ids[ln - first], d.message)
            if not any(0 <= ln - first < len(ids) for ln in d.lines):
                # an error without a place: decide one by one
                hit = None
                break
        if hit is None or (not c.ok and not hit) or (c.ok and hit):
            for i in ids:
                q = run.write(f"{name}s{i}.rs", HEADER + f"mod m {{ {texts[i]} }}\nfn main() {{}}\n")
                c = rustc(q, run.path(f"{name}s{i}.meta"), art, extra=["-Z", "no-analysis"], emit_meta=True)
                out[i] = (c.ok, c.diags[0].message if c.diags else c.stderr[-200:])
            return
        for i in ids:
            out[i] = (i not in hit, hit.get(i, ""))

    pmap(work, list(enumerate(chunks)))
    return out


def full_verdict(run, name, texts, art):
    """Verdict of the whole compiler on each system alone."""
    def work(i):
        q = run.write(f"{name}f{i}.rs", HEADER + f"mod m {{ {texts[i]} }}\nfn main() {{}}\n")
        c = rustc(q, run.path(f"{name}f{i}.out"), art, emit_meta=True)
        return c.ok, (c.diags[0].message if c.diags else c.stderr[-200:])
    return pmap(work, range(len(texts)))


def main():
    run = Run("P11")
    art = build("f64", fast=True)
    items = list(family(run.thorough))
    uniq = {}
    for it in items:
        uniq.setdefault(text(it[2]), it)
    items = list(uniq.values())
    bad = [it for it in items if it[3]]
    good = [it for it in items if not it[3]]
    # a sound rejection check needs accepted neighbours: they show that the family does not
    # get rejected for unrelated reasons
    sel = bad + good
    res = verdicts(run, "v", [text(it[2]) for it in sel], art)
    later = [i for i, it in enumerate(sel) if it[3] and res[i][0]]
    for i, r in zip(later, full_verdict(run, "v", [text(sel[i][2]) for i in later], art)):
        res[i] = r
    for it, (ok, why) in zip(sel, res):
        fam, key, sys_, problems, _ = it
        run.transitions += 1
        run.validated += 1
        run.states.add((fam, bool(problems), problems[0] if problems else None))
        run.outcome(f"{fam}: " + ("rejected" if not ok else "accepted"))
        if ok and problems:
            run.violation(key, f"system with problem(s) {problems[:3]} was accepted", dict(system=text(sys_)))
        elif not ok and not problems:
            # a consistent system that is rejected belongs to P12
            run.outcome("consistent but rejected (decided by P12)")
    if not bad or not any(r[0] for r in res):
        raise EngineError("the family has no accepted member: nothing was decided")
    for it in sel[:: len(sel) // 12]:
        run.sample(f"{it[1]} -> {'reject: ' + it[3][0] if it[3] else 'accept'}")
    run.assumptions = ["systems outside the family are not covered; attributes on statements other than units are not judged"]
    return run.finish()
