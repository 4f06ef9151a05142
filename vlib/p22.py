"""P22: every problem of a unit system is reported, and where it is.

The inconsistent members of the family of P11 are expanded by the real macro, one statement per
line; the lines of the errors are compared with the statements which the reference semantics finds
faulty."""
import itertools

from .core import *
from .p07 import PREFIX
from .p11 import family
from .usys import *
from .usys import PREFIX_OF


def blame(system):
    """(faulty, allowed, fatal): indices of the statements that have a problem of their own, of
    those that an error may point to, and of those whose problem is one of the statement alone
    (they may be reported before all others).  A missing type statement is -1."""
    must, may, fatal = set(), set(), set()
    for k in ("quantity_type", "dimension_type"):
        ix = [i for i, s in enumerate(system) if s.kind == k]
        if len(ix) != 1:
            must |= set(ix) or {-1}
    entries = []  # (statement, kind, name, refs, ann, base, symbol, rhs)
    bases = [s.name for s in system if s.kind == "dimension" and s.rhs is None]
    baseunit = {}
    for i, s in enumerate(system):
        if s.kind in ("quantity_type", "dimension_type"):
            continue
        if s.kind != "unit":
            entries.append((i, s.kind, s.name, refs(s.rhs) if s.rhs else [], s.ann, None, None, s.rhs))
            if s.kind == "dimension" and s.rhs and any(x != 1 for x in nums(s.rhs)):
                must.add(i)
                fatal.add(i)
            continue
        if bool(s.base) == bool(s.rhs):
            must.add(i)
            fatal.add(i)
        if s.base:
            if s.base not in bases or not s.symbol:
                must.add(i)
            baseunit.setdefault(s.base, []).append(i)
        for p in (None,) + s.prefixes:
            pre = PREFIX_OF[p] if p else ("", "", 0)
            for a in (None,) + s.aliases:
                own = p is None and a is None
                entries.append((i, "unit", pre[0] + (a or s.name), (refs(s.rhs) if s.rhs else []) if own else [s.name], s.ann, s.base if own else None, pre[1] + s.symbol if s.symbol and a is None else None, s.rhs))
    for b, ix in baseunit.items():
        if len(ix) > 1 and b in bases:
            must |= set(ix[1:])
            may |= set(ix)
    defs, syms = {}, {}
    for e in entries:
        defs.setdefault(e[2], []).append(e)
        if e[6]:
            syms.setdefault(e[6], []).append(e)
    for group in list(defs.values()) + list(syms.values()):
        if len(group) > 1:
            must |= {e[0] for e in group}
    for i, kind, name, rs, ann, base, sym, rhs in entries:
        for r in rs:
            if r not in defs:
                must.add(i)
            for d in defs.get(r, []):
                if (d[1] == "dimension") != (kind == "dimension"):
                    must.add(i)
                    may.add(d[0])
        if base and base not in defs:
            must.add(i)
        if ann is not None and kind != "dimension":
            if ann not in defs:
                must.add(i)
            elif any(d[1] != "dimension" for d in defs[ann]):
                must.add(i)
                may |= {d[0] for d in defs[ann]}
    # cycles: reachability over statements
    deps = {}
    for e in entries:
        deps.setdefault(e[0], set()).update(d[0] for r in list(e[3]) + ([e[5]] if e[5] else []) for d in defs.get(r, []) if not (d[0] == e[0] and e[2] != d[2] and e[3] == [system[e[0]].name]))
    reach = {}

    def closure(i):
        if i not in reach:
            seen, todo = set(), [i]
            while todo:
                for j in deps.get(todo.pop(), ()):
                    if j not in seen:
                        seen.add(j)
                        todo.append(j)
            reach[i] = seen
        return reach[i]

    for i in deps:
        if i in closure(i):
            must.add(i)
    # annotations: only where everything the statement rests on is clean
    ann_deps = {e[0]: {d[0] for d in defs.get(e[4], [])} for e in entries if e[4] is not None and e[1] != "dimension"}
    n = len(bases)
    env = {b: (Fr(1), tuple(Fr(int(i == k)) for k in range(n))) for i, b in enumerate(bases)}
    for e in entries:
        if e[5] in env:
            env[e[2]] = env[e[5]]
    done = False
    while not done:
        done = True
        for i, kind, name, rs, ann, base, sym, rhs in entries:
            if name in env or base or rhs is None:
                continue
            if len(defs[name]) == 1 and name == system[i].name and all(r in env for r in rs):
                try:
                    env[name] = evaluate(rhs, env, n)
                    done = False
                except Exception:
                    pass
    for i, want in ann_deps.items():
        s = system[i]
        rest = {i} | closure(i) | set().union(*({j} | closure(j) for j in want), set())
        if rest & must:
            continue
        if s.name in env and s.ann in env and env[s.name][1] != env[s.ann][1]:
            must.add(i)
    allowed = must | may
    for i in deps:
        if (closure(i) | ann_deps.get(i, set())) & allowed:
            allowed = allowed | {i}
    return must, allowed, fatal


BASIS = [D("A"), D("B"), D("AB", mul(ref("A"), ref("B"))), U("ua", base="A", symbol="ua"), U("ub", base="B", symbol="ub"), U("uab", mul(ref("ua"), ref("ub")), symbol="uab", ann="AB")]


def faults(t):
    """Independent faults; every name of a fault contains `t`."""
    x, y, z, w = (n + t for n in "xyzw")
    X, Y = "X" + t, "Y" + t
    zz = ref("zz" + t)
    return {
        "undefined in unit": [U(x, zz)],
        "undefined in unit, prefixed": [U(x, zz, symbol=x, prefixes=("kilo", "mega"), aliases=(y,))],
        "undefined in constant": [C(x, mul(num("2"), zz))],
        "undefined in dimension": [D(X, div(ref("A"), zz))],
        "undefined with user": [U(x, zz), U(y, ref(x)), C(z, ref(y))],
        "undefined annotation": [U(x, ref("ua"), ann="Zz" + t)],
        "undefined annotation of constant": [C(x, ref("ua"), ann="Zz" + t)],
        "annotation is a unit": [U(x, ref("ua"), ann="ua")],
        "annotation is a constant": [C(y, num("3")), C(x, ref("ua"), ann=y)],
        "violated annotation": [U(x, ref("ua"), ann="B")],
        "violated annotation of constant": [C(x, mul(ref("ua"), ref("ub")), ann="A")],
        "violated annotation of prefixed": [U(x, ref("ua"), ann="AB", symbol=x, prefixes=("kilo", "milli"), aliases=(y,))],
        "violated annotation of base unit": [D(X), U(x, base=X, symbol=x, ann="A")],
        "violated annotation, users": [U(x, ref("ua"), ann="B"), U(y, mul(ref(x), ref(x)), ann="AB"), C(z, ref("ub"), ann="B")],
        "unit of dimension": [U(x, ref("A"))],
        "constant of dimension": [C(x, mul(ref("B"), ref("ua")))],
        "dimension of unit": [D(X, ref("ua"))],
        "dimension of constant": [C(x, num("2")), D(X, mul(ref("A"), ref(x)))],
        "self": [U(x, ref(x))],
        "self, prefixed": [U(x, ref(x), symbol=x, prefixes=("kilo",), aliases=(y,))],
        "self constant": [C(x, mul(ref(x), ref("ua")))],
        "self dimension": [D(X, mul(ref(X), ref("A")))],
        "two cycle": [U(x, ref(y)), U(y, ref(x))],
        "two cycle mixed": [C(x, ref(y)), U(y, mul(num("2"), ref(x)))],
        "three cycle with user": [U(x, ref(y)), C(y, ref(z)), U(z, ref(x)), U(w, ref(y))],
        "cycle of dimensions": [D(X, ref(Y)), D(Y, ref(X))],
        "same name, units": [U(x, ref("ua")), U(x, ref("ub"))],
        "same name, unit constant": [U(x, ref("ua")), C(x, num("3"))],
        "same name, dimensions": [D(X, ref("A")), D(X, ref("B"))],
        "same name, used": [U(x, ref("ua")), U(x, ref("ua")), C(y, ref(x))],
        "same name by prefix": [U("kilo" + x, ref("ua")), U(x, ref("ua"), symbol=x, prefixes=("kilo",))],
        "same name by alias": [U(x, ref("ua"), aliases=(y,)), C(y, ref("ua"))],
        "same name by alias and prefix": [U(x, ref("ua"), symbol=x, prefixes=("mega",), aliases=(y,)), U("mega" + y, ref("ua"))],
        "same symbol": [U(x, ref("ua"), symbol=z), U(y, ref("ub"), symbol=z)],
        "same symbol thrice": [U(x, ref("ua"), symbol=z), U(y, ref("ub"), symbol=z), U(w, ref("ub"), symbol=z)],
        "same symbol by prefix": [U(x, ref("ua"), symbol="k" + z), U(y, ref("ub"), symbol=z, prefixes=("kilo",))],
        "base of derived": [U(x, base="AB", symbol=x)],
        "base of undefined": [U(x, base="Zz" + t, symbol=x)],
        "base of unit": [U(x, base="ua", symbol=x)],
        "second base unit": [U(x, base="A", symbol=x)],
        "two base units": [D(X), U(x, base=X, symbol=x), U(y, base=X, symbol=y)],
        "base unit without symbol": [D(X), U(x, base=X)],
        "base unit without symbol, prefixed": [D(X), U(x, base=X, prefixes=("kilo",), aliases=(y,))],
        "second quantity type": [St("quantity_type", "Q" + t)],
        "second dimension type": [St("dimension_type", "D" + t)],
        "factor in dimension": [D(X, mul(num("2"), ref("A")))],
    }


def combined(deep):
    """all pairs of independent faults, in several orders; triples of kinds"""
    one, two, three = faults("1"), faults("2"), faults("3")
    for k in one:
        yield f"one fault: {k}", [QT, DT] + BASIS + one[k]
        yield f"one fault, reversed: {k}", (BASIS + one[k] + [QT, DT])[::-1]
    for k, l in itertools.product(one, repeat=2):
        a, b = one[k], two[l]
        yield f"{k} + {l}", [QT, DT] + BASIS + a + b
        yield f"{k} + {l}, reversed", (BASIS + a + b + [DT, QT])[::-1]
        inter = [s for p in itertools.zip_longest(a, b) for s in p if s]
        if deep or inter != a + b:
            yield f"{k} + {l}, interleaved around", inter[:2] + BASIS + [QT, DT] + inter[2:]
    kinds = list(one)
    for i, (k, l, m) in enumerate(itertools.combinations(kinds, 3)):
        if deep or i % 16 == 0:
            yield f"{k} + {l} + {m}", [QT, DT] + three[m] + BASIS + one[k] + two[l]


MODULE = {"dimension": "dimensions", "unit": "units", "constant": "constants"}
USE = -3


def names_of(st):
    if st.kind != "unit":
        return [st.name]
    return [p + n for p in [""] + [PREFIX_OF[x][0] for x in st.prefixes] for n in (st.name,) + st.aliases]


def located(run, name, systems, art, per=60):
    """For every system the set of statements at which errors are reported (-1: at the macro
    call itself, USE: at a use of a definition that has no problem) and the messages."""
    out = [None] * len(systems)
    chunks = [range(i, min(i + per, len(systems))) for i in range(0, len(systems), per)]

    def work(ix):
        n, ids = ix
        parts, line, where = [HEADER], HEADER.count("\n") + 1, {}
        for i in ids:
            ls = [f"mod m{i} {{ diman::unit_system!("] + [s.text() for s in systems[i]] + [") ; }"]
            for k, l in enumerate(ls):
                where[line] = (i, k - 1 if 0 < k <= len(systems[i]) else -1)
                line += 1
            must, allowed, fatal = blame(systems[i])
            if not fatal:
                # what is not at fault is defined nonetheless
                for k, st in enumerate(systems[i]):
                    if k in allowed or st.kind not in MODULE:
                        continue
                    for nm in names_of(st):
                        ls.append(f"use m{i}::{MODULE[st.kind]}::{nm} as u{i}_{k}_{nm};")
                        where[line] = (i, USE)
                        line += 1
            parts.append("\n".join(ls) + "\n")
        p = run.write(f"{name}{n}.rs", "".join(parts) + "fn main() {}\n")
        c = rustc(p, run.path(f"{name}{n}.meta"), art, extra=["-Z", "no-analysis"], emit_meta=True)
        for i in ids:
            out[i] = (set(), [])
        for d in c.diags:
            hit = {where[l] for l in d.lines if l in where}
            for i in {h[0] for h in hit}:
                ks = {h[1] for h in hit if h[0] == i}
                # an error over the whole macro call
                out[i][0].update({-1} if -1 in ks else ks)
                out[i][1].append((sorted(ks), d.message))

    pmap(work, list(enumerate(chunks)))
    return out


def main():
    run = Run("P22")
    art = build("f64", fast=True)
    uniq = {}
    for fam, key, sys_, problems, meaning in family(run.thorough):
        if problems and not any(s.attrs is not None for s in sys_):
            uniq.setdefault(text(sys_), (fam, key, sys_, problems))
    for key, sys_ in combined(run.thorough):
        problems, _ = analyse(sys_)
        uniq.setdefault(text(sys_), ("combined", key, sys_, problems))
    items = list(uniq.values())
    got = located(run, "e", [it[2] for it in items], art)
    for (fam, key, sys_, problems), (at, msgs) in zip(items, got):
        must, allowed, fatal = blame(sys_)
        run.transitions += 1
        run.validated += 1
        show = lambda ix: ", ".join(f"`{sys_[i].text()}`" if i >= 0 else "the macro call" for i in sorted(ix)) or "nothing"
        ms = "; ".join(m for _, m in msgs)[:300]
        run.states.add((fam, len(must), len(allowed), len(at)))
        if not must:
            run.violation(key, f"reference finds no faulty statement: {problems}", dict(system=text(sys_)))
            continue
        needed = must - fatal if not fatal else set()
        if fatal and not at & fatal:
            needed = fatal
        missing = needed - at
        extra = at - allowed - {USE} - ({-1} if fatal else set())
        run.outcome(f"{fam}: {len(must)} faulty, {len(at)} reported")
        if USE in at:
            run.violation(key, f"definitions without a problem (of {text(sys_)[:400]}) are not defined: {ms}", dict(system=text(sys_)))
        elif missing:
            run.violation(key, f"no error at {show(missing)} (errors at {show(at)}: {ms})", dict(system=text(sys_)))
        elif extra:
            run.violation(key, f"error at {show(extra)}, which is not faulty (faulty: {show(must)}: {ms})", dict(system=text(sys_)))
    for it, g in list(zip(items, got))[:: max(1, len(items) // 8)]:
        run.sample(f"{it[1]}: {g[1][:3]}")
    return run.finish()
