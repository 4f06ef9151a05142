"""P10: neither the order of the statements nor the hash order inside the macro matters.

* every permutation of the statements of a set of systems (consistent and inconsistent ones,
  one per kind of problem) is expanded by the real macro: same verdict for all;
* every permutation of smaller consistent systems is compiled completely and used: same
  factor (bit for bit), same exponents per base dimension for every name;
* every system is expanded under a grid of hash keys: an LD_PRELOAD stand-in for getrandom
  fixes the keys of the hash maps in the compiler process, and several expansions in one
  crate get consecutive keys.  Same verdict, factors, dimensions, debug output for all."""
import itertools

from .core import *
from .p11 import verdicts
from .usys import *

SHIM = r"""
#define _GNU_SOURCE
#include <sys/types.h>
#include <stdlib.h>
#include <stddef.h>
#include <string.h>
static unsigned char key(void) { const char *s = getenv("P10_HASH_KEY"); return s ? (unsigned char)atoi(s) : 0; }
ssize_t getrandom(void *buf, size_t n, unsigned int flags) { (void)flags; memset(buf, 0, n); if (n) { unsigned k = key(); ((unsigned char *)buf)[0] = k * 64; if (n > 1) ((unsigned char *)buf)[1] = k >> 2; if (n > 8) ((unsigned char *)buf)[8] = 7; } return n; }
"""

PROBE_MACRO = """
extern crate proc_macro;
#[proc_macro] pub fn order(_: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let m: std::collections::HashMap<&str, ()> = ["a", "b", "c", "d"].into_iter().map(|x| (x, ())).collect();
    let s: String = m.keys().copied().collect();
    format!("{:?}", s).parse().unwrap()
}
"""


def consistent(deep):
    """(name, permuted statements, all permutations compiled completely?)"""
    yield "chain", [D("A"), U("ua", base="A", symbol="ua"), U("x", mul(num("2"), ref("y"))), C("y", mul(num("3"), ref("ua")), ann="A"), U("w", div(ref("x"), ref("y")), symbol="w")]
    yield "dimensions", [D("A"), D("B"), D("V", div(ref("A"), ref("W"))), D("W", power(ref("B"), 2)), U("ua", base="A", symbol="ua", prefixes=("kilo",))]
    yield "annotations", [D("A"), D("V", mul(ref("A"), ref("A"))), U("ua", base="A", symbol="ua", ann="A"), C("c", mul(ref("ua"), ref("x")), ann="V"), U("x", mul(num("0.3"), ref("ua")), ann="A", aliases=("xs",))]
    yield "two units of factor one", [D("A"), U("ua", base="A", symbol="m"), U("q", ref("ua"), symbol="q"), U("p", ref("q"), symbol="p"), U("b", ref("p"), symbol="b")]
    yield "two base units", [D("A"), D("B"), U("ua", base="A", symbol="m"), U("ub", base="B", symbol="s"), U("x", div(mul(num("7"), ref("ua")), power(ref("ub"), 2)), symbol="x", prefixes=("milli",))]
    yield "prefixed references", [D("A"), U("ua", base="A", symbol="m", prefixes=("kilo", "milli"), aliases=("uas",)), U("x", mul(ref("kiloua"), ref("uas")), symbol="x"), U("y", div(ref("milliuas"), ref("x"))), C("k", div(ref("y"), ref("kiloua")))]
    six = [D("A"), D("B"), D("V", div(ref("A"), ref("B"))), U("ua", base="A", symbol="m"), U("ub", base="B", symbol="s"), U("v", div(mul(num("3"), ref("ua")), ref("ub")), ann="V")]
    if deep:
        yield "six", six
        yield "six with constants", [D("A"), U("ua", base="A", symbol="m"), C("c1", mul(num("0.1"), ref("ua"))), C("c2", mul(ref("c1"), ref("c1"))), U("u", div(ref("c2"), ref("c3")), symbol="u"), C("c3", div(num("1"), ref("c2")))]


def verdict_systems(deep):
    """(name, statements): all permutations are expanded"""
    for n, s in consistent(True):
        yield n, s
    base = [D("A"), U("ua", base="A", symbol="m")]
    yield "cycle of two", base + [U("x", ref("y")), U("y", ref("x"))]
    yield "cycle of three kinds", base + [U("x", ref("y")), C("y", mul(ref("z"), ref("ua"))), U("z", ref("x"))]
    yield "cycle of dimensions", base + [D("X", ref("Y")), D("Y", mul(ref("A"), ref("X"))), D("Z", ref("X"))]
    yield "self reference", base + [U("x", ref("x")), C("y", ref("x")), U("z", ref("ua"))]
    yield "undefined", base + [U("x", ref("zz")), U("y", ref("x")), C("z", ref("y"))]
    yield "undefined annotation", base + [U("x", ref("ua"), ann="ZZ"), U("y", ref("x")), C("z", ref("y"))]
    yield "unit as annotation", base + [U("x", ref("ua"), ann="y"), U("y", ref("ua")), C("z", ref("y"))]
    yield "violated annotation", [D("A"), U("ua", base="A", symbol="m"), D("V", power(ref("A"), 2)), U("x", ref("ua"), ann="V"), C("z", ref("x"))]
    yield "violated annotation of a constant", [D("A"), D("B"), U("ua", base="A", symbol="m"), C("x", ref("ua"), ann="B"), C("z", ref("x"), ann="A")]
    yield "violated annotation of a base unit", [D("A"), D("B"), U("ua", base="A", symbol="m", ann="B"), C("x", ref("ua"), ann="A"), C("z", ref("x"))]
    yield "defined twice, same", base + [U("x", ref("ua")), U("x", ref("ua")), C("z", ref("x"))]
    yield "defined twice, unit and constant", base + [U("x", ref("ua")), C("x", ref("ua")), C("z", ref("x"))]
    yield "defined twice, dimension and unit", base + [U("x", ref("ua")), D("x", ref("A")), C("z", ref("ua"))]
    yield "defined twice, prefix", base + [U("x", ref("ua"), prefixes=("kilo",)), C("kilox", ref("ua")), C("z", ref("ua"))]
    yield "defined twice, alias", base + [U("x", ref("ua"), aliases=("y",)), U("y", ref("ua")), C("z", ref("y"))]
    yield "symbol twice", base + [U("x", ref("ua"), symbol="q"), U("y", ref("ua"), symbol="q"), C("z", ref("x"))]
    yield "symbol twice with prefix", base + [U("x", ref("ua"), symbol="a", prefixes=("deca",)), U("y", ref("ua"), symbol="aa", prefixes=("deci",)), C("z", ref("x"))]
    yield "unit of a dimension", base + [U("x", ref("A")), U("y", ref("x")), C("z", ref("x"))]
    yield "dimension of a unit", base + [D("X", ref("ua")), D("Y", ref("X")), C("z", ref("ua"))]
    yield "dimension of a constant", base + [D("X", ref("z")), D("Y", ref("X")), C("z", ref("ua"))]
    yield "factor in a dimension", base + [D("X", mul(num("2"), ref("A"))), D("Y", ref("X")), C("z", ref("ua"))]
    yield "two base units of one dimension", base + [U("x", base="A", symbol="x"), U("y", ref("x")), C("z", ref("ua"))]
    yield "base unit of a derived dimension", base + [D("X", power(ref("A"), 2)), U("x", base="X", symbol="x"), C("z", ref("ua"))]
    yield "base unit of a unit", base + [U("x", base="ua", symbol="x"), U("y", ref("x")), C("z", ref("ua"))]
    yield "base unit without symbol", [D("A"), D("B"), U("ua", base="A", symbol="m"), U("ub", base="B"), U("x", ref("ub"))]
    yield "two errors", base + [U("x", ref("zz")), D("X", mul(num("3"), ref("A"))), C("z", ref("z"))]


def large(deep):
    """(name, statements, problem?): systems that are too large for all orders"""
    n = 48 if deep else 24
    ab = [D("A"), D("B"), U("ua", base="A", symbol="ua"), U("ub", base="B", symbol="ub")]
    # a chain through units and constants, some of them annotated, with prefixes and aliases
    chain = []
    for i in range(n):
        rhs = mul(num("2") if i % 5 else num("0.1"), ref(f"l{i + 1}") if i + 1 < n else ref("ua"))
        chain.append(C(f"l{i}", rhs) if i % 3 == 1 else U(f"l{i}", rhs, ann="A" if i % 4 == 0 else None, symbol=f"s{i}" if i % 6 == 0 else None, aliases=(f"al{i}",) if i % 6 == 2 else ()))
    yield "long chain", ab + chain
    dims = [D(f"D{i}", mul(ref(f"D{i + 1}"), ref("B")) if i + 1 < n // 2 else ref("A")) for i in range(n // 2)]
    yield "long chain of dimensions", ab + dims
    # every definition refers to the two before it
    net = [U("f0", ref("ua")), U("f1", div(ref("ub"), num("3")))]
    for i in range(2, 12):
        net.append((C if i % 4 == 3 else U)(f"f{i}", (mul if i % 2 else div)(ref(f"f{i - 1}"), ref(f"f{i - 2}"))))
    yield "net", ab + net
    yield "closed chain", ab + chain[:-1] + [U(f"l{n - 1}", mul(num("2"), ref("l0")))]
    yield "chain with undefined end", ab + chain[:-1] + [U(f"l{n - 1}", mul(num("2"), ref("nothing")))]
    yield "chain with dimension at the end", ab + chain[:-1] + [U(f"l{n - 1}", mul(num("2"), ref("A")))]
    yield "chain with violated annotation", ab + chain[:-1] + [U(f"l{n - 1}", ref("ub"))]
    yield "closed chain of dimensions", ab + dims[:-1] + [D(f"D{n // 2 - 1}", ref("D0"))]


def some_orders(n):
    """orders of n statements: rotations of the order and its reverse, interleavings, every
    adjacent exchange, every statement moved to either end"""
    f = list(range(n))
    out = [f, f[::-1]]
    for k in (2, 3, 5, 7):
        out += [sum((f[i::k] for i in range(k)), []), sum((f[i::k] for i in reversed(range(k))), []), sum((f[::-1][i::k] for i in range(k)), [])]
    h = n // 2
    out += [[x for p in itertools.zip_longest(f[:h], f[h:][::-1]) for x in p if x is not None], [x for p in itertools.zip_longest(f[h:], f[:h]) for x in p if x is not None]]
    key = len(out)
    for i in range(1, n):
        out += [f[i:] + f[:i], f[i:][::-1] + f[:i][::-1]]
        out += [f[:i - 1] + [f[i], f[i - 1]] + f[i + 1:], [f[i]] + f[:i] + f[i + 1:], f[:i - 1] + f[i:] + [f[i - 1]]]
        r = f[::-1]
        out += [r[:i - 1] + [r[i], r[i - 1]] + r[i + 1:], [r[i]] + r[:i] + r[i + 1:]]
    return out, key


def observe_code(meaning, tag):
    """program text printing the meaning of every name"""
    code = []
    for n, (kind, f, v) in meaning["names"].items():
        if kind == "dimension":
            code.append(f'{{ let q: dimensions::{n}<f64> = Quantity::new_unchecked(1.5); p("{tag}\\t{n}", q); }}')
        else:
            code.append(f'p("{tag}\\t{n}", 1.0f64 * {kind}s::{n});')
            code.append(f'p("{tag}\\t{n} squared", (2.0f64 * {kind}s::{n}) * (1.0f64 * {kind}s::{n}));')
    return " ".join(code)


def debug_probe(sys_, meaning, bases):
    """the debug output needs a base unit for every base dimension"""
    return all(b in meaning["baseunits"] for b in meaning["bases"])


def module(sys_, meaning, tag, i, ids):
    dbg = 'format!("{:?}", q)' if debug_probe(sys_, meaning, None) else "String::new()"
    help_ = f'pub fn p<const D: Dimension>(k: &str, q: Quantity<f64, D>) {{ println!("{{}}\\t{{:016x}}\\t{{:?}}\\t{{}}", k, q.value_unchecked().to_bits(), D, {dbg}); }}'
    return f"mod m{i} {{ {text(ids(sys_))} {help_} pub fn main() {{ {observe_code(meaning, tag)} }} }}\n"


def parse(out):
    res = {}
    for l in out.splitlines():
        f = l.split("\t")
        if len(f) != 5:
            continue
        tag, n, bits, dims, dbg = f
        d = dict(x.strip().split(": ") for x in dims[dims.index("{") + 1 : dims.rindex("}")].split(",")) if "{" in dims else {}
        res.setdefault(tag, {})[n] = (bits, tuple(sorted(d.items())), dbg)
    return res


def run_group(run, name, art, mods, env=None):
    """mods: list of (tag, text).  Returns {tag: observations}; a failing crate is split."""
    src = "".join(m for _, m in mods) + "fn main() { " + " ".join(f"{re.match(r'mod (m[0-9]+)', m).group(1)}::main();" for _, m in mods) + " }\n"
    path = run.write(name + ".rs", HEADER + src)
    out = run.path(name + ".bin")
    c = rustc(path, out, art, env=env)
    if c.ok:
        r = run_bin(out)
        os.unlink(out)
        if r.returncode == 0:
            return parse(r.stdout)
        c.stderr = r.stderr
    if len(mods) == 1:
        return {mods[0][0]: c.text(300)}
    res = {}
    for j, m in enumerate(mods):
        res.update(run_group(run, f"{name}-{j}", art, [m], env))
    return res


def main():
    run = Run("P10")
    art = build("f64", fast=True)
    shim_c = run.write("shim.c", SHIM)
    shim = run.path("shim.so")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", shim, shim_c], capture_output=True, text=True)
    if r.returncode:
        raise EngineError("no shim: " + r.stderr)
    seeds = list(range(16 if run.thorough else 6))
    copies = 16 if run.thorough else 8
    envs = {s: dict(ENV, LD_PRELOAD=shim, P10_HASH_KEY=str(s)) for s in seeds}

    # which iteration orders of a four element map do these keys give inside a macro?
    pm = run.write("probe.rs", PROBE_MACRO)
    so = run.path("libprobe.so")
    c = subprocess.run([rustc_path(), "--edition", "2021", "--crate-type", "proc-macro", "--crate-name", "probe", "-o", so, pm], env=ENV, capture_output=True, text=True)
    if c.returncode:
        raise EngineError("no probe macro: " + c.stderr[-500:])
    orders = {}
    for s in seeds:
        p = run.write(f"probe{s}.rs", "fn main() { " + 'println!("{}", probe::order!()); ' * copies + "}")
        b = run.path(f"probe{s}.bin")
        runs = []
        for k in range(2 if s == 0 else 1):
            c = subprocess.run([rustc_path(), "--edition", "2021", "--extern", f"probe={so}", "-o", b, p], env=envs[s], capture_output=True, text=True)
            if c.returncode:
                raise EngineError("probe: " + c.stderr[-500:])
            runs.append(run_bin(b).stdout.split())
        if runs[0] != runs[-1]:
            raise EngineError("the hash keys are not controlled")
        orders[s] = runs[0]
    distinct = {o for v in orders.values() for o in v}
    run.extra["hash_orders_of_a_4_element_map"] = f"{len(distinct)} of 24"
    if len(distinct) < 12:
        raise EngineError("the hash keys do not vary")

    # 1. verdicts of all permutations
    items = []
    for name, st in verdict_systems(run.thorough):
        problems, _ = analyse([QT, DT] + st)
        perms = list(itertools.permutations(range(len(st))))
        if len(st) > 5 and not run.thorough:
            perms = perms[::3]
        seen = set()
        for k, perm in enumerate(perms):
            body = [st[i] for i in perm]
            # the two type statements move as well
            pos = k % (len(st) + 1), (k * 5 + 2) % (len(st) + 2)
            body.insert(pos[0], QT)
            body.insert(pos[1], DT)
            t = text(body)
            if t not in seen:
                seen.add(t)
                items.append((name, perm, t, not problems))
    for name, st in large(run.thorough):
        problems, _ = analyse([QT, DT] + st)
        for k, perm in enumerate(some_orders(len(st))[0]):
            body = [st[i] for i in perm]
            body.insert(k % (len(st) + 1), QT)
            body.insert((k * 5 + 2) % (len(st) + 2), DT)
            items.append((name, tuple(perm), text(body), not problems))
    res = verdicts(run, "v", [t for _, _, t, _ in items], art)
    # an inconsistent system that the macro lets pass may still be rejected by the compiler
    later = [i for i, it in enumerate(items) if not it[3] and res[i][0]]
    from .p11 import full_verdict
    for i, r in zip(later, full_verdict(run, "w", [items[i][2] for i in later], art)):
        res[i] = r
    by = {}
    for (name, perm, t, want), (ok, why) in zip(items, res):
        run.transitions += 1
        run.validated += 1
        run.states.add((name, perm))
        run.outcome("permutation accepted" if ok else "permutation rejected")
        by.setdefault(name, {}).setdefault(ok, []).append((perm, t, why))
        if ok != want:
            run.violation(f"order of {name} {perm}", f"{'accepted' if ok else 'rejected: ' + why} in this order, must be {'accepted' if want else 'rejected'}", dict(system=t))
    # 2. meaning under all permutations
    jobs = []
    for name, st in consistent(run.thorough):
        problems, meaning = analyse([QT, DT] + st)
        assert not problems, (name, problems)
        for i, perm in enumerate(itertools.permutations(range(len(st)))):
            jobs.append((name, perm, [st[j] for j in perm], meaning))
    for name, st in large(run.thorough):
        problems, meaning = analyse([QT, DT] + st)
        if not problems:
            all_, key = some_orders(len(st))
            for perm in all_[: len(all_) if run.thorough else key]:
                jobs.append((name, tuple(perm), [st[j] for j in perm], meaning))
    per = 20
    mods = []
    for i, (name, perm, st, meaning) in enumerate(jobs):
        mods.append((str(i), module(st, meaning, str(i), i, lambda s: [QT, DT] + s)))
    groups = [mods[i : i + per] for i in range(0, len(mods), per)]
    obs = {}
    for o in pmap(lambda ix: run_group(run, f"p{ix[0]}", art, ix[1]), list(enumerate(groups))):
        obs.update(o)
    first = {}
    for i, (name, perm, st, meaning) in enumerate(jobs):
        o = obs.get(str(i), "no output")
        run.transitions += 1
        run.validated += 1
        if isinstance(o, str):
            run.violation(f"order of {name} {perm}", f"does not compile or run in this order: {o}", dict(system=text(st)))
            continue
        ref_ = first.setdefault(name, {n: v[:2] for n, v in o.items()})
        for n, v in o.items():
            run.transitions += 1
            run.validated += 1
            base = n.removesuffix(" squared")
            kind, f, vec = meaning["names"][base]
            want = {b: x for b, x in zip((x.lower() for x in meaning["bases"]), vec)}
            if n == base and ({k: Fr(x) for k, x in v[1]} != want):
                run.violation(f"order of {name} {perm} {n}", f"exponents {v[1]} instead of {want}", dict(system=text(st)))
            if v[:2] != ref_.get(n):
                run.violation(f"order of {name} {perm} {n}", f"{v[:2]} in this order, {ref_.get(n)} in the first one", dict(system=text(st)))
        run.outcome("permutation used")
    # 3. hash keys
    hjobs = []
    for name, st in list(consistent(True)) + [x for x in large(False) if not analyse([QT, DT] + x[1])[0]]:
        problems, meaning = analyse([QT, DT] + st)
        for s in seeds:
            hjobs.append((name, s, [(str(i), module(st, meaning, str(i), i, lambda x: [QT, DT] + x)) for i in range(copies)]))
    first = {}
    for (name, s, _), o in zip(hjobs, pmap(lambda ix: run_group(run, f"h{ix[0]}", art, ix[1][2], envs[ix[1][1]]), list(enumerate(hjobs)))):
        for i in range(copies):
            run.transitions += 1
            run.validated += 1
            run.states.add((name, "hash", s, i))
            v = o.get(str(i), "no output")
            ref_ = first.setdefault(name, v)
            if isinstance(v, str) or v != ref_:
                what = v if isinstance(v, str) else {n: (x, ref_.get(n) if not isinstance(ref_, str) else ref_) for n, x in v.items() if isinstance(ref_, str) or x != ref_.get(n)}
                run.violation(f"hash keys of {name} {s} {i}", f"expansion {i} with hash key {s} differs from the first: {what}")
            else:
                run.outcome("same under hash key")
    # 4. verdicts under hash keys
    texts = [(name, text([QT, DT] + st)) for name, st in verdict_systems(True)]
    want = {n: not analyse([QT, DT] + st)[0] for n, st in verdict_systems(True)}

    def hv(s):
        src = HEADER + "".join(f"mod m{i}x{k} {{ {t} }}\n" for i, (n, t) in enumerate(texts) for k in range(copies)) + "fn main() {}\n"
        p = run.write(f"hv{s}.rs", src)
        c = rustc(p, run.path(f"hv{s}.meta"), art, extra=["-Z", "no-analysis"], emit_meta=True, env=envs[s])
        lo = HEADER.count("\n") + 1
        bad = {ln - lo for d in c.diags for ln in d.lines}
        return c, bad
    for s, (c, bad) in zip(seeds, pmap(hv, seeds)):
        for i, (n, t) in enumerate(texts):
            ks = [i * copies + k in bad for k in range(copies)]
            run.transitions += copies
            run.validated += copies
            if len(set(ks)) > 1:
                run.violation(f"hash verdict of {n} {s}", f"accepted and rejected depending on the hash keys: {ks}", dict(system=t))
            elif want[n] and ks[0]:
                run.violation(f"hash verdict of {n} {s}", "consistent system rejected", dict(system=t))
            run.outcome("verdict constant under hash keys")
    for n, st in list(verdict_systems(True))[::4]:
        run.sample(f"{n}: all orders of {len(st)} statements -> {'accept' if want[n] else 'reject'}")
    run.assumptions = [f"hash keys explored: {len(seeds)} seeds x {copies} consecutive keys; the macro takes its randomness from getrandom, in one thread",
                       "all orders only of systems with at most six statements (plus the two type statements); of larger systems rotations, reversals, interleavings, exchanges of neighbours and moves to the ends"]
    return run.finish()
