"""P09: prefixes and aliases expand to exactly the documented units and symbols.

Every attribute configuration of a bounded family is one unit; presence and absence of every
candidate name and symbol (all prefixes x all names) is observed in the compiled program."""
import itertools
from fractions import Fraction as Fr

from .core import *
from .p07 import PREFIX, close

PN = [p[0] for p in PREFIX]
BYNAME = {p[0]: p for p in PREFIX}


def orders(attrs, every):
    """All orders of the attributes, or two rotations."""
    if every:
        return [list(x) for x in itertools.permutations(attrs)]
    return [attrs, attrs[::-1]] if len(attrs) > 1 else [attrs]


def configurations(deep):
    """(symbol?, alias attributes, prefixes generated, attribute texts, attribute order)
    as dicts; texts use {n} for the unit's index."""
    alias_sets = [([], []), ([["x"]], ["x"]), ([["x", "y"]], ["x", "y"]), ([["x"], ["y"]], ["x", "y"]), ([["y", "x"], ["w"]], ["y", "x", "w"])]
    pref = [([], [])]
    pref.append((["metric_prefixes"], PN))
    pref.append((["metric_prefixes()"], PN))
    for a in PN:
        pref.append(([f"metric_prefixes(skip: {a})"], [p for p in PN if p != a]))
        pref.append(([f"prefix({a})"], [a]))
        pref.append(([f"metric_prefixes(skip: {a})", f"prefix({a})"], PN))
    for a, b in itertools.combinations(PN, 2):
        if deep or (PN.index(a) + PN.index(b)) % 3 == 0:
            pref.append(([f"metric_prefixes(skip: {b}, {a})"], [p for p in PN if p not in (a, b)]))
            pref.append(([f"prefix({b}, {a})"], [a, b]))
            pref.append(([f"prefix({b})", f"prefix({a},)"], [a, b]))
    pref.append(([f"metric_prefixes(skip: {', '.join(PN)})"], []))
    pref.append(([f"prefix({', '.join(PN)})"], PN))
    pref.append(([f"prefix({', '.join(PN[:8])})", f"metric_prefixes(skip: {', '.join(PN[:8])})"], PN))
    out = []
    core_pref = [pref[0], pref[1], pref[3 + 3 * 5], pref[4 + 3 * 5], pref[5 + 3 * 4]]

    def add(sym, al, pf, every):
        attrs = (["symbol(Q{n})"] if sym else []) + ["alias(" + ", ".join("u{n}" + a for a in grp) + ")" for grp in al[0]] + list(pf[0])
        for o in orders(attrs, every):
            out.append(dict(symbol=sym, aliases=al[1], prefixes=pf[1], attrs=o))

    for sym in (True, False):
        for al in alias_sets:
            for pf in core_pref:
                add(sym, al, pf, True)
    for pf in pref:
        for sym in (True, False):
            for al in alias_sets[:3]:
                if deep or (sym, al[1]) in ((True, []), (False, ["x"]), (True, ["x", "y"])):
                    add(sym, al, pf, deep)
    return out


def build_system(configs, bases):
    """One program: a unit system with these derived unit configurations and base units with
    the configurations `bases`, and probes for every candidate name and symbol."""
    s = "pub mod sys { diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension A; #[base(A)] #[symbol(basea)] unit basea;\n"
    expect, names, syms = {}, [], {}
    allc = [(c, None) for c in configs] + [(c, i) for i, c in enumerate(bases)]
    for n, (c, b) in enumerate(allc):
        attrs = [a.format(n=n) for a in c["attrs"]]
        f = Fr(1)
        if b is not None:
            s += f"dimension B{b}; "
            attrs.insert((b * 2 + 1) % (len(attrs) + 1), f"base(B{b})")
            s += " ".join(f"#[{a}]" for a in attrs) + f" unit u{n}" + (f": B{b}" if b % 2 else "") + ";\n"
        else:
            f = Fr(n + 2)
            s += " ".join(f"#[{a}]" for a in attrs) + f" unit u{n} = {n + 2} * basea;\n"
        want = {"": f}
        for p in c["prefixes"]:
            want[p] = f * Fr(10) ** BYNAME[p][2]
        have = [""] + c["aliases"]
        for a in ["", "x", "y", "w"]:
            for p in [""] + PN:
                if a == "w" and "w" not in c["aliases"] and p not in ("", "kilo"):
                    continue
                nm = f"{p}u{n}{a}"
                names.append((nm, n, want.get(p) if a in have else None))
        probe = []
        for p in [("", "", 0)] + PREFIX:
            probe.append((f"{p[1]}Q{n}", want.get(p[0]) if c["symbol"] else None))
        for a in have:
            probe.append((f"u{n}{a}", None))
            probe.append((f"kilou{n}{a}", None))
        syms[n] = probe
    s += "); pub fn dim<S, const D: Dimension>(_: &Quantity<S, D>) -> String { format!(\"{:?}\", D) }\n"
    s += """pub fn syms<const D: Dimension, const F: Magnitude>(_: Unit<D, F>, l: &[&str]) -> String where Quantity<f64, D>: serde::de::DeserializeOwned {
    l.iter().map(|s| match serde_yaml::from_str::<Quantity<f64, D>>(&format!("1 {s}")) { Ok(q) => format!("{:?}", q.value_unchecked()), Err(_) => "-".to_string() }).collect::<Vec<_>>().join(" ") }
impl<const D: Dimension, const F: Magnitude> super::Probe for Unit<D, F> { fn probe(self) -> String { let q = 1.0f64 * self; format!("{:?} {}", q.value_unchecked(), dim(&q)) } }
}
pub struct Absent; pub trait Probe { fn probe(self) -> String; } impl Probe for Absent { fn probe(self) -> String { "-".to_string() } }
fn p(i: usize, x: impl Probe) { println!("n\\t{i}\\t{}", x.probe()); }
"""
    # inside a function, glob imports take precedence over items of the crate root
    s += "".join(f"const {nm}: Absent = Absent;" for nm, _, _ in names) + "\n"
    fns = []
    for j in range(0, len(names), 200):
        fns.append(f"n{j}")
        s += f"fn n{j}() {{ use sys::units::*; " + " ".join(f"p({k}, {names[k][0]});" for k in range(j, min(j + 200, len(names)))) + " }\n"
    items = list(syms.items())
    for j in range(0, len(items), 50):
        fns.append(f"y{j}")
        s += f"fn y{j}() {{ use sys::units::*; " + " ".join(
            f'println!("s\\t{n}\\t{{}}", sys::syms(u{n}, &[{", ".join(chr(34) + t + chr(34) for t, _ in pr)}]));' for n, pr in items[j : j + 50]) + " }\n"
    s += "fn main() {" + " ".join(f + "();" for f in fns) + "}\n"
    return s, names, syms, allc


def show(c):
    return " ".join(f"#[{a}]" for a in c["attrs"]).replace("{n}", "N")


def main():
    run = Run("P09")
    art = build("si")
    cfg = configurations(run.thorough)
    per = 60
    symb = [c for c in cfg if c["symbol"]]
    jobs = [(cfg[i : i + per], [symb[(i * 7 + k * 131) % len(symb)] for k in range(4)]) for i in range(0, len(cfg), per)]

    def work(ix):
        i, (cs, bs) = ix
        src, names, syms, allc = build_system(cs, bs)
        return run_program(run, f"s{i}", src, art, soft=True), names, syms, allc

    for (res, names, syms, allc) in pmap(work, list(enumerate(jobs))):
        kind, r = res
        if kind == "compile" or r.returncode != 0:
            msg = r.text(600) if kind == "compile" else r.stderr[-300:]
            run.transitions += 1
            run.violation("system does not compile: " + "; ".join(show(c) for c, _ in allc)[:300], msg, [show(c) for c, _ in allc])
            continue
        got, gots = {}, {}
        for line in r.stdout.splitlines():
            t, k, v = line.split("\t")
            (got if t == "n" else gots)[int(k)] = v

        def dims(n):
            b = allc[n][1]
            fields = [("a", int(b is None))] + [(f"b{i}", int(b == i)) for i in range(4)]
            return "Dimension { " + ", ".join(f"{k}: {v}" for k, v in fields) + " }"

        for k, (nm, n, want) in enumerate(names):
            run.transitions += 1
            run.validated += 1
            g = got.get(k, "nothing")
            cfgtext = show(allc[n][0]) + (" base" if allc[n][1] is not None else "")
            if want is None:
                run.outcome("name absent")
                if g != "-":
                    run.violation(f"{cfgtext} name {nm.replace('u%d' % n, 'UNIT')}", f"unit {nm} must not exist, observed {g}", cfgtext)
            else:
                run.outcome("name present")
                f, _, d = g.partition(" ")
                if not close(f, want, 49) or d != dims(n):
                    run.violation(f"{cfgtext} name {nm.replace('u%d' % n, 'UNIT')}", f"unit {nm} must have factor {want} and {dims(n)}, observed {g}", cfgtext)
        for n, probe in syms.items():
            vals_ = gots.get(n, "").split(" ")
            cfgtext = show(allc[n][0])
            run.states.add(cfgtext)
            for j, (t, want) in enumerate(probe):
                run.transitions += 1
                run.validated += 1
                g = vals_[j] if j < len(vals_) else "nothing"
                run.outcome("symbol present" if want is not None else "symbol absent")
                if (want is None and g != "-") or (want is not None and not close(g, want, 49)):
                    run.violation(f"{cfgtext} symbol {t.replace('Q%d' % n, 'SYM').replace('u%d' % n, 'UNIT')}", f"symbol {t} must be {'unknown' if want is None else want}, observed {g}", cfgtext)
    for c in cfg[:: len(cfg) // 10]:
        run.sample(show(c))
    run.outcome("attribute configurations", len(cfg))
    run.assumptions = ["configurations outside the family (more than three aliases, skip sets of 3 to 15 prefixes other than the halves) are not covered; aliases need not be symbols"]
    return run.finish()
