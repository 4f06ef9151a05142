"""P21: conversion factors keep the full range and precision of the number given.

Enumerates number literals: every binary exponent of the double range (all subnormal ones too) x
mantissa patterns x sign, every decimal exponent x digit strings, decimal expansions halfway
between neighbouring doubles, and the ways to write literals; each is the factor of a unit and of a
constant, in several positions, and every conversion with it is compared bit for bit with the
arithmetic on the number (as parsed by the reference)."""
import struct
from decimal import Decimal, getcontext
from fractions import Fraction as Fr

from .core import *

getcontext().prec = 1200


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def val(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def dec(fr):
    """exact decimal expansion of a dyadic rational"""
    d = Decimal(fr.numerator) / Decimal(fr.denominator)
    s = format(d, "e")
    return s


def binary(patterns):
    """bit patterns: every exponent x mantissas, and every position of the leading bit of subnormals"""
    out = []
    for e in range(1, 2047):
        for m in patterns:
            out.append((e << 52) | m)
    for k in range(52):
        for m in {1 << k, (1 << (k + 1)) - 1, (1 << k) | 1, (1 << k) | (0xAAAAAAAAAAAAA & ((1 << k) - 1))}:
            out.append(m)
    return sorted(set(out))


PATTERNS = [0, (1 << 52) - 1, 0x5555555555555]
DEEP = PATTERNS + [1, 0xAAAAAAAAAAAAA, 1 << 51, (1 << 52) - 2, 0x9249249249249, 0x123456789ABCD, 0xFEDCBA9876543, (1 << 26) - 1, ((1 << 26) - 1) << 26, 0x8000000000001, 3, 0x3333333333333]


def literals(deep):
    """(text, value bits)"""
    out = {}

    def add(text, v=None):
        f = float(text.replace("_", "")) if v is None else v
        if f == f and abs(f) != float("inf"):
            out.setdefault(text, bits(f))

    for i, b in enumerate(binary(DEEP if deep else PATTERNS)):
        r = repr(val(b))
        add(r if "." in r or "e" in r else r + ".0")
        if i % 4 == 0:
            add("-" + r)
    # decimal exponents
    digits = ["1", "9.999999999999999", "2.2250738585072014", "4.9406564584124654", "1.7976931348623157", "3.333333333333333333333333", "8.5"] + (["1.23456789012345678", "6.62607015", "5.00000000000000000001", "7"] if deep else [])
    for e in range(-330, 309):
        for d in digits:
            add(f"{d}e{e}")
    # whole numbers
    for k in range(0, 40):
        add("1" + "0" * k)
        add("1" + "0" * k + ".0")
        add("9" * (k + 1))
    for k in range(64):
        for n in ((1 << k) - 1, 1 << k, (1 << k) + 1):
            add(str(n), float(n))
            add(hex(n), float(n))
            if k % 8 == 0:
                add(bin(n), float(n))
                add(oct(n), float(n))
    for n in (2**53 + 1, 2**54 + 2, 2**63 - 1, 2**63, 2**64 - 1):
        add(str(n), float(n))
    for n in (2**64, 2**100, 10**38, 2**127 - 1):
        add(str(n), float(n))
    # forms
    for t in ["1.", "0.", "0", "0.0", "-0.0", "00012.50", "1e0", "1E5", "1e+5", "1.5E-7", "1_000", "1_000.000_1", "1e1_0", "0.000_000_1", "12_", "1__2", "5u8", "7i64", "2.5f64", "3f64", "1e3f64", "0x1F", "0xff_ff", "0b1010", "0o777", "-17", "-0x10", "-1e-300",
              "0." + "0" * 300 + "1", "1" + "0" * 300 + ".0", "0." + "3" * 400, "123456789" * 20 + ".5"]:
        u = t.replace("_", "")
        neg, body = (-1, u[1:]) if u[0] == "-" else (1, u)
        for suf in ("u8", "i64", "f64"):
            if body.endswith(suf) and not body.startswith("0x"):
                body = body[: -len(suf)]
        f = float(int(body, 0)) if body[:2] in ("0x", "0b", "0o") else float(body)
        add(t, neg * f if neg < 0 else f)
    # halfway between two neighbouring doubles, and just beside
    for e in range(-1074, 1023, 4 if deep else 24):
        for m in (0, 1, (1 << 52) - 1, 0x5555555555555):
            b = bits(2.0**e) + (m if e >= -1022 else 0)
            lo, hi = Fr(val(b)), Fr(val(b + 1))
            mid = dec((lo + hi) / 2)
            man, ex = mid.split("e")
            man = man + ("" if "." in man else ".0")
            for t in (man, man + "0000000001"):
                add(f"{t}e{int(ex)}")
    return list(out.items())


SUP = r"""
fn same64(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
fn same32(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
"""
XS64 = "[1.0f64, 3.0, -0.1, 1e-5, 7e200, 5e-324]"
XS32 = "[1.0f32, 3.0, -0.1, 1e-5, 3e38, 1e-45]"


def module(i, lits):
    """positions of the literal: unit (literal first, last, juxtaposed), constant, dimensionless"""
    defs, tests = [], []
    for k, (t, b) in lits:
        form = [f"{t} * base", f"base * {t}", f"{t} base"][k % 3]
        defs.append(f"unit u{k} = {form};")
        defs.append(f"constant C{k} = {[f'base * {t}', f'{t} base', f'{t} * base'][k % 3]};")
        if k % 4 == 0:
            defs.append(f"unit n{k} = {t};")
            tests.append(f"t!({k}, \"number\", f64::from_bits({b:#x}), units::n{k}, N);")
        tests.append(f't!({k}, "unit", f64::from_bits({b:#x}), units::u{k}, L); t!({k}, "constant", f64::from_bits({b:#x}), constants::C{k}, L);')
    return f"""mod m{i} {{ use super::*; pub mod sys {{ diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension L; dimension N = 1; #[base(L)] #[symbol(b)] unit base; {' '.join(defs)} ); }} use sys::*;
 macro_rules! t {{ ($k: expr, $w: expr, $f: expr, $u: expr, $d: ident) => {{ a64($k, $w, $f, |x| {{ let q: dimensions::$d<f64> = x * $u; q.value_unchecked() }}, |x| {{ let q: dimensions::$d<f64> = Quantity::new_unchecked(x); q.value_in($u) }}, |x| {{ let q: dimensions::$d<f64> = $u * x; q.value_unchecked() }}); a32($k, $w, $f, |x| {{ let q: dimensions::$d<f32> = x * $u; q.value_unchecked() }}, |x| {{ let q: dimensions::$d<f32> = Quantity::new_unchecked(x); q.value_in($u) }}); }} }}
 {' '.join(f'fn f{j}() {{ {" ".join(tests[j:j+50])} }}' for j in range(0, len(tests), 50))}
 pub fn main() {{ {' '.join(f'f{j}();' for j in range(0, len(tests), 50))} }} }}
"""


HEAD = SUP + f"""
static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn bad(k: usize, w: &str, m: String) {{ println!("{{k}}\\t{{w}}\\t{{m}}"); }}
fn a64(k: usize, w: &str, f: f64, new: fn(f64) -> f64, inn: fn(f64) -> f64, rev: fn(f64) -> f64) {{ N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
  for x in {XS64} {{
   if !same64(new(x), x * f) {{ return bad(k, w, format!("{{x:e}} * unit = {{:e}} instead of {{:e}}", new(x), x * f)); }}
   if !same64(rev(x), x * f) {{ return bad(k, w, format!("unit * {{x:e}} = {{:e}} instead of {{:e}}", rev(x), x * f)); }}
   if !same64(inn(x), x / f) {{ return bad(k, w, format!("{{x:e}} in unit = {{:e}} instead of {{:e}}", inn(x), x / f)); }} }} }}
fn a32(k: usize, w: &str, f: f64, new: fn(f32) -> f32, inn: fn(f32) -> f32) {{ N.fetch_add(1, std::sync::atomic::Ordering::Relaxed); let f = f as f32;
  for x in {XS32} {{
   if !same32(new(x), x * f) {{ return bad(k, w, format!("{{x:e}}f32 * unit = {{:e}} instead of {{:e}}", new(x), x * f)); }}
   if !same32(inn(x), x / f) {{ return bad(k, w, format!("{{x:e}}f32 in unit = {{:e}} instead of {{:e}}", inn(x), x / f)); }} }} }}
"""


def main():
    run = Run("P21")
    art = build("core", fast=True)
    lits = list(enumerate(literals(run.thorough)))
    per = 300
    chunks = [lits[i : i + per] for i in range(0, len(lits), per)]

    def go(i, ls):
        src = HEAD + module(i, ls) + f'fn main() {{ m{i}::main(); println!("DONE\\t{{}}", N.load(std::sync::atomic::Ordering::Relaxed)); }}\n'
        return run_program(run, f"l{i}", src, art, soft=True)

    def work(ix):
        i, ls = ix
        kind, r = go(i, ls)
        if kind == "ran":
            return [(ls, r)]
        # find the literals that are refused
        out = []
        rest = []
        for k, x in ls:
            src = HEADER + f"pub mod sys {{ diman::unit_system!( quantity_type Quantity; dimension_type Dimension; dimension L; #[base(L)] #[symbol(b)] unit base; unit u = {x[0]} * base; ); }} fn main() {{}}\n"
            p = run.write(f"one{i}.rs", src)
            (rest if rustc(p, p[:-3] + ".rmeta", art, emit_meta=True).ok else out).append((k, x))
        bad = [([l], "refused") for l in out]
        if out and rest:
            kind, r2 = go(i, rest)
            if kind == "ran":
                return bad + [(rest, r2)]
            r = r2
        return bad + ([(rest, r)] if rest else [])

    for res in pmap(work, list(enumerate(chunks))):
        for ls, r in res:
            run.states.update(x[1] for _, x in ls)
            if r == "refused":
                run.transitions += 1
                run.validated += 1
                run.violation(f"literal {ls[0][1][0]}", "is refused")
                continue
            text = {k: x for k, x in ls}
            if isinstance(r, Compiled):
                run.transitions += 1
                run.violation(f"literals {ls[0][1][0]}...", "do not compile: " + r.text(600))
                continue
            done = False
            for l in r.stdout.splitlines():
                f = l.split("\t")
                if f[0] == "DONE":
                    done = True
                    n = int(f[1])
                    run.transitions += n * 15
                    run.validated += n * 15
                    run.outcome("unit or constant x float type", n)
                else:
                    k = int(f[0])
                    run.violation(f"{f[1]} {text[k][0][:60]}", f[2], dict(literal=text[k][0]))
            if not done:
                run.transitions += 1
                run.violation(f"literals {ls[0][1][0]}...", f"program failed: {r.stderr[-300:]}")
    run.outcome("literals", len(lits))
    for k, x in lits[:: len(lits) // 8]:
        run.sample(f"{x[0][:60]} = {val(x[1])!r}")
    run.assumptions = ["mantissas outside the patterns are not covered; numbers with other suffixes than u8, i64 and f64 are not covered"]
    return run.finish()
