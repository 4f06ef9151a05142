"""P07: the shipped SI system against an independently written table of the SI."""
import re
from fractions import Fraction as Fr

from .core import *

# exponents of (length, time, mass, temperature, current, amount of substance, luminous intensity)
BASE = ["length", "time", "mass", "temperature", "current", "amount_of_substance", "luminous_intensity"]


def d(L=0, T=0, M=0, K=0, I=0, N=0, J=0):
    return (L, T, M, K, I, N, J)


ONE = d()
DIMS = {
    "Length": d(1), "Time": d(0, 1), "Mass": d(0, 0, 1), "Temperature": d(K=1), "Current": d(I=1), "AmountOfSubstance": d(N=1), "LuminousIntensity": d(J=1),
    "Dimensionless": ONE, "Angle": ONE, "SolidAngle": ONE, "Area": d(2), "Volume": d(3), "Wavenumber": d(-1),
    "Frequency": d(T=-1), "Velocity": d(1, -1), "Acceleration": d(1, -2), "Jerk": d(1, -3), "FlowRate": d(3, -1),
    "Momentum": d(1, -1, 1), "Force": d(1, -2, 1), "Energy": d(2, -2, 1), "Power": d(2, -3, 1), "Pressure": d(-1, -2, 1), "Action": d(2, -1, 1),
    "MassDensity": d(-3, 0, 1), "MomentOfInertia": d(2, 0, 1), "AngularMomentum": d(2, -1, 1), "Torque": d(2, -2, 1), "EnergyDensity": d(-1, -2, 1), "MassFlow": d(0, -1, 1),
    "ElectricCharge": d(T=1, I=1), "Voltage": d(2, -3, 1, I=-1), "Capacitance": d(-2, 4, -1, I=2), "ElectricResistance": d(2, -3, 1, I=-2), "Resistivity": d(3, -3, 1, I=-2),
    "ElectricConductance": d(-2, 3, -1, I=2), "Conductivity": d(-3, 3, -1, I=2), "MagneticFluxDensity": d(0, -2, 1, I=-1), "MagneticFlux": d(2, -2, 1, I=-1),
    "MagneticFieldStrength": d(-1, I=1), "Inductance": d(2, -2, 1, I=-2), "ElectricChargeDensity": d(-3, 1, I=1), "CurrentDensity": d(-2, I=1),
    "ElectricDipoleMoment": d(1, 1, I=1), "ElectricQuadrupoleMoment": d(2, 1, I=1), "MagneticDipoleMoment": d(2, I=1), "ElectricFieldStrength": d(1, -3, 1, I=-1),
    "ElectricDisplacementFieldStrength": d(-2, 1, I=1), "ElectricPermittivity": d(-3, 4, -1, I=2), "MagneticPermeability": d(1, -2, 1, I=-2),
    "Polarizability": d(0, 4, -1, I=2), "ElectricMobility": d(0, 2, -1, I=1),
    "Entropy": d(2, -2, 1, -1), "HeatCapacity": d(2, -2, 1, -1), "SpecificHeatCapacity": d(2, -2, 0, -1), "ThermalConductivity": d(1, -3, 1, -1), "ThermalTransmittance": d(0, -3, 1, -1),
    "MolarMass": d(M=1, N=-1), "MolarVolume": d(3, N=-1), "CatalyticActivity": d(T=-1, N=1), "Molarity": d(-3, N=1), "Molality": d(M=-1, N=1), "ChemicalPotential": d(2, -2, 1, N=-1),
    "MolarHeatCapacity": d(2, -2, 1, -1, N=-1), "LuminousFlux": d(J=1), "Illuminance": d(-2, J=1), "Irradiance": d(0, -3, 1),
    "Activity": d(T=-1), "AbsorbedDose": d(2, -2), "EquivalentDose": d(2, -2), "SpecificActivity": d(0, -1, -1), "DynamicViscosity": d(-1, -1, 1), "KinematicViscosity": d(2, -1),
    "MomentumDensity": d(-2, -1, 1), "SpecificEnergy": d(2, -2), "MassFlux": d(-2, -1, 1), "EnergyFlux": d(0, -3, 1),
}
PREFIX = [("exa", "E", 18), ("peta", "P", 15), ("tera", "T", 12), ("giga", "G", 9), ("mega", "M", 6), ("kilo", "k", 3), ("hecto", "h", 2), ("deca", "da", 1),
          ("deci", "d", -1), ("centi", "c", -2), ("milli", "m", -3), ("micro", "μ", -6), ("nano", "n", -9), ("pico", "p", -12), ("femto", "f", -15), ("atto", "a", -18)]
PI = Fr("3.14159265358979323846264338327950288419716939937510")
J = d(2, -2, 1)
# names, symbol, takes prefixes, factor, dimension
UNITS = [
    ("meter metre metres meters", "m", 1, 1, d(1)), ("second seconds", "s", 1, 1, d(0, 1)), ("kilogram kilograms", "kg", 0, 1, d(M=1)),
    ("gram grams", "g", "kilo", Fr(1, 1000), d(M=1)), ("ampere amperes", "A", 1, 1, d(I=1)), ("kelvin kelvins", "K", 1, 1, d(K=1)), ("mole moles", "mol", 1, 1, d(N=1)),
    ("candela candelas", "cd", 1, 1, d(J=1)), ("radian radians", "rad", 1, 1, ONE), ("steradian steradians", "sr", 1, 1, ONE), ("hertz", "Hz", 1, 1, d(T=-1)),
    ("newton newtons", "N", 1, 1, d(1, -2, 1)), ("pascal pascals", "Pa", 1, 1, d(-1, -2, 1)), ("joule joules", "J", 1, 1, J), ("watt watts", "W", 1, 1, d(2, -3, 1)),
    ("coulomb coulombs", "C", 1, 1, d(T=1, I=1)), ("volt volts", "V", 1, 1, d(2, -3, 1, I=-1)), ("farad farads", "F", 1, 1, d(-2, 4, -1, I=2)), ("ohm ohms", "Ω", 1, 1, d(2, -3, 1, I=-2)),
    ("siemens", "S", 1, 1, d(-2, 3, -1, I=2)), ("weber webers", "Wb", 1, 1, d(2, -2, 1, I=-1)), ("tesla teslas", "T", 1, 1, d(0, -2, 1, I=-1)), ("henry henrys", "H", 1, 1, d(2, -2, 1, I=-2)),
    ("lumen lumens", "lm", 1, 1, d(J=1)), ("lux", "lx", 1, 1, d(-2, J=1)), ("becquerel becquerels", "Bq", 1, 1, d(T=-1)), ("gray grays", "Gy", 1, 1, d(2, -2)), ("sievert sieverts", "Sv", 1, 1, d(2, -2)),
    ("katal katals", "kat", 1, 1, d(T=-1, N=1)),
    ("minute minutes", "min", 0, 60, d(0, 1)), ("hour hours", "h", 0, 3600, d(0, 1)), ("day days", "day", 0, 86400, d(0, 1)), ("astronomicalunit astronomicalunits", "au", 0, 149597870700, d(1)),
    ("degree degrees", "deg", 0, PI / 180, ONE), ("arcminute arcminutes", None, 0, PI / 10800, ONE), ("arcsecond arcseconds", None, 0, PI / 648000, ONE),
    ("are ares", None, 0, 100, d(2)), ("hectare hectares", "ha", 0, 10000, d(2)), ("litre litres", "l", 1, Fr(1, 1000), d(3)), ("tonne tonnes", None, 1, 1000, d(M=1)),
    ("dalton daltons", "Da", 0, Fr("1.66053906660e-27"), d(M=1)), ("electronvolt electronvolts", "eV", 1, Fr("1.602176634e-19"), J),
    ("joule_per_kilogram joules_per_kilogram", None, 1, 1, d(2, -2)), ("joule_per_kilogram_kelvin joules_per_kilogram_kelvin", None, 1, 1, d(2, -2, 0, -1)),
    ("meter_per_second meters_per_second", None, 1, 1, d(1, -1)), ("square_meter square_metre square_meters square_metres", None, 0, 1, d(2)), ("cubic_meter cubic_metre cubic_meters cubic_metres", None, 0, 1, d(3)),
]
CONSTANTS = [("PI", PI, ONE)]

PRE = """
use diman::si::{units, constants, dimensions, Quantity, Dimension};
use std::str::FromStr;
fn dim<S, const D: Dimension>(_: &Quantity<S, D>) -> String { format!("{:?}", D) }
fn two<const D: Dimension>(a: Quantity<f64, D>, b: Quantity<f32, D>) -> String { format!("{:?} {:?} {}", a.value_unchecked(), b.value_unchecked(), dim(&a)) }
fn parse<const D: Dimension>(s: &str, a: Quantity<f64, D>, b: Quantity<f32, D>) -> String {
    let y = match serde_yaml::from_str::<Quantity<f64, D>>(s) { Ok(x) => format!("{:?}", x.value_unchecked()), Err(e) => format!("ERR {e}") };
    let z = match serde_json::from_str::<Quantity<f32, D>>(&format!("\\"{s}\\"")) { Ok(x) => format!("{:?}", x.value_unchecked()), Err(e) => format!("ERR {e}") };
    format!("{y} {z} {}", dim(&a))
}
"""


def parse_dim(s):
    m = re.search(r"\{(.*)\}", s)
    if not m:
        return None
    f = dict(x.strip().split(": ") for x in m.group(1).split(","))
    return tuple(int(f.pop(b)) for b in BASE) if set(f) == set(BASE) else None


def close(got, want, bits):
    try:
        g = Fr(float(got))
    except (ValueError, OverflowError):
        return False
    return abs(g - want) <= abs(want) * Fr(1, 2**bits)


def main():
    run = Run("P07")
    cs = []

    def unit(name, factor, dims, path):
        cs.append(Obs(f"{path}::{name}", f"two(1.0f64 * {path}::{name}, 1.0f32 * {path}::{name})", (Fr(factor), dims)))

    allsyms = {}
    for names, sym, pre, factor, dims in UNITS:
        pref = [("", "", 0)] + ([p for p in PREFIX if p[0] != pre] if pre else [])
        for pn, ps, e in pref:
            F = Fr(factor) * Fr(10) ** e
            for n in names.split():
                unit(pn + n, F, dims, "units")
            if sym:
                assert ps + sym not in allsyms, ps + sym
                allsyms[ps + sym] = (F, dims)
                n0 = pn + names.split()[0]
                for text, mul in ((f"1 {ps + sym}", 1), (f"2.5 {ps + sym}", Fr(5, 2)), (f"1.0 {ps + sym}^2 {ps + sym}^-1", 1)):
                    cs.append(Obs(f"symbol {text!r}", f'parse("{text}", 1.0f64 * units::{n0}, 1.0f32 * units::{n0})', (F * mul, dims)))
    for n, f, dm in CONSTANTS:
        unit(n, f, dm, "constants")
    for n, dm in DIMS.items():
        cs.append(Obs(f"dimensions::{n}", f"let q: dimensions::{n}<f64> = Quantity::new_unchecked(1.0); let r: dimensions::{n}<f32> = Quantity::new_unchecked(1.0); two(q, r)", (Fr(1), dm)))
    observe(run, "si", PRE, cs, build("si"), chunk=len(cs) // JOBS + 1)

    def ok(c):
        F, dims = c.expect
        p = c.got.split(" ", 2)
        if len(p) < 3:
            return False
        # f32 covers only part of the range of factors
        f32ok = close(p[1], F, 20) or not (Fr(1, 10**30) < F < Fr(10) ** 30)
        return close(p[0], F, 49) and f32ok and parse_dim(p[2]) == dims

    for c in cs:
        run.states.add(c.key)
    check_observations(run, cs, cmp=ok)
    run.outcome("unit names", sum(c.key.startswith("units::") for c in cs))
    run.outcome("symbol texts", sum(c.key.startswith("symbol") for c in cs))
    run.outcome("named dimensions", len(DIMS))
    for c in cs[:: len(cs) // 10]:
        run.sample(f"{c.key}: {c.got}")
    run.assumptions = ["the table in vlib/p07.py is the oracle (SI brochure 9th edition, units accepted for use with the SI, CODATA 2018 dalton); names the module exports beyond the table are not judged",
                       "factors may differ from the exact rational by 2^-49 relative (f64) and 2^-20 (f32), which covers the rounding of chained definitions"]
    return run.finish()
