ALL = " Bounded: says nothing about values, texts or dimension vectors outside the stated alphabets and boxes; trusts rustc, cargo and the Python reference model."
NOTES = {
 "P01": ("explicit-state exploration of the dimension-vector transition system, every transition replayed as a compiled program",
         "All operations on all dimension vectors of the boxes (1-7 base dimensions) and all operation chains up to the depth are replayed; since the dimension is read off the type, each replay decides all values." + ALL),
}
NOTES["P02"] = ("exhaustive exploration of (construct, dimension pair) programs, each decided by the real compiler and compared with the model's verdict",
    "Every construct template at every pair of dimension vectors of the box is compiled; both directions (accepted/rejected) are compared with the model." + ALL)
NOTES["P03"] = ("exhaustive execution of every operator form on the full product of a value alphabet, against the bare storage operation",
    "Every generated operator instance reachable from the public API is executed on the product of the alphabets and compared bit for bit." + ALL)

def _n(i, tech, note):
    NOTES[i] = (tech, note + ALL)
_n("P04", "exhaustive execution of every method on products of a value alphabet against the float method of the same name", "Every scalar method x float type x dimension is executed on all values/pairs/triples of the alphabet.")
_n("P05", "exhaustive execution of every vector method on products of a component alphabet and exhaustive exploration of component-replacement histories", "Every method of the four vector types on all (pairs of) vectors over the alphabet, all setter histories to the depth.")
_n("P06", "exhaustive enumeration of unit/number/quantity combination forms over all ordered pairs of units, each executed on a value alphabet and compared with the reference model", "Every impl of the unit types is reached with distinct factors and dimensions; result type and value are compared.")
_n("P07", "exhaustive comparison of every name, prefix, alias, symbol and dimension of the SI module with an independent reference table", "The whole finite name space of the table is executed, for both float types and both text formats.")
_n("P08", "exhaustive enumeration of definition expressions up to a bounded tree size, each expanded by the real macro and compared with a reference evaluator", "Factors and dimensions are compared for every expression of the grammar within the bounds and every reference chain.")
_n("P09", "exhaustive enumeration of attribute lists (prefixes, skips, aliases, symbols), the complete generated name and symbol sets compared with the model", "Presence and absence of every candidate name and symbol is probed.")
_n("P10", "exhaustive exploration of all statement permutations and a grid of controlled hash keys of the macro process", "Every permutation of the systems is expanded by the real macro; hash keys are fixed with a getrandom stand-in and enumerated (the orders reached are counted in the evidence).")
_n("P11", "exhaustive enumeration of a bounded family of unit systems, the verdict of the real macro compared with a reference semantics", "All dependency graphs over three names, all annotation/expression pairs, symbol clashes, base unit choices, attribute lists.")
_n("P12", "exhaustive enumeration of the consistent systems of a bounded family, each expanded, compiled and used, and compared with a reference semantics", "Acceptance for all, complete compilation and use for a fixed part in the quick tier and all in the thorough tier.")
_n("P13", "exhaustive exploration of all dimension vectors of a box (several unit systems) crossed with values and formatting options, each printed by the real code and parsed back by the reference model", "Every dimension is printed; the printed unit expression is evaluated by an independent model of the system.")
_n("P14", "exhaustive round trips: every dimension vector of a box, every storage, a value alphabet (thorough: all 2^32 bit patterns of f32), two formats, integer and rational exponents", "Every value is serialised, checked, deserialised, compared bit for bit; every ordered pair of dimensions is tried for refusal.")
_n("P15", "exhaustive enumeration of token strings up to a bounded length for every requested dimension and storage, compared with a reference parser", "Strings over the token alphabet, in two formats; where the statement does not decide (spelling of numbers) any value-preserving answer is allowed.")
_n("P16", "explicit-state exploration of rational exponents under product, quotient, power and root, every transition replayed as a type equality decided by the compiler", "All transitions inside the box and all chains up to the depth are compiled.")
_n("P17", "exhaustive execution over pairs of bounds x scripted generator outputs x entry points, compared with the float distribution under the same generator", "The generator is scripted: boundary outputs and bit patterns, sequences of draws are enumerated.")
_n("P18", "exhaustive execution over storages x dimensions x array lengths x transfer forms and all orders of first use of the MPI datatypes, compared with the bare numbers", "HDF5 files and MPI messages are read back as quantities and as bare numbers; one MPI process.")
_n("P19", "exhaustive enumeration of a covering part of the lattice of feature combinations (quick: every presence/absence pattern of every three features, thorough: of every five, optionally all), each built by cargo, probed by a compiled program and compared with all others", "Faults that need one particular combination of more than three (five) features escape the quick (thorough) tier.")
_n("P20", "explicit-state exploration of all histories of updating and reading operations up to a depth over two registers and a bare number, each step compared with the bare storage", "All sequences of the alphabet (55-101 operations per storage) up to length 4 or 5; the values are those the histories reach.")
_n("P21", "exhaustive enumeration of number literals (every binary exponent x mantissa patterns, every subnormal bit position, every decimal exponent, halfway decimals, literal forms), each used as unit and constant and compared bit for bit", "Every literal is expanded by the real macro, in three positions, for both float types and all conversion forms.")
_n("P22", "exhaustive enumeration of the inconsistent systems of a bounded family and of all combinations of independent faults, the locations of the real macro's errors compared with a reference semantics of fault", "Every system is expanded by the real macro, one statement per line; which statements are at fault is computed on the dependency graph.")
_n("P23", "exhaustive enumeration of (place of definition, place and way of use) x (operator forms, methods, unit combinations, capabilities), each compiled as real crates, executed and compared with the bare storage", "Ten ways of defining and importing a system, each with every statement of the suites of P03-P06 (for most places: one float and one vector storage).")
_n("P24", "exhaustive enumeration of the token strings around well-formed unit systems and of all short token strings as definitions, exponents and attributes, each expanded by the real macro and compared with a reference parser; the meaning of what is accepted is compared with compiled programs", "One edit around two systems with 40 replacement tokens, all strings up to 3-6 tokens (thorough: one more, and two edits around a short text).")
