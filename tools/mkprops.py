import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    d['anchors'].update(kw)
    P.append(d)
CG='crates/diman_unit_system/src/codegen/'
R='crates/diman_unit_system/src/'
p('P01','Every arithmetic result carries exactly the dimension algebra prescribes',
 "Every operation on quantities has a result type whose dimension is the algebraically correct one: exponents add under multiplication, subtract under division, are negated under reciprocal, are multiplied by n under integer powers (including squares and cubes), are divided by 2 or 3 under square and cube roots, and are unchanged by addition, subtraction, negation, absolute value, scaling by a bare number, min, max, clamp, rounding of dimensionless values and summation. The same holds for every reference form of the operands, for scalar and vector storage and their mixed products, for the vector methods dot, length, distance, squared distance and normalisation, and for every chain of such operations.",
 ['programs','inputs'],'every operand dimension vector in a bounded box, every operation and reference form, and every chain of operations that stays inside the box, in systems of one to four base dimensions',
 'A test fixes a handful of concrete dimensions (length/time); a slip for one exponent, one sign, one reference form or one base dimension of many is invisible to it, since dimensions are types and each combination is a different instantiation.',
 [CG+'dimension_type.rs',CG+'num_traits/operator_trait.rs',CG+'num_traits/mod.rs',CG+'float_methods.rs',CG+'vector_methods.rs',CG+'generic_methods.rs'],
 [('const dimension arithmetic','Dimension::{add,sub,neg,mul,div_2,div_3} generated in codegen/dimension_type.rs'),('output types','OperatorTrait::output_quantity_dimension in codegen/num_traits/operator_trait.rs'),('method result types','codegen/float_methods.rs, codegen/vector_methods.rs')])
p('P02','Dimensionally inconsistent programs never compile, consistent ones do',
 "A program that adds, subtracts, compares, assigns, passes, returns, selects the minimum, maximum or a clamp of, accumulates, or samples between quantities of different dimensions is rejected by the compiler; so is one that reads out a dimensionful quantity as a bare number, mixes it additively with a bare number, applies a transcendental function to it, scales it in place by a dimensionful factor, converts it with a unit of a different dimension, or takes a root its dimension does not have. The same program with matching dimensions compiles.",
 ['programs'],'every construct in a list of about ninety templates (all operators, reference forms, methods, conversions, type positions; float and vector storage) instantiated at every pair of dimensions of a bounded set',
 'compile_fail tests pin a few literal snippets; that no impl, blanket impl or bound lets some other pair of dimensions through is a statement about all pairs and constructs.',
 [CG+'num_traits/operator_trait.rs',CG+'num_traits/mod.rs',CG+'quantity_type.rs',CG+'float_methods.rs',CG+'vector_methods.rs',CG+'rand.rs',CG+'unit_type.rs'],
 [('dimension type parameter','Quantity<S, const D: Dimension> in codegen/quantity_type.rs'),('operator impl selection','iter_numeric_traits in codegen/num_traits/operator_trait.rs'),('root guards','sqrt_safety/cbrt_safety in codegen/dimension_type.rs'),('unit conversion','value_in in codegen/quantity_type.rs')])
p('P03','Quantity operators compute exactly what the bare storage type computes',
 "For every operator (addition, subtraction, multiplication, division, their compound assignments, negation, equality and ordering, summation of iterators), every operand kind (quantity, dimensionless quantity, bare number, bare vector), every by-value, by-reference and by-mutable-reference form and every storage type (the float and vector types as well as types of the user's own), the stored value of the result is bit for bit the value the same operation gives on the bare storage, with operands in the same order. Summing an iterator adds its elements in order, starting from zero. This includes not-a-number, infinities, signed zeros and subnormal values.",
 ['inputs','programs'],'every (operator, operand kind, reference form, storage pair) that the library offers crossed with all pairs of a value alphabet with special values',
 'Operator code is generated per (operator, reference form, kind, storage), several hundred instances; tests exercise some at one pair of values, where swapped operands or a wrong form may coincide.',
 [CG+'num_traits/operator_trait.rs',CG+'num_traits/mod.rs',CG+'quantity_type.rs'],
 [('generated operator bodies','OperatorTrait::fn_return_expr in codegen/num_traits/operator_trait.rs'),('sum and negation','codegen/num_traits/mod.rs')])
p('P04','Scalar quantity methods agree with the float methods of the same name',
 "For every finite or special float value and every dimension on which they are available, the mathematical methods of a scalar quantity (powers, roots, absolute value, min, max, clamp, exponential, logarithmic, trigonometric and hyperbolic functions, rounding, sign predicates, not-a-number test, zero, raw value accessors) return the result of the float operation of that name on the stored value. Arguments are used in the documented order and conversions of bare numbers to dimensionless arguments do not alter them.",
 ['inputs','programs'],'every method, both float types, all (pairs/triples of) values of an alphabet with special values, several dimensions',
 'The methods are one-line forwards generated from a list; tests check some at one value, where a neighbouring function, swapped bounds or a wrong predicate at zero or NaN is indistinguishable.',
 [CG+'float_methods.rs',CG+'generic_methods.rs',CG+'quantity_type.rs',CG+'num_traits/mod.rs'],
 [('method forwarding','all_dimensionless_float_methods and specific_float_methods in codegen/float_methods.rs'),('raw value access','codegen/quantity_type.rs')])
p('P05','Vector quantities behave component-wise like the bare vector',
 "For two- and three-component vector storage of both precisions, constructing a vector quantity from components, along an axis, reading or replacing one component, and computing length, distance, squared distance, dot product, normalisation, absolute value and component-wise minimum and maximum give exactly the components the bare vector type gives. Replacing a component leaves the others untouched and every component accessor addresses its own axis.",
 ['inputs','histories'],'all vector types, all pairs of vectors over a component alphabet, and all sequences of component replacements up to a depth',
 'The four vector types are generated separately and most methods have no test at all; axis mix-ups are invisible on symmetric inputs.',
 [CG+'vector_methods.rs',CG+'generic_methods.rs',CG+'storage_types.rs'],
 [('vector methods','impl_vector_methods in codegen/vector_methods.rs'),('storage list','vector_types in codegen/storage_types.rs')])
p('P06','Creating and converting with units scales by exactly the unit',
 "A number times a unit (in either order), a unit applied to a number, and a quantity multiplied or divided by a unit scale the stored value by the unit's conversion factor; dividing a number by a unit, or a unit by a number or a quantity, gives the reciprocal relation in both value and dimension. Products and quotients of units and constants behave as the unit with the product or quotient factor and dimension. Reading a quantity out in a unit divides by its factor, so reading back in the unit of creation gives the original number up to one rounding of multiplication and division, and exactly when the factor is a power of two.",
 ['inputs','programs'],'all ordered pairs of units of a system whose factors and dimensions are all distinct, every combination form (number, quantity, unit, product of units, constant on either side, of either operator), all storages, all values of an alphabet',
 'The impls are written out separately for each of the roughly thirty (left, right, operator) combinations and storages; tests use a few with factor one or symmetric values.',
 [CG+'unit_type.rs',CG+'quantity_type.rs','crates/diman_lib/src/magnitude.rs'],
 [('unit arithmetic impls','gen_unit_trait_impls and gen_unit_numeric_traits_impls_for_type in codegen/unit_type.rs'),('value_in','codegen/quantity_type.rs'),('factor arithmetic','crates/diman_lib/src/magnitude.rs')])
p('P07','The shipped SI system matches the definitions of the SI',
 "Every unit, alias and prefixed unit of the shipped SI module has the conversion factor and dimension that the SI brochure (or the accepted definition of the unit) assigns, every shipped constant has its value, and every named dimension has its SI exponents. Every symbol parses to the unit it belongs to.",
 ['configurations','inputs'],'all units (with every prefix and alias), constants, symbols and named dimensions the module exports, against an independently written table',
 'The module exports over a thousand names; tests look at a handful. A wrong exponent or digit in one definition is silently wrong physics.',
 ['src/si.rs',R+'types/prefixes.rs'],
 [('SI definitions','unit_system! invocation in src/si.rs'),('prefix table','make_prefix_enum in crates/diman_unit_system/src/types/prefixes.rs')])
p('P08','Definition expressions denote their mathematical value and dimension',
 "A unit, constant or dimension defined by an expression has the factor and dimension obtained by evaluating that expression with left-associative multiplication and division, juxtaposition as multiplication, parentheses grouping, and powers binding tightest and applying to both the factor and the dimension of the operand, with integer exponents and, where rational dimensions are enabled, rational ones. References to units and constants stand for their resolved factor and dimension, at any depth of reference.",
 ['programs'],'all expressions up to a bounded number of operators over the full operator alphabet (product, quotient, juxtaposition, grouping, positive, zero and negative powers, numbers, units, constants), and all reference chains up to a bounded depth, in unit, constant and dimension position',
 'Parsing and evaluation errors (associativity, precedence, juxtaposition after a group, power of a factor) show only for particular shapes of expression; unit tests try about ten shapes.',
 [R+'parse/mod.rs',R+'types/expression.rs',R+'dimension_math.rs',R+'resolve/ident_storage.rs','crates/diman_lib/src/dimension_exponent.rs','crates/diman_lib/src/magnitude.rs'],
 [('expression parser','impl Parse for Expr/Factor/Operator in parse/mod.rs'),('evaluation','Expr::eval in types/expression.rs and Mul/Div/pow in dimension_math.rs')])
p('P09','Prefixes and aliases expand to exactly the documented units and symbols',
 "A unit with attributes yields exactly the units prefix+name for every requested prefix (or none) and every name or alias, each with the factor of the prefix times the unit and the unit's dimension, and symbols prefix symbol + unit symbol for the unaliased names only. Metric prefixes minus the skipped ones plus explicitly listed ones are generated, no others, whatever the order and combination of the attributes, for base units and derived units alike.",
 ['configurations','programs'],'all combinations of symbol, alias, metric prefix with every skip set of a family, explicit prefix list, in every attribute order, on base and derived units; all sixteen prefixes',
 'Tests look up a few prefixed names; that no extra or missing name or symbol exists for any attribute combination needs enumeration.',
 [R+'types/mod.rs',R+'types/prefixes.rs',R+'parse/attributes.rs',R+'parse/mod.rs'],
 [('template expansion','UnitTemplate::expand in types/mod.rs'),('prefix table','types/prefixes.rs'),('attribute parsing','parse/attributes.rs')])
p('P10','The generated unit system does not depend on definition or hash order',
 "Permuting the statements of a unit system never changes whether it is accepted nor the meaning of any unit, constant or dimension in it (except for which statement errors refer to), and expanding the same system repeatedly always gives the same types, factors, debug output and accept/reject decision.",
 ['schedules','configurations'],'all permutations of the statements of small systems with reference chains, crossed with repeated expansions under different hash seeds',
 'Resolution is an iterative search over unresolved items and internal maps are randomly seeded per process; a test has one order and one seed.',
 [R+'resolve/ident_storage.rs',R+'resolve/mod.rs',R+'dimension_math.rs',CG+'dimensions.rs',CG+'debug_trait.rs'],
 [('resolution loop','IdentStorage::resolve in resolve/ident_storage.rs'),('hash-ordered dimensions','BaseDimensions in dimension_math.rs')])
p('P11','Inconsistent unit systems are rejected at compile time',
 "A unit system is rejected when an identifier is undefined, defined twice or defined in terms of itself through any cycle, when a dimension refers to a unit or constant or vice versa, when a stated dimension differs from the dimension of the defining expression in any exponent, when a symbol (including prefixed ones) is used for two units, when a base unit names a dimension that is not a base dimension, has no symbol, or is a second one for its dimension, when a dimension expression contains a factor other than one, when the quantity type or the dimension type is not declared or declared more than once, or when an attribute is unknown, repeated where only one is allowed, or not applicable to a unit definition.",
 ['programs'],'all systems of a bounded family of statements: every assignment of right-hand sides to a bounded number of names, every annotation by every dimension expression of a family, every pair of symbols',
 'Each compile_fail test shows one instance; soundness means no instance (cycle length, self reference, subset or superset of dimensions, order, prefixed symbol clash) slips through and yields wrong conversions.',
 [R+'resolve/ident_storage.rs',R+'resolve/mod.rs',R+'dimension_math.rs',R+'parse/mod.rs',R+'parse/attributes.rs'],
 [('filters and checks','UnresolvedDefs::resolve in resolve/mod.rs'),('annotation check','check_type_annotations in resolve/ident_storage.rs'),('dimension equality','PartialEq for BaseDimensions in dimension_math.rs')])
p('P12','Consistent unit systems are accepted and usable',
 "Every unit system whose definitions are consistent compiles and yields a usable quantity type: with any names for the quantity and dimension types, any order of definitions, any number of base dimensions, correct dimension annotations however the annotating dimension was written (including exponents that cancel), systems without constants or derived units, and several systems side by side in one crate.",
 ['programs','configurations'],'all systems of the same bounded family that the reference semantics finds consistent, a family of type names, one to eight base dimensions',
 'Tests use two or three systems with the default type names; a spurious rejection shows only for particular shapes.',
 [R+'resolve/mod.rs',R+'dimension_math.rs',CG+'units_and_constants.rs',CG+'unit_type.rs',CG+'serde.rs',CG+'vector_methods.rs'],
 [('resolution','resolve/mod.rs'),('name interpolation','codegen/*.rs')])
p('P13','Printed quantities denote the quantity that was printed',
 "In a unit system in which every base dimension has a base unit, the debug output of any quantity is its stored number, formatted exactly as the bare storage would be formatted with the same formatting options, followed by a unit expression whose factor is one and whose dimension is the dimension of the quantity; a dimensionless quantity without a matching unit prints no unit. Evaluating number and unit expression gives back the quantity. When the output fails, at whatever point, printing reports the failure.",
 ['inputs','programs'],'every dimension vector in a box (named, unnamed, with prefixed and derived units of factor one and not one), values of an alphabet, formatting options, all storages; every point at which the output can fail',
 'Which symbol is chosen depends on the whole set of units and on the dimension; tests print three quantities.',
 [CG+'debug_trait.rs','crates/diman_lib/src/runtime_unit_storage.rs'],
 [('symbol choice','gen_debug_trait_impl in codegen/debug_trait.rs'),('unit lookup','RuntimeUnitStorage::get_first_unit_for_dimension')])
p('P14','Serialising and deserialising a quantity returns the same quantity',
 "For every dimension, every storage type and every value, deserialising what was serialised gives bit for bit the same value (any not-a-number for not-a-number), through any text or binary format, for integer and rational exponents. Deserialising it as a quantity of any other dimension fails.",
 ['inputs','programs'],'every dimension vector in a box, all storages, an alphabet of values (extremes, subnormals, signed zero, infinities, shortest-representation corner cases), two formats, with and without rational dimensions',
 'Round trips depend on the symbol chosen for the dimension and on number formatting; tests try a few dimensions with small values.',
 [CG+'serde.rs',CG+'debug_trait.rs'],
 [('serialise via debug','serde_float_impl/serde_vector_impl in codegen/serde.rs'),('unit string parsing','read_unit_str/read_single_unit_str in codegen/serde.rs')])
p('P15','Deserialisation reads unit strings correctly or reports an error',
 "A string of a number (or a parenthesised list of components) followed by a product of unit symbols with optional integer powers deserialises to the value those units denote if their combined dimension equals the requested one, and is an error otherwise. The number itself is read exactly as the float type of the storage reads it. Unknown symbols, malformed powers, missing or superfluous components, text before a vector, trailing garbage, empty input and bare numbers for dimensionful quantities are errors; a bare number that the format hands over is accepted for dimensionless scalars.",
 ['inputs'],'all strings over a token alphabet (numbers, symbols with factor one and not one, powers, malformed tokens) up to a bounded length, for every requested dimension of a set and all storages',
 'The grammar is hand written; tests try about ten strings, mostly well-formed.',
 [CG+'serde.rs','crates/diman_lib/src/dimension_exponent.rs','crates/diman_lib/src/runtime_unit_storage.rs'],
 [('unit string parsing','read_unit_str/read_single_unit_str in codegen/serde.rs'),('dimension check','get_quantity_if_dimensions_match in codegen/serde.rs')])
p('P16','Rational dimension exponents form one type per value',
 "With rational dimensions enabled, any two ways of arriving at the same rational exponents (by products, quotients, integer powers, square and cube roots, or definition expressions with any numerator and denominator, signed or not reduced) give the same type, and different exponents give different types. Root and power undo each other at the type level.",
 ['programs','histories'],'all exponents with bounded numerator and denominator, all pairs under product and quotient, all power/root chains up to a depth, all ways to write the same exponent in a definition',
 'Equality is structural on numerator and denominator, so one non-canonical representative breaks type equality only for particular chains; tests have three.',
 ['crates/diman_lib/src/ratio.rs',CG+'dimension_type.rs',R+'parse/mod.rs',R+'dimension_math.rs'],
 [('canonical form','Ratio::new and arithmetic in crates/diman_lib/src/ratio.rs'),('dimension arithmetic','codegen/dimension_type.rs under rational-dimensions')])
p('P17','Random quantities are drawn like random numbers between the bounds',
 "Sampling a quantity uniformly between two quantities, half-open or inclusive, by range or by distribution, yields for every state of the generator exactly the number that the uniform distribution of the bare floats between the same bounds yields with that generator, as a quantity of the bounds' dimension. The generator is advanced by the same amount, and invalid ranges fail in the same way.",
 ['inputs','schedules'],'all pairs of bounds of an alphabet, a scripted generator enumerating boundary and bit-pattern outputs, sequences of draws, both float types, all sampling entry points',
 'A seeded test sees one path of the generator; swapped inclusive and exclusive bounds or a lost bound show only at boundary generator outputs.',
 [CG+'rand.rs'],
 [('uniform sampler','rand_impl_float in codegen/rand.rs')])
p('P18','Quantities are layout-compatible with their storage in memory, HDF5 and MPI',
 "A quantity of any dimension and storage type has the size, alignment and bit pattern of the bare storage, its HDF5 type description and MPI datatype describe exactly that (element class, precision, component count, extent), and arrays of quantities written to an HDF5 file or sent through MPI arrive unchanged and are readable as the bare numbers.",
 ['inputs','histories'],'all storage types, several dimensions, array lengths zero to a bound, values with special bit patterns, all orders of first use of the datatypes',
 'These impls are unsafe and generated per storage; HDF5 has no tests and a wrong component count or precision corrupts memory only for particular types.',
 [CG+'mpi.rs',CG+'hdf5.rs',CG+'quantity_type.rs',CG+'storage_types.rs'],
 [('transparent layout','repr(transparent) in codegen/quantity_type.rs'),('MPI datatype','codegen/mpi.rs'),('HDF5 descriptor','codegen/hdf5.rs')])
p('P19','Enabling features never changes the meaning of existing programs',
 "Every supported combination of features (any, provided there is a float type, serde and HDF5 come with std, and rational dimensions with std or libm) builds, and a program that uses only what a combination provides, and states the type of its number literals, computes bit for bit the same results and has the same accepted and rejected constructs under every larger combination, apart from the roots that rational dimensions add. Mathematical functions may be rounded differently by the float libraries of std and libm. Without the standard library the unit system still works in a no_std crate.",
 ['configurations'],'the lattice of feature combinations over float types, std, libm, si, vector types, rand, serde, mpi, hdf5 and rational dimensions, with one probe program per capability',
 'Tests run under five fixed feature sets and compare nothing between them.',
 ['Cargo.toml','crates/diman_lib/Cargo.toml','crates/diman_unit_system/Cargo.toml','src/lib.rs',CG+'mod.rs',CG+'float_methods.rs','crates/diman_lib/src/magnitude.rs','crates/diman_lib/src/dimension_exponent.rs'],
 [('feature gates','cfg attributes across src/lib.rs, crates/diman_lib, codegen/*.rs')])
p('P20','Every history of in-place updates equals the same history on the bare number',
 "For any sequence of in-place additions, subtractions, scalings, component replacements and reassignments applied to a quantity through values, references or mutable references, the stored value after every step equals the value of the same sequence applied to the bare storage. Reading the quantity (comparison, printing, copying, conversion) never changes it, and copies are independent.",
 ['histories'],'all operation sequences up to a bounded depth over the alphabet of mutating and reading operations, every storage type',
 'Single-step tests cannot show an update that is lost or applied twice, or one that reaches a copy; the number of sequences is exponential.',
 [CG+'num_traits/operator_trait.rs',CG+'vector_methods.rs',CG+'quantity_type.rs'],
 [('assign operators','AddAssign..DivAssign impls in codegen/num_traits/operator_trait.rs'),('component setters','codegen/vector_methods.rs')])
p('P21','Conversion factors keep the full range and precision of the number given',
 "A unit or constant defined by any finite number literal has exactly that number as its conversion factor, whatever its magnitude (very large, very small, subnormal) and precision. Converting with it is the same as multiplying or dividing by the literal.",
 ['inputs'],'literals over every binary exponent of the double range, crossed with mantissa patterns, as unit factor and as constant, plus every decimal exponent and literal form',
 'The factor is packed into integers at compile time and unpacked at run time; tests round-trip a hundred ordinary values.',
 ['crates/diman_lib/src/magnitude.rs',CG+'units_and_constants.rs',R+'parse/mod.rs'],
 [('packing','Magnitude::{from_f64,into_f64} in crates/diman_lib/src/magnitude.rs'),('literal parsing','impl Parse for Number in parse/mod.rs')])
p('P22','Every faulty statement of a unit system is reported, and where it stands',
 "When a unit system is inconsistent, the compilation errors are located at the statements at fault: every statement with a problem of its own (it refers to an undefined name, to a name of the wrong kind, is part of a cycle, defines a name or symbol that another statement defines as well, also by a prefix or an alias, violates its annotation, defines a base unit of something that is no base dimension, a second base unit, or one without a symbol, is a repeated type statement) has an error at it, however many of them there are and wherever they stand, and no error is at a statement that has no problem and depends on none: what such a statement defines (also by prefixes and aliases) exists, so that using it causes no further errors. Statements malformed by themselves may be reported before all others, and a violated annotation may go unreported as long as something the statement depends on is at fault.",
 ['inputs'],'the inconsistent unit systems of the bounded family (dependency graphs over three names, annotations, symbol and prefix clashes, base units, type statements) and all pairs of independent faults of different kinds in one system, in both orders',
 'Compile-fail snapshots contain one fault each; that a fault is not hidden by another one, nor blamed on an innocent statement, is a statement about all combinations.',
 [R+'resolve/error.rs',R+'resolve/mod.rs',R+'resolve/ident_storage.rs',R+'expand.rs'],
 [('staged filters','UnresolvedDefs::resolve in resolve/mod.rs'),('error locations','impl Emit in resolve/error.rs'),('generated definitions','autogenerated_from in expand.rs and filter_autogenerated_invalid in resolve/ident_storage.rs')])
p('P23','A unit system means the same wherever it is defined and used',
 "A unit system behaves the same whether it is used in the module that defines it, in another module, in another crate or a crate further away, through re-exports and renamed crates, and whether everything of its module is imported or only the names the program mentions (methods and operators need no import of their own). It behaves the same when the macro call is itself produced by a macro of the same or another crate, also with the names of types, dimensions and units as that macro's arguments, and in crates of the 2018 and the 2021 edition. Other items of the module that defines it, also with names of the standard library or of the libraries diman uses, make no difference, apart from those with a name that the macro itself defines. This holds for every operator, method, unit combination, constant, printed form and optional capability.",
 ['configurations','programs'],'all combinations of ten places of definition, use and import with every operator form, method and unit combination (those of P03 to P06), printing, serialisation, sampling, HDF5 types, constants and generic code',
 'The tests define and use unit systems inside one crate and import what they need; an item that is not visible elsewhere, a trait that has to be in scope or a name resolved at the wrong place shows only in a crate of a user.',
 ['src/lib.rs','crates/diman_unit_system/src/lib.rs',CG+'mod.rs',CG+'quantity_type.rs',CG+'dimensions.rs',CG+'units_and_constants.rs',CG+'unit_type.rs',CG+'float_methods.rs',CG+'vector_methods.rs',CG+'rand.rs'],
 [('visibility and scope of generated items','pub items and modules in codegen/*.rs'),('paths of the runtime library','CallerType in codegen/mod.rs'),('spans of generated names','quote_spanned in codegen/*.rs')])
p('P24','The text of a unit system is read completely and by its grammar',
 "The macro either reads all of the text it is given, token by token as the documented grammar says (attributes with their arguments, names, annotations, products and quotients written with *, / or juxtaposition, exponents, numbers), or it reports a compile error; nothing is skipped, guessed or repaired. An argument, option, exponent, operand, suffix of a number (`2m`), separator or statement that the grammar does not provide for makes it an error, whatever it is and wherever it stands, and the macro never panics (as long as the exponents of the dimensions stay within 64 bits). Every text that follows the grammar and is consistent is accepted and means what it says.",
 ['inputs','programs'],'all texts one token edit (thorough: on a short text two) away from well-formed systems, all token strings up to a length as definitions, exponents and attributes, spelled with and without spaces',
 'The tests expand a handful of well-formed systems and a few broken ones; texts that are silently misread compile without complaint and give wrong numbers.',
 ['crates/diman_unit_system/src/parse/mod.rs','crates/diman_unit_system/src/parse/attributes.rs','crates/diman_unit_system/src/types/prefixes.rs','crates/diman_unit_system/src/types/expression.rs'],
 [('definitions and expressions','Entry, Expr, Factor, Operator, Number, Exponent in parse/mod.rs'),('attributes','Attributes::parse_all and FromAttribute in parse/attributes.rs'),('names of prefixes','make_prefix_enum! in types/prefixes.rs')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
