import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
Q='quantities/quantity.py';D='quantities/dimensionality.py';U='quantities/unitquantity.py';R='quantities/registry.py';UN='quantities/uncertainquantity.py';M='quantities/markup.py';UM='quantities/umath.py'

p('C01','Unit conversion preserves the physical value',
 "For every quantity and every compatible target unit (given as a unit object, a unit quantity, a dimensionality or a string), converting it, either into a rescaled copy or by assigning new units to an array that owns its data, multiplies every element by exactly the ratio of the two units' defined SI values, to within floating-point rounding of the element type, and gives the requested units. Shape, element order, NaN, infinities, signs and zeros are preserved, float32, float64 and complex data keep their precision, and integer data converts into a rescaled copy as the equal floating-point data would. The rescaled copy shares no memory with the original and leaves it untouched, and converting back, or going through any intermediate compatible unit, restores the value.",
 ['inputs'],'all pairs of compatible units in the catalogue and products of their powers; scalars, n-d, empty, strided and non-contiguous arrays; bool/int/uint/float16..64/complex dtypes; NaN, inf, -0.0, tiny and huge values',
 'test_conversion.py converts about ten literal quantities (m to ft, J to kWh and the like); the unit pairs number tens of thousands before exponents, dtypes and layouts are varied.',
 [Q,U],[('Quantity.rescale',Q),('Quantity.units setter',Q),('get_conversion_factor / _reference',Q),('UnitQuantity._conv_ref',U)],
 ['magnitude, dimensionality, dtype and memory of source and result around rescale() and units assignment'],
 [('dimensionality','mapping unit -> exponent carried by each quantity',Q)])
p('C02','Incompatible units are never silently combined',
 "Any operation that needs its operands to share a physical dimension (adding, subtracting, taking a remainder, ordering comparison, converting or assigning units, item assignment, put, clip, searchsorted, the two-argument minimum, maximum, hypot and arctan2, and their reflected and in-place forms) raises an error whenever the dimensions differ, for every pair of dimensions, shape and element type, and whichever operand is on the left. The same holds for adding, subtracting, taking a remainder of, or assigning into a quantity that has dimensions a plain non-zero number or array, and for raising anything to a power whose exponent has dimensions. A refused operation leaves the magnitudes and units of its operands exactly as they were (an output array given to it aside).",
 ['inputs','histories'],'all pairs of operands with different physical dimensions (including same units with different exponents, inverse units, angle-like and dimensionless ones), operand kinds (scalar, array, unit object, uncertain quantity, plain number), positions and operations',
 'The tests assert a ValueError on a handful of pairs such as m+s; a rule that forgets one operator, one side, one operand kind or one near-miss dimension (m vs m**2, Hz vs rad/s) passes all of them.',
 [Q,D,U,UN],[('scale_other_units',Q),('get_conversion_factor',Q),('_d_check_uniform and the ufunc rule table',D),('wrap_comparison',Q)],
 ['exception or result of every operation, and a snapshot of all operands before and after'])
p('C03','Arithmetic gives the physically correct value and units',
 "For all operands of compatible dimension, however their units are scaled, +, -, *, /, //, %, ** with a uniform dimensionless exponent, unary minus and abs yield the value and the units that exact dimensional analysis prescribes: sums, differences and remainders are expressed in the left operand's units, products and quotients in the combined units with powers added or subtracted, powers with every exponent multiplied, and unit exponents that reach zero disappear. Plain numbers and arrays act as dimensionless factors on either side of * and /, adding one to a quantity that reduces to a pure number first converts so that the physical value is right (or is refused), and broadcasting and element types follow numpy. Operands are never modified, and the result never shares memory with them.",
 ['inputs'],'operand kinds (scalar, array, unit object, plain number or array on either side), unit combinations, shapes that broadcast, dtypes and special values',
 'test_arithmetic.py exercises fixed dtypes and a few unit pairs; it cannot cover mixed scaled units on both sides, reflected forms with arrays, fractional and negative exponents and special values together.',
 [Q,D,U],[('arithmetic operators',Q),('Dimensionality __mul__/__truediv__/__pow__',D),('ufunc rule table',D),('UnitQuantity operators',U)],
 ['result magnitude, units, dtype and shape against a reference model on plain numpy arrays with exact rational unit factors'])
p('C04','In-place operators agree with their out-of-place forms',
 "Whenever an in-place operator (+=, -=, *=, /=, //=, %=, **=) on a quantity is accepted, the quantity afterwards has the value and the units that the out-of-place expression would have given, and it is still the same object over the same memory. A view that shares memory with another quantity refuses every change of its units, whether by in-place multiplication, division or power or by assigning units, so no change made through a view can leave its owner or another view with units that no longer describe the data. A refused in-place operation changes neither values nor units.",
 ['inputs','histories'],'sequences of in-place operations on owned arrays, on slices, transposes, reshapes and views of views, with all operand kinds and unit combinations',
 'The in-place tests check one addition, one subtraction, one modulo; *=, /=, //= and **= with units are never executed by any test, and aliasing through views only once.',
 [Q],[('__iadd__ ... __ipow__',Q),('protected_multiplication / protected_power',Q),('__array_wrap__ / __array_prepare__',Q)],
 ['the mutated object, all live views of it and its base, before and after each in-place operation'],
 [('base','owner of a view memory, used to protect units',Q)])
p('C05','Operations have no side effects; units and constants are immutable',
 "No read-only use of a quantity, unit or constant (arithmetic, comparison, conversion, formatting, numpy functions, reductions, pickling, copying, simplification, parsing) changes the value, units, element type or shape of any of its operands, of any other live quantity, or of any unit or constant in the library. Unit and constant objects refuse every in-place modification (in-place operators, item assignment, fill, put, changing their units, writing to their array data). The dimensionality handed out by a quantity is a private copy, so editing it affects nothing.",
 ['histories','inputs'],'all sequences of public operations over a live population of quantities sharing units, and every unit and constant in the catalogue',
 'Tests look at the result of an operation, rarely at its inputs, and never at unrelated live objects or at the whole unit table after a long history.',
 [Q,U,D],[('dimensionality property copies',Q),('read-only unit arrays and protected in-place operators',U),('Dimensionality operators return new objects',D)],
 ['bytes, units, dtype and flags of every live operand and a fingerprint of the whole unit table around each operation'])
p('C06','Dimensionalities form an exact algebra',
 "Multiplying, dividing and raising dimensionalities to integer, fractional or numpy scalar powers obeys the laws of an abelian group with scalar exponents for all operands: exponents add, subtract and scale, order does not matter, inverse and zero power give the dimensionless one, and no unit with exponent zero ever remains. Two dimensionalities are equal exactly when they contain the same units with the same exponents, and equal ones hash alike, however they were built. Adding or subtracting two dimensionalities is accepted exactly when they are equal, none of the non-in-place operators alters its operands, and simplifying yields the dimensionality in base units.",
 ['inputs','histories'],'all expressions built from catalogue units and integer, fractional, negative and numpy-scalar exponents, in any order of construction',
 'test_dimensionality.py checks a dozen literals over three units; hash-based equality and cancellation must hold for every combination and every build order.',
 [D],[('Dimensionality operators',D),('__hash__ / __eq__',D),('simplified',D)],
 ['exponent mapping, equality and hash of every dimensionality produced, against an independent exponent-vector model'])
p('C07','Comparisons are physically meaningful',
 "For quantities of compatible dimension, ==, !=, <, <=, > and >= give elementwise the answers obtained by expressing both operands in the same unit (up to floating-point rounding of that conversion), whichever units they are written in, whichever operand is on the left and with numpy's broadcasting and NaN semantics; a plain number is compared with the magnitude. For incompatible dimensions == is False everywhere, != is True everywhere with the broadcast shape, and ordering raises. Every comparison returns plain booleans without units and leaves its operands unchanged, and for operands in the same units exactly one of <, ==, > holds for ordinary numbers.",
 ['inputs'],'pairs of operands (scalars, arrays, unit objects, plain numbers compared by magnitude) over all compatible and incompatible unit pairs and special values',
 'test_comparison.py compares kPa with psi-like pairs on a few values with fixed shapes; it does not vary the sides, shapes, NaN or dimension mismatch.',
 [Q],[('__eq__ / __ne__',Q),('wrap_comparison',Q)],
 ['type, shape, dtype and truth values of each comparison, and operand snapshots'])
p('C08','Numpy universal functions follow their dimensional rule or refuse',
 "For every call of a numpy universal function on quantities, either the call is refused with an error or the result has the numeric value numpy gives on the bare magnitudes and the units that dimensional analysis prescribes for that function: products and quotients combine, square, reciprocal, square root and power scale the exponents, rounding, absolute value and negation keep units, exponential and logarithm accept only dimensionless arguments, trigonometric functions accept only radians and inverse ones return radians, degree and radian conversion accept only their own unit, and two-argument functions that need identical units refuse different ones. Functions without a defined rule are refused rather than returned with invented units. The predicates isfinite, isinf, isnan and signbit-like tests return plain booleans.",
 ['inputs'],'every numpy ufunc object, all input unit combinations (including an offending unit in the first or the second argument only), dtypes, shapes, and an output array given or not',
 'test_umath.py and test_methods.py call about 35 ufuncs once each, mostly with good units in the first argument.',
 [D,Q],[('ufunc rule table (p_dict)',D),('__array_prepare__ / __array_wrap__',Q)],
 ['value and units or exception of each ufunc call; numpy on bare magnitudes as the value oracle, an independent rule table as the unit oracle'])
p('C09','Reductions and array methods keep numpy values with the right units',
 "For all shapes, axes, element types and NaN patterns, the array methods sum, nansum, mean, nanmean, max, min, nanmax, nanmin, ptp, std, nanstd, var, prod, cumsum, cumprod, round, trace, clip and squeeze return exactly what numpy returns on the bare magnitudes, with the quantity's units (squared for var, raised to the number of multiplied elements for prod), and argmin, argmax, nanargmin, nanargmax, argsort, nonzero and searchsorted return numpy's plain indices. When an output quantity is passed, it receives the same values and units and is the object returned. The source is not modified; clip and searchsorted compare in consistent units and cumprod refuses quantities with dimensions.",
 ['inputs'],'methods x axis (None, every positive and negative axis) x dtype x out x shapes including 0-d, empty, strided, NaN-laden and tied values',
 'test_methods.py calls each method on one 2x2 integer matrix of metres; axis, out, dtype, NaN and other units are mostly untested.',
 [Q],[('Quantity reduction and array methods',Q)],
 ['return value, units, out object and source of every method call; numpy on the magnitude as oracle'])
p('C10','Reading and writing elements preserves units and physical values',
 "Reading elements, slices, masks, fancy indices, iterating, converting to a list or taking flattened, reshaped or transposed forms yields quantities with the parent's units whose values are the corresponding elements. Writing by item and slice assignment or put stores a value that, read back, is physically equal to the assigned one (values in other compatible units are converted first, a plain non-zero number is accepted only where the quantity is dimensionless, and incompatible values are refused with nothing written), assigning the real or imaginary part does the same with plain numbers taken in the array's own units, and fill replaces every element, adopting the units of a quantity it is given. Only the addressed elements change, and a read through a slice reflects later writes to its parent.",
 ['inputs','histories'],'sequences of reads and writes through all index kinds on n-d quantities with compatible, scaled and incompatible values',
 'test_methods.py has a few literal setitem, put, fill and tolist calls; no test mixes index kinds, units and histories.',
 [Q],[('__getitem__ / __setitem__',Q),('put, fill, tolist, real, imag',Q)],
 ['the full array, its units and the written positions after each step, against a shadow array in SI values'])
p('C11','Unit strings parse to the unit they denote',
 "Every unit name, symbol and alias known to the library, and every expression built from them with *, /, ** or ^, the middle dot, parentheses, numeric exponents and percent, denotes exactly the unit obtained by combining the named units under ordinary precedence, wherever a unit may be given as a string (construction, conversion, assigning units, default units). Strings that name an unknown unit, are not arithmetic expressions, or carry a numeric factor other than one are refused with an error rather than interpreted as something else. Looking a unit up never changes the unit table, and the same string always gives the same unit.",
 ['inputs','histories'],'all labels in the catalogue and all expressions of the unit grammar over them, plus malformed and near-miss strings',
 'The registry tests look up about ten names and a handful of bad strings.',
 [R,Q,U],[('UnitRegistry.__getitem__ label rewriting and whitelist',R),('validate_dimensionality',Q),('registration of names, symbols and aliases',U)],
 ['dimensionality and value obtained from each string, against an independent recursive-descent parser over the reference unit table'])
p('C12','Parsing a unit string never executes code',
 "Whatever string is given where a unit is expected, interpreting it cannot call functions, access attributes, index, import, define, or reach any Python object other than the registered units and numeric constants, and cannot read or write files, start processes, or change interpreter or library state. It either denotes a unit or raises an ordinary exception. The unit table after any sequence of such attempts is the same as before.",
 ['inputs','histories'],'adversarial strings: attribute chains, calls, comprehensions, lambdas, f-strings, walrus, subscripts, format tricks, unicode look-alikes, statements, nesting, and mutations of all of these mixed with valid units',
 'Two tests try one attribute access and one call; the guarantee is over all strings an attacker can supply in a data file.',
 [R],[('AST whitelist and empty builtins in UnitRegistry',R)],
 ['interpreter audit events (import, exec of foreign code, open, subprocess, ...), the executed code objects and names, a canary object and the registry fingerprint while parsing'])
p('C13','Rendered units are faithful and parse back',
 "The plain-text rendering of the units of every quantity names exactly its units and exponents: parsing it back as a unit string gives an equal dimensionality for all integer, negative and fractional exponents and all catalogue units, except those whose symbol is by design not an expression (compound units and constants). The unicode, LaTeX and HTML renderings carry the same units, the same full exponent digits and the same numerator and denominator in the notation of that format. Printing a quantity shows its magnitude as numpy does followed by its units, and format specifications apply to the magnitude. The text of an uncertain quantity adds its uncertainty with the same units, and the text of a unit gives its name and symbol, its representation also its kind and definition. The same units read the same however they came about.",
 ['inputs','configurations'],'all catalogue units and products of powers with exponents such as 10, 12.5, 0.5, -3, 100; unicode mode on and off; scalars and arrays; format specs; markup options',
 'test_formatting.py renders m, m**2 and a few literal compounds; multi-digit and fractional exponents and most symbols are never rendered.',
 [M,Q,D,U],[('format_units and the unicode/latex/html variants',M),('Quantity __str__/__repr__/__format__',Q),('UnitQuantity __str__/__repr__',U)],
 ['rendered strings, decoded by independent parsers for each notation'])
p('C14','Copies and pickles are faithful and independent',
 "Pickling (every protocol, in the same or a fresh process), copying and deep-copying any quantity, uncertain quantity, unit, constant, compound unit or dimensionality gives an object with the same type, magnitudes, element type, shape, units and uncertainty, equal to the original and usable in arithmetic with quantities created independently. A copy or deep copy of a quantity shares no data with the original: changing one never changes the other. Restoring an object never alters or duplicates existing units.",
 ['inputs','histories','configurations'],'all object kinds x all pickle protocols x same/fresh process x dtypes/shapes; containers mixing them; mutation after copying',
 'test_persistence.py pickles six literals in one process and never mutates a copy.',
 [Q,U,UN],[('__reduce__/__setstate__/_reconstruct_quantity',Q),('UnitQuantity/CompoundUnit/Dimensionless __reduce__ and copy',U),('__deepcopy__',Q)],
 ['original and restored objects, restored also in separate interpreter processes, memory sharing and later mutation'])
p('C15','Uncertainty propagates through arithmetic',
 "For uncertain quantities with independent errors, negation, +, -, *, / and ** with other uncertain quantities, exact quantities, units and plain numbers on either side give the usual value and a one-sigma uncertainty following first-order propagation: absolute uncertainties add in quadrature for sums and differences, relative ones for products and quotients, and powers multiply the relative uncertainty by the magnitude of the exponent, with exact operands contributing none. An uncertain exponent contributes the result times the logarithm of the (dimensionless) base, and is refused for a base with a physical dimension. The absolute value and the numpy functions negative, conjugate, square, sqrt and reciprocal of an uncertain quantity carry the uncertainty in the same way. The uncertainty is never negative, always has the result's shape and compatible units, and depends only on physical values, not on the units operands are written in. The operands and their uncertainties are unchanged.",
 ['inputs'],'values of both signs and zero, scalars and arrays, mixed compatible units, exact/uncertain/unit/plain operands on both sides, integer, negative and fractional powers',
 'test_uncertainty.py propagates about a dozen positive scalars in identical units.',
 [UN,U],[('UncertainQuantity operators',UN),('UnitQuantity operators delegating to the array type',U)],
 ['value and uncertainty of each result against an independent first-order propagation in SI floats'])
p('C16','Uncertain quantities stay consistent under conversion, indexing and reduction',
 "Rescaling, simplifying, assigning units, indexing and slicing an uncertain quantity transform value and uncertainty together, so the relative uncertainty of every element is unchanged and the uncertainty always has the value's shape and units. Sum and mean (and their NaN-ignoring forms), over everything or along one axis, combine uncertainties in quadrature, and max, min and their positions select the element numpy would together with its own uncertainty. Setting an uncertainty of another shape or incompatible units is refused and changes nothing.",
 ['inputs','histories'],'shapes, axes, NaN patterns, unit pairs and index kinds for uncertain arrays; sequences of these operations',
 'test_uncertainty.py checks rescale, sum, mean, max and min on one or two literals.',
 [UN],[('rescale, simplified, units, uncertainty setter, __getitem__, reductions',UN)],
 ['value, uncertainty, shapes and units after every operation against a paired reference'])
p('C17','Simplification uses the configured base units and preserves value',
 "The simplified form of every quantity, unit, constant and dimensionality is physically equal to the original and expressed only in the currently configured default unit of each base dimension (initially SI: kg, m, s, A, K, mol, cd), and simplifying twice changes nothing. Changing the default units, by system or individually, in any order and any number of times, affects only how later simplifications are expressed: it never changes existing quantities, conversion factors, equality or arithmetic, and returning to the earlier defaults restores the earlier results. A default unit of the wrong dimension is refused and leaves the default of that dimension unchanged, and an unknown system is refused and changes nothing.",
 ['histories','configurations','inputs'],'all catalogue units and random compound quantities under all sequences of default-unit changes, valid and invalid',
 'One test switches to cgs and back and simplifies one unit; sequences, refused changes and their effect on conversions are untested.',
 [U,Q,D],[('set_default_units / IrreducibleUnit.set_default_unit',U),('simplified properties',Q),('Dimensionality.simplified',D)],
 ['simplified values and units after each configuration step against the SI reference; conversion factors before and after'],
 [('default unit','per-base-dimension default used by simplified',U)])
p('C18','The unit catalogue has the internationally defined values',
 "Every unit offered by the library, under every name, symbol and alias, has the dimension and the value relative to the SI base units that its defining standard gives it, and SI and binary prefixes scale by exactly the right power. Aliases and symbols of a unit denote the same unit, units that are distinct in the standards (statute and survey foot, short and long ton, thermochemical and international calorie, and the like) stay distinct, and no label is bound to two different units.",
 ['inputs'],'every public unit object and every registered label',
 'Tests touch perhaps 40 of about 400 units and never their numeric definitions.',
 ['quantities/units/','quantities/units/prefixes.py',U],[('unit definitions','quantities/units/*.py'),('registration of symbols and aliases',U)],
 ['value and dimension in base units of every unit object and label against an independently written table of definitions'])
p('C19','Physical constants match the published CODATA values',
 "Every physical constant the library offers has the value and unit of the corresponding entry of the published NIST CODATA table that the library documents, the library's own table gives that value, its one-sigma uncertainty and its unit for every entry (zero uncertainty for exact constants), and all names, symbols and module variables for a constant refer to the same value. Converting a constant to SI or to any compatible unit keeps its physical value. Constants derived from others agree with them within their published uncertainty.",
 ['inputs'],'every constant object in the constants package and every entry of the table',
 'One constants test checks two values; the other roughly 300 entries and the binding of names to entries are never compared with the table.',
 ['quantities/constants/','quantities/constants/_codata.py'],[('physical_constants table','quantities/constants/_codata.py'),('_cd and per-module UnitConstant definitions','quantities/constants/_utils.py')],
 ['value and dimension in SI of each constant object, and value, uncertainty and unit text of each table entry, against an independent fixed-column parse of the NIST table'])
p('C20','Mathematical functions account for units',
 "The library's own mathematical functions (trigonometric and hyperbolic functions and inverses, arctan2, hypot, cross, trapz, gradient, diff, ediff1d, unwrap, sum, prod, cumsum, cumprod, nansum) give the value numpy gives once the arguments are expressed in the natural units (angles in radians, arguments of hyperbolic and inverse functions as pure numbers, pairs in a common unit) and attach the units of the operation, so the physical result does not depend on the units the arguments are written in (hypot may refuse arguments in two different units, and cumprod accepts only what carries no units). A function made unit-aware with quantitizer sees its arguments, positional or by keyword, as magnitudes in the default base units, and each of its results is given in the units its handler asks for. Arguments of a wrong dimension are refused and arguments are never modified. On plain arrays they behave as numpy's functions.",
 ['inputs'],'functions x argument units (degrees, arcminutes, percent, m/km, mixed lengths) x shapes, axes, sample positions or spacing',
 'test_umath.py calls each function on one or two literals, generally in the canonical unit.',
 [UM],[('unit-aware wrappers',UM)],
 ['value and units of every call against numpy on independently converted magnitudes'])
p('C21','Preferred-unit and dimensionless conversion are exact and guarded',
 "Rescaling to preferred units converts to the first configured preferred unit of the same physical dimension with the physical value preserved, for any list of preferred units and any quantity, and raises without changing anything when none matches; rescaling without a target does the same. The dimensionless magnitude of a quantity is its value after all prefixes and compatible units cancel, and is refused for anything that does not reduce to a pure number. Neither depends on the current default units.",
 ['inputs','configurations'],'lists of preferred units (ordered, overlapping, compound, custom) x quantities x default-unit settings',
 'test_conversion.py has two preferred-unit tests on fixed lists and one dimensionless_magnitude test.',
 [Q],[('rescale_preferred',Q),('dimensionless_magnitude',Q)],
 ['returned quantity, preferred list and source before/after'])
p('C22','User-defined and compound units behave like built-in ones',
 "A unit defined by the user from any real scalar quantity, number or unit, or from nothing (a new base unit), converts, multiplies, simplifies, compares, parses from its name, symbol and aliases, renders and pickles exactly according to its definition, including chains of user units defined from user units. A label already bound to a different unit cannot be rebound: the attempt raises, registers none of the refused unit's labels, and lookups keep giving the old unit, while re-registering an identical unit is harmless. A compound unit stays unreduced in arithmetic and rendering, converts like the expression it was made from, and equals another compound unit made from the same expression.",
 ['histories','inputs'],'sequences of unit definitions (fresh, duplicate, conflicting names, symbols, aliases), definitions over random expressions, compound expressions, combined in arithmetic',
 'test_units.py defines two units and one compound unit.',
 [U,R],[('UnitQuantity constructor and registration',U),('UnitRegistry.__setitem__ conflict check',R),('CompoundUnit',U)],
 ['unit table, conversion results and exceptions after every definition step'])
p('C23','Results do not depend on history or on other threads',
 "The result of any pure operation on quantities is a function of its arguments alone: repeating it later, after any other sequence of successful or failed operations, in another order, or from several threads at once gives identical values, units and exceptions. Concurrent lookups, conversions, arithmetic, formatting, pickling and definition of unrelated new units never raise spurious errors, lose registrations or corrupt the unit table. When several threads define the same label differently, exactly one of them succeeds. A setting (display, default units, preferred units) changed by one thread stays as that thread set it while other threads convert and render.",
 ['histories','schedules'],'random permutations and repetitions of an operation pool in one process, and multi-threaded runs with forced rapid thread switching',
 'The tests run each operation once in a fixed order in one thread.',
 [Q,D,R,U,M],[('shared unit registry',R),('unit format ordering counters',U),('memoized and cached conversion references',U),('markup configuration lock',M)],
 ['per-operation results recorded in logs of each thread/permutation, compared with a sequential reference log and the final unit table'])
p('C24','Guarantees do not depend on interpreter settings',
 "The value, units or refusal of every operation is the same whatever the interpreter configuration: optimised mode (-O, -OO), hash randomisation, warnings of unrelated categories and deprecation warnings turned into errors, isolated or development mode, locale, unicode display on or off, and import order. In particular no check that protects against mixing units, modifying protected units or accepting malformed units disappears when the interpreter is run optimised.",
 ['configurations','inputs'],'one broad script of accepted and refused operations executed under each interpreter configuration in separate processes',
 'The test suite always runs in one configuration, unoptimised, where assert statements are active.',
 [Q,D,U,R,UN],[('validation of units, dimensions, views and uniform exponents',Q),('ufunc unit checks',D),('registration checks',R)],
 ['outcome log (value digest, units, exception class) of each process, compared across configurations'])
p('C25','Construction yields exactly the given data and units',
 "Building a quantity from any array-like of plain numbers and any unit (by constructor, by multiplying data with a unit, or from another quantity) gives the data's values and shape with exactly the stated units, keeping the element type or using the requested one (a product with a unit has numpy's type for the product with a double), and building from a quantity in other units converts it. Invalid units (non-unit objects, non-unit magnitudes, unknown strings, incompatible source units) are refused, and a unit given as a quantity, string, dimensionality or unit object means the same thing. The magnitude, units and dimensionality accessors return what was stored, and value times units reproduces the quantity.",
 ['inputs'],'data kinds (numbers, nested lists, arrays of all dtypes and layouts, quantities, units), unit forms, dtype argument, uncertain and plain',
 'The tests build quantities from short literal lists with a few units and dtypes.',
 [Q,UN,U],[('Quantity.__new__ / __array_finalize__',Q),('validate_unit_quantity / validate_dimensionality',Q),('UncertainQuantity.__new__',UN)],
 ['magnitude, dtype, shape, units of each constructed quantity against the input data'])
p('C26','Objects are released and nothing piles up',
 "The library keeps no hidden hold on data. Once the last reference to a quantity, uncertain quantity, dimensionality or compound unit is dropped it can be reclaimed, whatever operations it took part in, refused ones and ones in other threads included, and a result that is not a view of its operands' data does not keep the operands alive. Repeating any operation any number of times on new values (arithmetic, conversions, comparisons, reading and rendering units, copying, pickling, refused operations and refused definitions, changes of the default units) does not make the process grow: only unit definitions that were accepted remain.",
 ['inputs','histories'],'all kinds of operations, operands and outcomes; long repetitions with values, texts and exponents that never come back',
 'No test looks at what is still alive after an operation or repeats one often enough to see growth.',
 [Q,U,R,D,UN],[('__array_finalize__, __array_wrap__ and the operators, which hand units and uncertainties on',Q),('_reference and simplified',U),('UnitRegistry lookups and registrations',R),('UncertainQuantity operators',UN)],
 ['weak references to operands, their arrays and results; allocations per batch of repeated calls'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: 
        assert len(d['title'])<=80,d['title']
        f.write(json.dumps(d,ensure_ascii=False)+'\n')
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,sc)
print(len(P))
