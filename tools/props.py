FPV, FPABC, SFP, SINT, SUT = 'hwtypes/fp_vector.py', 'hwtypes/fp_vector_abc.py', 'hwtypes/smt_fp_vector.py', 'hwtypes/smt_int.py', 'hwtypes/smt_utils.py'
UT = 'hwtypes/util.py'
prop('C27', 'T[n] is one type per family and width, and likewise for FP formats',
     'For every unsized vector type T and int n >= 0, T[n] is the same type every time, of that width, a subclass of T and of B[n] for every base B of T, and with T[n].unsized_t is T; different T or n give different types. '
     'A negative n raises ValueError, any other non-int TypeError, whatever was asked before; sizing a sized type and inheriting two widths raise TypeError. Subclasses of a sized type keep its width and have no unsized_t. '
     'FP types are one per (eb, mb, mode, ieee) with those parameters and size 1+eb+mb; nonpositive sizes raise ValueError, malformed parameters IndexError.',
     ['inputs', 'programs', 'histories'], 'all widths and field sizes, twelve vector types, user subclasses, orders of requests', 'tests build a few types of one family',
     [ABC, FPABC], mech=[('AbstractBitVectorMeta', ABC), ('AbstractFPVectorMeta', FPABC)], technique=CL, note=CL_NOTE % 'the types of the three families and user subclasses')
prop('C28', 'No operation can fail on an unresolved name or a malformed call',
     'Every name the package reads is bound in an enclosing scope, its module or the builtins; some assignment reaches every read of a local variable; every attribute read from self or cls is defined somewhere in the package; '
     'the arguments of every call to a function of the package bind to its parameters; and every name imported between its modules exists. So no operation fails with NameError, UnboundLocalError, or for such an attribute or argument list, on any path.',
     ['programs'], 'every function of every module, branches for Python 2 excluded', 'tests do not run every branch',
     [BV, SMT, Z3, META, ADTU, MODS, UTIL], mech=[('all functions', ABC)], technique='scope resolution and reaching-assignment dataflow over the syntax tree',
     note='Every function of the package is analysed; attributes of other objects than self and cls, and calls through values, are not resolved.')
prop('C29', 'Every family implements the whole abstract interface',
     'Bit, vector, unsigned, signed and floating point types of every family implement each operation that AbstractBit, AbstractBitVector and AbstractFPVector declare, callable with every argument list of the declaration; '
     'get_family of each type and sized type is the (Bit, BitVector, Unsigned, Signed) of its own family, whose unsigned and signed types are subclasses of its vector type. So code written against the abstract types runs over every family.',
     ['programs', 'configurations'], 'every declared operation of every type', 'missing methods of vectors are not enforced by Python and tests call only some',
     [BV, SMT, Z3, FPV, SFP, ABC, FPABC], mech=[('abstract methods', ABC), ('get_family', BV)], technique='class-table analysis: resolved members against abstract declarations',
     note='Method resolution over the class table the interpreter builds from the source, decorators applied. What the operations compute is the subject of the other properties.')
prop('C32', 'overflow(a, b, a + b) is the signed overflow of the addition',
     'For every width n >= 1 and n-bit a and b of one type of any family, overflow(a, b, a + b) is the Bit that is 1 exactly when the signed sum of a and b is not representable in n bits.',
     ['inputs'], 'all widths and values, nine types', 'the test compares 32 random pairs',
     [BV], mech=[('overflow', BV)], technique=VG, note=BASE_NOTE % ', pysmt and z3 constructors' + ' The sum of the signs is specified by the top bits of operands and wrapped sum.')
prop('C34', 'Random values belong to their type and every value can be drawn',
     'T.random(n) of a concrete vector type is a value of T[n] and every n-bit value is the outcome of some draw; Bit.random gives both bits; FPVector.random is a value of the type, every normal number of the format, of either sign, is the outcome of some draw, '
     'and with allow_inf=False no draw gives an infinity.',
     ['inputs', 'histories'], 'all outcomes of the random number generator; all widths, and four small FP formats', 'tests draw a few values and cannot see which are never drawn',
     [BV, FPV], mech=[('random', BV), ('random', FPV)], technique=VG,
     note=BASE_NOTE % ', random and gmpy2' + ' Draws are arbitrary values of their range; a witness draw for each value shows it reachable. The distribution is not analysed.')
prop('C35', 'substitute replaces variables simultaneously and nothing else',
     'For a symbolic Bit or vector expression over variables, substitute((v1, e1), ...) denotes the expression with every listed variable replaced by its expression, all at once, other variables unchanged; the result is a symbolic Bit, or a symbolic vector of the same width, '
     'the original is unchanged, and an expression of another sort is refused.',
     ['inputs', 'programs'], 'all assignments; expressions and substitution lists enumerated', 'tests substitute once in one expression',
     [SMT], mech=[('substitute', SMT)], technique=CL, note=CL_NOTE % 'expression shapes and replacement lists')
na('C36', 'Floating point results are correctly rounded numbers',
   'The number an FPVector operation yields is the exact real result rounded once to the format in its rounding mode, with IEEE results for special operands.',
   ['inputs'], 'all operands of all formats', 'tests compare random operands with C floats', [FPV],
   'the arithmetic happens inside gmpy2 (compiled MPFR), outside the source under analysis; C15-C17 decide which primitive is called on which operands in which context')
na('C37', 'Random values are uniformly distributed',
   'T.random(n) draws each n-bit value with equal probability, independently of earlier draws.',
   ['histories'], 'all sequences of draws', 'tests draw a few values', [BV, FPV],
   'a statement about probabilities of a runtime generator, not about the program text; C34 decides reachability of every value')
na('C38', 'Unused cached types and symbolic names are released',
   'A cached type or symbolic name that is no longer referenced is eventually released, and re-creating it gives a consistent new one.',
   ['histories'], 'all allocation histories', 'tests do not control collection', [ABC, META, SMT],
   'depends on when the garbage collector runs and what clients still reference, which no static argument over this source bounds')
prop('C01', 'Concrete bit-vector operations compute the SMT-LIB functions',
     'For every width n >= 1 and all operand values, each named bv operation of the concrete vectors (and, or, xor, nand, nor, xnor, not, neg, '
     'add, sub, mul, udiv, urem, sdiv, srem, shl, lshr, ashr, rotate left/right by a vector amount modulo the width, comp, eq, ne, the eight '
     'orderings and add-with-carry) returns the value of the SMT-LIB function of that name, division by zero and shift amounts >= n included. '
     'The result has the left operand\'s type (a Bit for relations and the carry), and this holds equally for the plain, unsigned and signed vector types.',
     ['inputs'], 'all widths and all operand values, of all three vector types', 'tests sample small widths and random values of BitVector',
     [BV], mech=[('bvadd, bvudiv, bvashr, adc, ...', BV)], technique=VG, note=BASE_NOTE % '')
prop('C02', 'pysmt-backed vector operations build terms with SMT-LIB meaning',
     'For every width n >= 1, each named bv operation of the pysmt-backed vectors produces a term that denotes, under every assignment of its '
     'operands, the SMT-LIB function of that name (rotations take an integer amount, modulo the width). The result has the left operand\'s type, or is '
     'a symbolic Bit for relations and the carry out.',
     ['inputs', 'programs'], 'all widths, all operand terms and assignments', 'tests compare a few widths and constants only',
     [SMT], mech=[('bvadd, bvudiv, bvashr, adc, ...', SMT)], technique=VG, note=BASE_NOTE % ' and pysmt term constructors')
prop('C03', 'z3-backed vector operations build terms with SMT-LIB meaning',
     'For every width n >= 1, each named bv operation of the z3-backed vectors produces a term that denotes, under every assignment of its '
     'operands, the SMT-LIB function of that name. The result has the left operand\'s type, or is a symbolic Bit for relations and the carry out.',
     ['inputs', 'programs'], 'all widths, all operand terms and assignments', 'tests compare a few widths and constants only',
     [Z3], mech=[('bvadd, bvudiv, bvashr, adc, ...', Z3)], technique=VG, note=BASE_NOTE % ' and z3 term constructors')
prop('C04', 'Python operators mean the named operation of the operand type',
     'For every width and value, the Python operators on vectors of all three families compute the named bv operation (unsigned //, %, >>, and '
     'orderings; signed ones for signed vectors), keep the left operand\'s type, and accept an int, bool or Bit as the other operand by reducing it '
     'modulo 2**n. With the int or bool on the left (concrete and pysmt families; relations in all), operand order is preserved. '
     'Vectors of different widths raise InconsistentSizeError, and foreign operands raise TypeError, except that == is False and != is True.',
     ['inputs', 'programs'], 'all operand kinds on both sides, all widths and values', 'tests exercise few operand kinds, mostly vector op vector',
     [BV, SMT, Z3], mech=[('operator and reflected-operator dispatch', BV), ('operator dispatch', SMT)], technique=VG, note=BASE_NOTE % ', pysmt and z3 constructors')
prop('C05', 'Vector construction normalises, item assignment changes one bit',
     'Constructing a vector of width n from an int, bool, Bit, object with __int__, or vector of any width holds the value modulo 2**n; from a '
     'sequence of bits, least significant first, it holds those bits; an implicitly sized construction picks the smallest width (at least 1) holding the value. '
     'Assigning v[i] (negative i from the end) changes exactly that bit and no other vector, an index out of range raises IndexError and a value other than 0 or 1 raises '
     'ValueError; arguments that are not convertible raise TypeError. Converting a vector to a narrower type warns; one that loses no width does not.',
     ['inputs'], 'all widths, values, lengths, indices; the three families', 'tests sample widths up to 8 or so',
     [BV, SMT, Z3, ABC], mech=[('constructors, make_constant, __setitem__', BV), ('implicit sizing', ABC)], technique=VG, note=BASE_NOTE % ', pysmt and z3 constructors')
prop('C06', 'Indexing, slicing, concat, extension, repeat and observations agree',
     'For every width and value, x[i] is bit i counted from the least significant (negative i from the end, IndexError outside), x[a:b:c] selects the '
     'bits Python slicing of the bit list selects, x.concat(y) puts y above x, zext/sext/ext(k) add k zero/sign/type-dependent high bits (ValueError for negative k), and repeat(r) tiles '
     'r copies; results keep the unsized type. Width, int, bool, unsigned/signed value, bit list and binary string observations are those of the value.',
     ['inputs'], 'all widths, values, indices, slice bounds, extension amounts', 'tests sample a few widths and indices',
     [BV, SMT, Z3], mech=[('__getitem__, concat, zext, sext, repeat, as_sint, bits', BV)], technique=VG,
     note=BASE_NOTE % ', pysmt and z3 constructors' + ' Slices with a step are enumerated at fixed widths; those without are decided at a symbolic width.')
prop('C07', 'Bits form a Boolean algebra closed over coercible operands',
     'A Bit can be made from a Bit, a bool, 0 or 1, or an object with __bool__ (other ints raise ValueError, other objects TypeError) and then ~, &, |, ^, == and != '
     'compute negation, conjunction, disjunction, exclusive or, equivalence and its negation, as a Bit of the same family and of the left operand\'s class, with any such value as the other operand. '
     'In the concrete and pysmt families the other operand may also be on the left, and an unsupported one gives TypeError (False/True for ==/!=); only the concrete Bit has a truth value.',
     ['inputs'], 'all operand kinds and values on both sides, three families', 'tests cover mostly Bit op Bit and a few coercions',
     [BV, SMT, Z3], mech=[('Bit, SMTBit, z3Bit', BV)], technique=VG, note=BASE_NOTE % ', pysmt and z3 constructors')
prop('C08', 'ite selects the right branch with the branches\' common type',
     's.ite(t, f) denotes t when s is true and f otherwise, has the branches\' type when they agree, works elementwise on nested tuples of equal shape, '
     'and for a vector s tests s != 0. Branches of different widths, kinds, families or shapes, and plain Python values, raise TypeError (the z3 '
     'family instead coerces a non-vector branch to the other branch\'s type or zero-extends implicitly sized ones).',
     ['inputs', 'programs'], 'all branch shapes, widths and values', 'tests use a few constants and shapes',
     [UTIL, BV, SMT, Z3, ABC], mech=[('build_ite', UTIL), ('ite', Z3)], technique=VG, note=BASE_NOTE % ', pysmt and z3 constructors')
prop('C09', 'Mixed-type ite results dispatch on the selected branch\'s type',
     'When s.ite mixes signed, unsigned and plain vectors of one width, the result has the selected branch\'s value, a type below the branches\' common '
     'unsized type, and every operator and extension on it means the selected branch type\'s operator (for example >> is arithmetic iff a '
     'signed branch is selected). Mixed bit classes behave likewise. Different widths raise TypeError.',
     ['inputs', 'programs'], 'all type mixtures, select values, widths and operand values', 'tests check one or two operators on constants',
     [UTIL], mech=[('PolyVector, VCall', UTIL)], technique=VG, note=BASE_NOTE % ' and pysmt constructors')

prop('C19', 'ADT values hold exactly the given values, of the declared types',
     'Constructing a Tuple, Product, AnonymousProduct, Sum or TaggedUnion value stores exactly the given objects, by position or name; too few, too many, or unknown '
     'fields raise (ValueError or TypeError), and so does any value that is not an instance of the declared field type (TypeError), at every nesting level. '
     'Assigning a field by index (negative allowed), name, member type or tag replaces that field only, with the same type check; a rejected assignment leaves the '
     'value unchanged. Enum types have no instances besides their members.',
     ['inputs', 'histories'], 'all values and value classes, each field of each shape', 'tests build a few well-typed values',
     [ADT, META], mech=[('Tuple/Sum/TaggedUnion __init__ and __setitem__', ADT), ('field properties', META)], technique=CL,
     note=CL_NOTE % 'up to four fields, one nested type')
prop('C20', 'Exactly the active member of a sum or tagged union matches',
     'After constructing or assigning a Sum (by type) or TaggedUnion (by tag), member access gives match true and the stored value for the last assigned member only, '
     'even when several tags share one type; every other member has match false and reading its value raises TypeError; members that are not declared raise TypeError.',
     ['inputs', 'histories'], 'all member choices, values, and assignment sequences of length two', 'tests check a single member per type',
     [ADT, META], mech=[('Sum.__getitem__, Match', ADT), ('tag properties', META)], technique=CL, note=CL_NOTE % 'up to four members')
prop('C21', 'value_dict and from_values are inverse and field_dict describes the type',
     'For every Tuple, Product, Sum or TaggedUnion value, T.from_values(v.value_dict) equals v with the same fields; value_dict follows assignments, has the '
     'keys of field_dict in declaration order for products, holds None for exactly the inactive members of sums (falsy values included as values), and both dicts are read-only. '
     'from_values rejects missing and extra keys (ValueError), wrong value types (TypeError), and for sums zero or several values (ValueError).',
     ['inputs', 'histories'], 'all values and classes of values, all members', 'tests round-trip one value per kind',
     [ADT, META], mech=[('value_dict, from_values', ADT), ('field_dict', META)], technique=CL, note=CL_NOTE % 'up to four fields')
prop('C22', 'Equal ADT parameters give the same type, different ones a different type',
     'Parameterising Tuple, Sum or AnonymousProduct, defining a Product, TaggedUnion or Enum class body, or calling from_fields twice with equal name, base and fields yields the '
     'identical type, and any difference (field order for products and tuples, names, types, base class) another one; sums and unions do not depend on order. '
     'cache=False always gives a fresh type. The type reports its fields, is_bound, is_cached and unbound_t, subclasses the structural type, and can not be bound twice.',
     ['inputs', 'histories'], 'the ADT kinds and each single difference of parameters', 'tests check a few pairs of types',
     [META, ADT], mech=[('caches: _GetitemSyntax, _AttrSyntax, from_fields', META)], technique=CL, note=CL_NOTE % 'two or three fields')
prop('C23', 'Names used by the ADT machinery cannot be field names',
     'Declaring a field, tag or enum member whose name is one the ADT machinery reads (enumerate, fields, field_dict, is_bound, is_cached, value_dict, from_values, and the '
     'private sunder attributes), by class body or from_fields, alone or with other fields, raises ReservedNameError; methods, properties, non-type attributes and _single_ or __double__ underscored names of a class body are not fields, every other type-valued name is.',
     ['inputs'], 'every reserved name, kind of type, and way of declaring', 'tests try a couple of names',
     [META], mech=[('RESERVED_NAMES, RESERVED_SUNDERS checks', META)], technique=CL, note=CL_NOTE % 'each reserved name, each kind')
prop('C31', 'enumerate yields every value of a finite type exactly once',
     'For Enum, Tuple, Product, Sum and TaggedUnion types over enums, nested ones included, enumerate() yields every value of the type exactly once and nothing else, each of exactly that type; '
     'an Enum yields its members in declaration order.',
     ['inputs'], 'the shapes enumerated: up to four fields, two nesting levels', 'tests enumerate one small type per kind',
     [META], mech=[('enumerate', META)], technique=CL, note=CL_NOTE % 'up to four fields, two nesting levels')
prop('C11', 'Equality is structural, hashing agrees with it, also after assignment',
     'ADT values of one type are equal exactly when their fields (the sum\'s active value, the union\'s tag and value, the enum member) are equal, != is the negation, values of unrelated types are unequal, '
     'and equal values hash alike, both before and after fields or bits were assigned. Equal bits, equal vectors of one type, and equal FrozenDict / OrderedFrozenDict objects (whatever the order of the '
     'items) also hash alike, and a FrozenDict reads like its items and cannot be changed.',
     ['inputs', 'histories'], 'all field values, member choices and one assignment', 'tests compare a few constants',
     [ADT, META, BV, UT], mech=[('__eq__, __hash__', ADT), ('Bit.__hash__, BitVector.__hash__', BV), ('FrozenDict', UT)], technique=CL, note=CL_NOTE % 'up to four fields, two nesting levels')
prop('C15', 'Every FPVector value is rounded once, in its own type\'s gmpy2 context',
     'FPVector[eb, mb, mode, ieee] and its subclasses compute in a gmpy2 context with precision mb+1, emax 2**(eb-1), the emin and subnormalization of the IEEE (or flush-to-zero) format, no traps, and the rounding of the mode. '
     'Construction from bool, int, float, mpz, mpq, mpfr, another FPVector, numeral or fraction string, or objects with __float__ or __int__ rounds the exact argument once in that context (a NaN becomes '
     'infinity unless ieee), other arguments raise TypeError or ValueError, and the caller\'s gmpy2 context is restored, also on failure.',
     ['inputs', 'configurations'], 'all exponent and mantissa sizes, all five modes, ieee or not, all argument values', 'tests use single and double precision and a few literals',
     [FPV, FPABC], mech=[('__init_subclass__, __init__, set_context', FPV)], technique=VG,
     note=BASE_NOTE % ' and gmpy2 (uninterpreted operations that carry the context in force)' + ' What gmpy2 computes inside a context is not analysed.')
prop('C16', 'FPVector operations are the named primitives, in order, rounded in context',
     'Every arithmetic method and operator of FPVector applies the IEEE operation it names to its operands in order and rounds once in the type\'s context; fp_lt, fp_leq, fp_gt, fp_geq, fp_eq and the comparison operators are the '
     'IEEE relations (false on NaN, != true); classification predicates and to_ubv/to_sbv (integer part modulo 2**n) are those of the number. The other operand is first converted to the type if it is not an FPVector; '
     'a value of another format raises TypeError.',
     ['inputs', 'configurations'], 'all formats, operand values and kinds', 'tests sample random operands of two formats against C floats',
     [FPV], mech=[('fp_* methods, fp_cast, operators', FPV)], technique=VG,
     note=BASE_NOTE % ' and gmpy2 (uninterpreted operations that carry the context in force)' + ' What gmpy2 computes inside a context is not analysed.')
prop('C17', 'FPVector bit patterns are the IEEE interchange encoding, both ways',
     'For every format, reinterpret_as_bv gives fraction, biased exponent and sign in the IEEE 754 layout for zeros, normal and subnormal numbers and infinities, and for NaN an all-ones exponent with nonzero fraction; reinterpret_from_bv '
     'gives exactly the number a pattern encodes (non-IEEE types flush subnormals to a signed zero and NaN to infinity), and a vector of another size raises TypeError. fp_is_normal, fp_is_subnormal, fp_is_zero, fp_is_infinite and fp_is_NaN agree with the encoding.',
     ['inputs', 'configurations'], 'all exponent and mantissa sizes and all bit patterns', 'tests draw random patterns of a few formats, so rarely subnormals',
     [FPV], mech=[('reinterpret_as_bv, reinterpret_from_bv, fp_is_subnormal', FPV)], technique=VG,
     note=BASE_NOTE % ' and of the gmpy2 calls used (as_mantissa_exp, numeral parsing)' + ' The normalisation loop for subnormals is summarised in closed form.')
prop('C24', 'Rebinding replaces exactly the matching types and keeps the shape',
     'T.rebind(A, B) replaces exactly the fields (members, tags) of type A, and with rebind_sub_types those below A, at every level unless rebind_recursive is false, keeping names, order, base kind and cachedness; enums are unchanged. '
     'rebind_bitvector maps every vector type below the old one to the new one of equal size (optionally under its modifiers, in order), rebind_keep_modifiers maps types below A to B under their modifiers, and rebind_type '
     'maps all bits and vectors at every level to the given family.',
     ['inputs', 'programs'], 'each shape with fields of unknown one of several classes', 'tests rebind a few fixed types',
     [META, REB], mech=[('rebind', META), ('rebind_bitvector, rebind_type', REB)], technique=CL, note=CL_NOTE % 'up to three fields, two nesting levels')
prop('C25', 'Modifiers preserve subtyping, values and order, and can be removed or pushed',
     'M(T) is a subclass of T and M and of M(S) for every base S of T, the same type each time; instances of M(T) behave as those of T; unwrap_modifier and wrap_modifier are inverse, innermost first; '
     'make_modifier(name, cache=True) alone returns the same modifier for a name; strip_modifiers removes every modifier at every level and push_modifiers moves those of inner nodes to the leaves, both keeping the shape; new(T) makes another subtype of T each time.',
     ['inputs', 'programs'], 'class hierarchies, modifier lists and ADT shapes enumerated', 'tests modify a couple of types',
     [MODS], mech=[('_ModifierMeta, unwrap/wrap/strip/push', MODS)], technique=CL, note=CL_NOTE % 'up to two modifiers, two nesting levels')
prop('C26', 'ADT visitors reach every node and component exactly once',
     'ADTVisitor visits every node of a type once per occurrence, depth first in field order, and ADTInstVisitor every component of a value whatever its value, except inactive members of sums and unions; each is dispatched '
     'to the method of its kind, anything else to visit_leaf, and the default methods of every kind descend.',
     ['inputs'], 'each kind and nesting of types and values', 'tests visit one or two types',
     [ADTU], mech=[('ADTVisitor, ADTInstVisitor', ADTU)], technique=CL, note=CL_NOTE % 'up to three fields, two nesting levels')
prop('C30', 'Types with the vector protocol are recognised and merged by ite',
     'Exactly the classes with _bitvector_t_, _from_bitvector_ and _to_bitvector_ are subclasses of BitVectorProtocol, and ite of two values of one such type (also inside tuples) is that type\'s value of the ite '
     'of their vectors; different protocol types raise TypeError.',
     ['inputs', 'programs'], 'all select values, widths and vectors; each subset of the protocol methods', 'tests use one protocol class and constants',
     [UTIL], mech=[('BitVectorProtocolMeta, build_ite', UTIL)], technique=CL, note=CL_NOTE % 'each subset of the methods')
prop('C33', 'TypedProperty and Method behave as typed descriptors',
     'A TypedProperty read on an instance gives the getter\'s value and on the class the declared type; assignment needs a setter and a value of the declared type (AttributeError, TypeError otherwise), deletion a deleter; '
     'getter, setter and deleter give a new property of the same type with one function replaced. A Method binds like a function and takes its attribute\'s name.',
     ['inputs', 'histories'], 'all values and classes of values', 'tests use one property',
     [UT], mech=[('TypedProperty, Method', UT)], technique=CL, note=CL_NOTE % 'each combination of accessors')
prop('C12', 'Live symbolic variables never share a name',
     'Constructing a pysmt-backed Bit, vector, SMTInt or SMTFPVector (one name space) or a z3-backed Bit or vector (another) without a value gives a variable of that type whose name no other live variable has, whatever names the '
     'user chose and whatever was generated before; a prefix gives such a name starting with prefix_, an explicit name is used verbatim. A name in use raises ValueError and leaves the first variable unchanged, a name that is not a string TypeError, '
     'naming or prefixing a value TypeError, name with prefix ValueError, and a refused name stays free. Values and results of operations take no name; bits, vectors and ints warn about explicit names V_<digits> and no others.',
     ['histories', 'inputs'], 'all kinds of variables, all numbered names, up to two explicit names and three or more generated ones', 'tests create a few variables in one order',
     [SMT, SINT, SFP, Z3], mech=[('_gen_name, _name_table, constructors', SMT), ('_gen_name, _name_table', Z3)], technique=CL,
     note=CL_NOTE % 'names are a stem and an arbitrary number' + ' Names are tracked while their variable is alive.')
prop('C13', 'SMTInt is integer arithmetic over terms',
     'SMTInt +, -, *, unary minus and the six comparisons denote the integer operation of that name and // SMT-LIB integer division (remainder never negative, divisor nonzero), with the operands in the order written; the other operand may be an int, bool, object with __int__, '
     'on the left as well, or a symbolic vector on the right, standing for its unsigned value. Construction from these, from an SMTInt or from an int or vector term denotes that integer. Results are SMTInt, for comparisons SMTBit; unsupported operands raise TypeError (== False, != True).',
     ['inputs', 'programs'], 'all operand terms, assignments, operand kinds, vector widths', 'tests check a few constants',
     [SINT], mech=[('operators, int_cast, __init__', SINT)], technique=CL, note=CL_NOTE % 'each operand kind')
prop('C14', 'And, Or and Implies formulas denote the connective of their members',
     'to_hwtypes of And(list), Or(list) and Implies(p, q) is an SMTBit denoting the conjunction, disjunction and implication of the members, which may be formulas themselves to any depth; the empty And is true and the empty Or false. '
     'Members other than SMTBit or formulas raise ValueError on construction, later changes of the list passed in have no effect, and conversion can be repeated.',
     ['inputs', 'programs'], 'all truth assignments; formula shapes enumerated up to depth four', 'tests convert one or two formulas',
     [SUT], mech=[('And, Or, Implies', SUT)], technique=CL, note=CL_NOTE % 'up to three members, depth four')
prop('C18', 'SMTFPVector operations are functions of their operands, one per operation',
     'Each SMTFPVector method and Python operator is the application of an uninterpreted function to its operands in order: the same function for every use of the operation in one format, never shared by two operations or formats, conversions to vectors having one per width and signedness. '
     'The result is of the operand\'s type, an SMTBit for relations and predicates (!= is the negation of fp_eq), and a vector of the width asked for for conversions. Reinterpretation keeps the bits both ways; terms of other sorts, values of other formats and other objects raise TypeError.',
     ['inputs', 'programs'], 'all operand terms; each operation, four formats and a subclass', 'tests build a few terms of one format',
     [SFP], mech=[('_SIGS, __init_subclass__, _fp_method, to_ubv', SFP)], technique=CL, note=CL_NOTE % 'each operation and format')
