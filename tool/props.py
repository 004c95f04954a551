"""The table the committed properties.jsonl and MANIFEST.json are generated from (python3 tool/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, check=None, technique=None, note=None, na=None, thorough=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, state=state,
                  check=check, technique=technique, note=note, na=na, thorough=thorough))


prop('C01', 'Everything is constexpr: every public function works in constant expressions',
     'Every public function of the library is usable in a constant expression: it is declared constexpr (in C++11, or in C++14 and later for the mutating ones) and whatever it calls on the way is constexpr too. The public types meant as constant-expression values are literal types, and library constants are compile-time constants. Only facilities whose signature is run-time by nature (streams, owning pointers, mutable bound functors, run-time engines) are exempt.',
     ['inputs', 'programs', 'configurations'], 'every public function, for all arguments and instantiations, in both language modes',
     'The tests instantiate each function with one or two argument types; a non-constexpr call sits unnoticed on the branch, overload, instantiation or language mode they do not evaluate, because the language does not diagnose it in templates.',
     ['sprout/'], [('constexpr declarations', 'SPROUT_CONSTEXPR / SPROUT_CXX14_CONSTEXPR in every header'), ('mode switch', 'sprout/config/constexpr.hpp')],
     check='c01', technique='call-graph and effect analysis over the clang AST of all headers (4 language/library configurations)',
     note='Decides constexpr closure over every function body, resolved callee, candidate set and effect in the dump of all includable headers. Trusts clang 18 front end for name lookup and the table of GCC-folded built-ins. Dependent ADL calls to user code are out of scope. It shows that no non-constexpr construct is reached, not that evaluation terminates.')

prop('C02', 'Every header stands alone: any header, any order, any number of source files',
     'Every public header compiles when it is the first and only thing a program includes, including any set of headers in any order makes all of their contents available (no header silently suppresses another), and a program may include any header in several source files and link.',
     ['programs', 'configurations'], 'all subsets and orders of the headers, both language modes, all numbers of translation units',
     'The build includes all headers once, in one order, in one file; each test includes the header under test after many others, so a missing include, a shared guard or a non-inline definition goes unnoticed.',
     ['sprout/'], [('include guards', 'first lines of every header'), ('inline / template / constexpr definitions', 'all headers')],
     check='c02', technique='name-resolution and include-graph reachability analysis over all headers, suspects confirmed by type-checking the header alone',
     note='Every name and macro written in a header is resolved by clang and must be declared in the preceding part of its own include closure (2 language modes); include cycles are simulated in order. Guard uniqueness and linkage of definitions are checked for all headers. Names that depend on template parameters (ADL, members) are not covered; configuration headers for other compilers and optional third-party adapters are skipped with a reason.')

prop('C04', 'Comparison operators of every type are coherent',
     'For every library type with comparison operators: a != b is !(a == b); a > b is b < a; a <= b is !(b < a); a >= b is !(a < b); == is reflexive and symmetric in form and compares the same part of both operands (also when one operand is a pointer, a value or a tag such as nullopt or npos); sequences compare equal only when their lengths agree; < is lexicographic over the same members as ==, and never true for identical operands.',
     ['inputs', 'programs'], 'every pair of operands of every type and overload, both operand orders',
     'Tests compare a few literal values with one or two of the six operators; the mixed-type overloads and the derived operators are mostly never called.',
     ['sprout/array/comparison.hpp', 'sprout/tuple/tuple/comparison.hpp', 'sprout/optional/comparison.hpp', 'sprout/string/comparison.hpp', 'sprout/utility/pair/comparison.hpp', 'sprout/iterator/'],
     [('operator definitions', 'comparison.hpp of each type, iterator classes'), ('pair-wise comparison helpers', 'sprout::equal, sprout::lexicographical_compare, tuple helpers')],
     check='c04', technique='term rewriting of operator bodies from the clang AST to boolean skeletons over primitive comparisons, compared by truth table',
     note='Every operator ==,!=,<,>,<=,>= in the tree is reduced to a boolean combination of primitive comparisons of the two operands; the laws are decided on that skeleton. Element comparisons are uninterpreted. Operators whose body cannot be reduced are counted as undecided and not alarmed.')

prop('C05', 'Range versions of algorithms are the iterator versions on begin and end',
     'Each algorithm in sprout::range (and its fixed and fit variants) gives what the iterator algorithm of the same name gives on [begin, end) of its range arguments, with every other argument handed on unchanged and in order: the first range first, each range with its own begin and end, no predicate, functor, value or output dropped, exchanged or replaced by a default.',
     ['inputs', 'programs'], 'every range algorithm and overload, for all ranges, values and functors',
     'Tests call one or two overloads per range algorithm with symmetric data (equal lengths, commutative operators, default predicates), for which an exchanged or dropped argument gives the same result.',
     ['sprout/range/algorithm/', 'sprout/range/numeric/'], [('forwarding of ranges', 'sprout/range/{algorithm,numeric}/**/*.hpp')],
     check='c05', technique='forwarding analysis on terms extracted from the clang AST: each range function must denote its namesake applied to begin/end of its parameters',
     note='All function templates in namespaces sprout::range, range::fixed and range::fit with an iterator namesake. Behaviour of the iterator algorithm itself is not decided here.')

prop('C26', 'Recursions and loops make progress and cover their whole range',
     'Every recursive or iterative traversal in the library ends and visits each element of its range once: each step moves toward the end it tests (right direction, right stride, every iterator that runs in step is moved), a divide-and-conquer step splits its range into parts that meet at the pivot without gap or overlap, counts go down by what was consumed, halving ends at sizes 0 and 1, empty ranges are not dereferenced, and a result is assembled from all consumed elements.',
     ['inputs', 'histories'], 'every recursive helper and loop over ranges, counts and indices, for ranges of every length',
     'Tests run a few short ranges; gaps at split points, wrong strides and missing progress show only for certain lengths, positions of a match or iterator categories.',
     ['sprout/algorithm/', 'sprout/numeric/', 'sprout/iterator/', 'sprout/string/', 'sprout/random/'], [('recursive helpers', 'detail::*_impl, *_impl_1 and the ra variants'), ('C++14 loops', 'function bodies in cxx14 variants')],
     check='c26', technique='progress and range-partition analysis of recursive calls and loops on terms from the clang AST (linear forms over iterators and counts)',
     note='Decides self and mutually recursive helper calls and loops whose arguments reduce to linear forms (iterator plus offset, half, pivot). What is computed per element is not interpreted. Calls that do not reduce are counted as undecided and not alarmed.')

prop('C27', 'Overloads and dispatch layers hand every argument on unchanged',
     'A function that forwards to another overload or to an implementation helper of the same algorithm hands on each of its arguments once, in its own role: none is dropped, exchanged with another or replaced by a constant, and the function object it supplies where the caller gave none is the documented default (less for orderings, equal_to for equality, plus/minus/multiplies for the numeric algorithms, the operator itself for operator overloads).',
     ['inputs', 'programs'], 'every forwarding overload, dispatch layer and default argument, for all arguments',
     'Tests call most algorithms through one overload, with operators that commute and with arguments for which neighbours coincide.',
     ['sprout/algorithm/', 'sprout/numeric/', 'sprout/random/', 'sprout/string/', 'sprout/operation/', 'sprout/weed/'],
     [('overload forwarding', 'X(...) -> X(..., default)'), ('dispatch', 'X(...) -> detail::X_impl(...)')],
     check='c27', technique='argument-flow analysis on terms extracted from the clang AST (parameter roles, order, duplication, default functors)',
     note='Decides forwarding calls between same-name overloads and from public functions to helpers. The helper bodies (loops, recursions) are not interpreted.')

prop('C28', 'No template is dead on arrival: everything a body uses exists as used',
     'Every public template can be instantiated: each function its body calls by name has an overload taking that number of arguments, each name it uses is declared, each member it accesses exists in the class it is accessed on, with that number of arguments and usable on a const object where it is used on one, and each class it constructs has a constructor taking that number of arguments. Public templates and their members type-check when instantiated with ordinary arguments (element types, iterators of each category, containers by value and by reference).',
     ['programs'], 'every template body in the library, whether or not any program instantiates it',
     'A template body is only checked when it is instantiated; overloads and members no test calls can be uncompilable without anyone noticing.',
     ['sprout/'], [('template bodies', 'all headers')],
     check='c28', technique='arity, name and const-correctness resolution of all uses in template patterns (clang AST), plus compile-only type-level witnesses',
     note='Covers names, numbers of arguments, member existence and constness in all uninstantiated templates; argument types only for the 14 870 tabulated instantiation witnesses, which are type-checked (never run). Two known findings (fit::fft_impl, fixed::ifft) are listed.')

prop('C34', 'Every argument counts: parameters are used and members initialised from them',
     'Every named parameter of every function influences it (it is read in the body or an initialiser), a constructor whose parameter bears the name of a member initialises that member from that parameter, and no constructor leaves a scalar member without a value.',
     ['inputs', 'programs'], 'every function and constructor, for all arguments',
     'Tests build objects from a few values, often with equal or zero arguments, and do not look at each member after each constructor.',
     ['sprout/'], [('parameters', 'all function definitions'), ('constructor initialisers', 'all classes')],
     check='c34', technique='def-use analysis of parameters and constructor initialiser lists over the clang AST',
     note='All function definitions of the dump. Seven parameters that by design are ignored are tabulated with the reason in the check.')


prop('C13', 'Math functions give the C99 results on special values and never elsewhere',
     'For NaN, infinities, signed zeros and arguments outside the domain, every function of sprout/math gives the value the C99 standard (Annex F) fixes for it, for every argument of that class, with and without the compiler\'s built-in functions; ordinary arguments are never answered with a special-case value; classification, comparison and sign functions (isnan, isinf, signbit, copysign, less, greater, ...) are right for every argument, and orderings of integers of different signedness compare by value.',
     ['inputs', 'configurations'], 'every class of argument (NaN, ±inf, ±0, ±1, intervals between the special points, integers odd and even), both language configurations',
     'The math functions are tested on few ordinary values and only in the configuration of the build; special values answered wrongly or ordinary ones caught by a guard go unnoticed.',
     ['sprout/math/'], [('special-value dispatch', 'sprout/math/*.hpp'), ('comparison functions', 'sprout/math/{less,greater,equal_to,...}.hpp')],
     check='c13', technique='abstract interpretation of the function bodies over a partition of the floating-point line, against C99 Annex F',
     note='The partition has points NaN, ±inf, ±0, ±1, ±1/2, largest/smallest values and the open intervals between; the kernel series that compute ordinary values are opaque, so numerical accuracy is not decided. Functions whose special-value result comes out of the kernel are counted as computed and not alarmed.')


prop('C10', 'Constants, tables and engine parameters have the values their names say',
     'Each named mathematical constant has its value to the precision of the type; the factorial, Bernoulli, log-factorial, Stirling, bit-reversal, bit-length, digit and MD5/SHA-1 tables hold the defined values and have the length their limits say; the ASCII character functions give the right class and case for every character; the random engine typedefs (minstd, mt19937, mt19937_64, mt11213b, taus88, ecuyer1988, knuth_b, ...) have the published parameters and default seeds; the RFC 4122 name-space identifiers, version and variant numbers, parser bases and digit counts, placeholders and manipulators are the ones their names denote.',
     ['inputs'], 'every entry of every table, every constant, every character',
     'Tests read a handful of entries (often none): one wrong digit in a table, an engine parameter or a character class goes unnoticed.',
     ['sprout/math/', 'sprout/random/', 'sprout/checksum/', 'sprout/ctype/', 'sprout/bit/', 'sprout/uuid/', 'sprout/weed/', 'sprout/io.hpp'],
     [('constants', 'sprout/math/constants.hpp, factorial.hpp, bernoulli.hpp'), ('engine typedefs', 'sprout/random/*.hpp'), ('character classes', 'sprout/ctype/ascii.hpp'), ('checksum tables', 'sprout/checksum/{md5,sha1}.hpp')],
     check='c10', technique='constant folding of initialisers in the clang AST, compared with independently computed values',
     note='Folds literals, arithmetic, named constants and argument-free functions; the ASCII functions are folded over their whole finite domain. Coefficients of numerical approximations are not covered.')


prop('C11', 'Type-level functions give the type or constant their names say',
     'Every type trait, type transformation, promotion rule, operator detector, index sequence, type-list algorithm, iterator category, tuple protocol and result type of a math function in sprout gives, for every type or constant it is applied to, the type or compile-time constant that its name promises: standard-named traits and transformations agree with the standard library, has_xxx detectors are true exactly when the expression is well-formed, promotions follow the usual arithmetic conversions, sequences and list algorithms (all_of, one_of, find_index, lower_bound_index, tuple_cat, push_back, transform, fold, ...) hold the elements the definition says, and ::value / _v / _t forms agree; sprout::pair and sprout::tuple are constructible, convertible and assignable from each other when the std ones are.',
     ['inputs', 'configurations'], 'a zoo of about 130 types (and pairs of types), lists up to 11 elements, sequences up to 257 long, both compilers and language modes C++11 to C++17',
     'Unit tests touch a few traits with a few types; a trait wrong for a volatile, reference, function, abstract, throwing or move-only type, or a list algorithm wrong for one arrangement, silently selects the wrong overload in user code.',
     ['sprout/type_traits/', 'sprout/type/', 'sprout/tpp/', 'sprout/index_tuple/', 'sprout/integer/', 'sprout/tuple/', 'sprout/container/', 'sprout/iterator/', 'sprout/math/'],
     [('traits and detectors', 'sprout/type_traits/*.hpp'), ('promotions', 'sprout/type_traits/{float,arithmetic,complex}_promote.hpp'), ('index sequences', 'sprout/index_tuple/*.hpp'), ('type-list algorithms', 'sprout/type/{algorithm,operation,iterator,seq}/*.hpp, sprout/tpp/algorithm/*.hpp')],
     check='c11', technique='compile-time type witnesses (static_assert over types and metafunction results) against the standard library, independent detectors and computed lists, type-checked by clang and gcc',
     note='Universally quantified over types only through the zoo. Oracle: libstdc++ traits and the overload resolution of g++ 13 / clang 18. The is_*_unqualified traits (whose names say the opposite of what they do) and nothing-but-formatting helpers are left out.')


prop('C03', 'Every documented configuration builds the same library',
     'Under each configuration switch documented in sprout/config/user_config.hpp (each optional language feature disabled or forced, built-in functions disabled, pointers instead of index iterators, ...), with either compiler and in each language mode, all headers compile together, and every public template that can be used in the default configuration can be used, with the same arguments, in the others.',
     ['configurations', 'programs'], 'every documented switch, alone and together, both compilers, all language modes, every witness use of a public template',
     'The tests are built in one configuration; code in the other branches of #if is not even parsed.',
     ['sprout/config/', 'sprout/'], [('switches', 'sprout/config/user_config.hpp, suffix.hpp'), ('alternatives', '#if SPROUT_USE_... in all headers')],
     check='c03', technique='type-checking (no code is run) of all headers and of 14 870 instantiation witnesses under every documented configuration switch',
     note='Switches are read from the header; four that are no configuration of these compilers are left out with the reason. Only well-formedness is decided; C01, C06, C07, C26, C27, C28 and C34 analyse the pointer configuration as well.')

prop('C06', 'Iterators obey the iterator laws: every way of moving and comparing agrees',
     'For every iterator of the library, in every position it can be in: ++ and -- undo one another; it++ and it-- move as ++it and --it and return the old value; next, prev, iterator_next, iterator_prev, it + n, it - n, n + it, += and -= make the same steps; it[n] is *(it + n); (it + n) - it is n; -> is the address of what * designates; ==, !=, <, >, <= and >= between an iterator and its neighbours have the values their order of traversal says.',
     ['inputs', 'histories'], 'every iterator class, every state of the iterator (position, sub-range it is in, step, direction), every distance',
     'Tests walk one or two short ranges forward, mostly with ++ and *; stepping back over a joint, random access, differences and comparisons across segment boundaries are not called, or only in a state where the variants coincide.',
     ['sprout/iterator/', 'sprout/container/', 'sprout/string/', 'sprout/sub_array/', 'sprout/utility/'], [('iterator operators', 'sprout/iterator/*_iterator.hpp'), ('iterators of containers', 'optional, string, bitset, index_tuple enumerators')],
     check='c06', technique='abstract interpretation of the operator bodies (clang AST) over symbolic iterator states in a linear domain, relations between the resulting states',
     note='42 iterator classes. Element access of the underlying iterators is opaque; relations that need more than linear facts about the state (83 of 3361) stay undecided and quiet. Iterators of the library over themselves are interpreted one level deep.')

prop('C07', 'All ways to reach an element of a container agree',
     'For every container of the library, for every size and index: c[i] of a const and of a non-const container, at(i), *(begin() + i), *(cbegin() + i), data()[i], c_array()[i] and the reverse iterators designate the same element; front and back are the first and last; at(i) throws exactly when i >= size(); end() - begin() is size() for all iterator pairs; cbegin, cend, crbegin and crend are begin, end, rbegin and rend of the const container; empty() is size() == 0, length() is size(), nth(i) is begin() + i and index_of its inverse.',
     ['inputs', 'programs'], 'every container class, every size, index and constness',
     'Tests use the accessors of a few full containers; the const overloads, the reverse ranges, and containers whose size is below their capacity or zero are not sampled.',
     ['sprout/array/', 'sprout/string/', 'sprout/pit/', 'sprout/sub_array/', 'sprout/valarray/', 'sprout/optional/', 'sprout/complex/', 'sprout/range/'], [('accessors', 'member functions of each container class')],
     check='c07', technique='abstract interpretation of the accessor bodies (clang AST) over an arbitrary container state and index in a linear domain',
     note='25 classes. Where an accessor delegates to an opaque user container, the same call on the same object must result. 12 of 449 relations are undecided and quiet.')

prop('C08', 'Copying, moving, assigning and swapping treat every member of an object',
     'For every class of the library with its own copy or move constructor, copy or move assignment, or member or free swap: a copy equals its source in every data member (the active alternative, the size, the engaged flag and each element included); assignment makes every member that of the source and leaves the source of a copy unchanged; swap exchanges every member of the two objects, both ways, and nothing else; converting copies from another instantiation carry over each member.',
     ['inputs', 'programs'], 'every object of every class of the library, in every state (empty, partly filled, full)',
     'Tests copy and swap a few objects that often agree in the member that is left out (the size, the position, a flag, a stored functor); an operator that forgets a member passes them.',
     ['sprout/array/array.hpp', 'sprout/string/string.hpp', 'sprout/optional/optional.hpp', 'sprout/pit/', 'sprout/sub_array/', 'sprout/valarray/', 'sprout/iterator/', 'sprout/range/adaptor/', 'sprout/variant/variant.hpp', 'sprout/utility/'], [('special members and swap', 'swap, operator= and constructors of each class')],
     check='c08', technique='abstract interpretation of constructors, assignments and swaps (clang AST) over arbitrary objects, member by member, in a linear domain',
     note='About 520 functions; those whose body leaves the interpreted fragment (about a fifth) are undecided and quiet. The swap of an unknown element type is taken to exchange its arguments. Two language modes.')

prop('C12', 'Function objects do the operation their names say',
     'Every function object of sprout/functional applies the operation it is named after to its arguments, in their order, and returns that result with the type its contract gives: plus to bit_xor, the comparisons, logical_and/or/not, the assignment function objects (plus_assign, ...), increments, posite/negate, negations (not1, not2, not_fn), equivalences, bind1st, bind2nd, mem_fun and mem_fn, ptr_fun, reference_wrapper; both for the typed and for the transparent (void) form; the typedefs of argument and result types name the types of operator().',
     ['inputs', 'programs'], 'all arguments and instantiations of every function object',
     'Tests call a few function objects with ints where many wrong operators or swapped operands give the same result; the transparent forms and the result typedefs are hardly called.',
     ['sprout/functional/'], [('operator()', 'sprout/functional/*.hpp')],
     check='c12', technique='normalisation of the expression tree of each operator() in the type-checked program, compared with the operation of its name',
     note='388 obligations. bind, hash and polymorphic function wrappers are not covered (bind hands on its arguments: C27).')

prop('C21', 'Arithmetic of complex, quaternion and rational is that of the algebra',
     'For all operands the operators of complex, quaternion and rational (binary, compound assignment, unary, mixed with scalars and, for quaternion, complex; also when both operands of a compound assignment are the same object) compute the value the algebra defines, as an identity over exact numbers: real and imaginary parts, the Hamilton product in the right order, division as multiplication by the inverse, numerator and denominator over any common factor. ==, != agree with equality of the components; conj, norm, real, imag, unreal and the conversions between the types act on the components they name.',
     ['inputs'], 'all operands, all overloads, aliasing operands included',
     'Tests of complex and rational use a few operands (many overloads are not called at all, quaternion hardly), and operands with zero or equal components hide a sign or a swapped component.',
     ['sprout/complex/', 'sprout/math/quaternion/', 'sprout/rational/'], [('operators', 'sprout/complex/arithmetic_operators.hpp, sprout/math/quaternion/arithmetic_operators.hpp, sprout/rational/')],
     check='c21', technique='abstract interpretation of the operators in the domain of quotients of polynomials over the components (normal forms compared with the algebra)',
     note='360 obligations, over the field of rational functions: rounding, overflow and special values (C13 for math) are outside. Ordering of rationals and the transcendental functions of complex and quaternion are not covered.')

prop('C36', 'Searching, counting and binary searches give the result their names say',
     'For every range (empty, of any length, for iterators of any category) and every predicate or value: all_of, any_of, none_of, one_of and their _equal forms give the truth of the quantifier (one_of: exactly one); find, find_if and find_if_not give the first position that matches, or the end; count and count_if give the number of matches; is_partitioned tells whether no matching element follows one that does not match. On every range ordered accordingly, lower_bound, upper_bound, equal_range, binary_search and partition_point give the boundary, both boundaries, or whether an equivalent element exists, with the given order or with <.',
     ['inputs'], 'every range, length, iterator category, predicate, value and order',
     'Tests run these functions over one array of ten elements; the functions halve or double their ranges, so a mistake in how halves are combined shows only for certain lengths with matches in certain halves (one_of was wrong for three matches split over two halves).',
     ['sprout/algorithm/'], [('halving and doubling recursions, loops', 'sprout/algorithm/all_of.hpp, any_of.hpp, none_of.hpp, one_of.hpp, *_equal.hpp, find.hpp, find_if.hpp, find_if_not.hpp, count.hpp, count_if.hpp, is_partitioned.hpp, partition_point.hpp, lower_bound.hpp, upper_bound.hpp, equal_range.hpp, binary_search.hpp')],
     check='c36', technique='collecting abstract interpretation: least fixpoint over abstract ranges (gaps of one or many elements of which none, one, more or all match)',
     note='48 versions of 18 functions, all decided. Termination and coverage are also C26. Where the abstract domain does not decide a changed version, ranges of at most five abstract elements are interpreted exactly to refute it. Predicates and comparisons are assumed to be pure.')

prop('C90', 'Sorting, heap and partition algorithms produce sorted, permuted results',
     'The sorting, merging, heap, partition and permutation algorithms give, for every range and every strict weak order, a result that is ordered, heap-ordered or partitioned as their name says and is a permutation of the input.',
     ['inputs'], 'every range, length, element type and comparator',
     'Tests sort a few fixed arrays; an error that needs a certain arrangement of elements stays hidden.',
     ['sprout/algorithm/'], [('sorting', 'sprout/algorithm/sort.hpp, stable_sort.hpp, heap functions')], check=None,
     na='Order of the result depends on the run-time values compared; the structural necessary conditions (progress, coverage of the range, comparator handed on) are decided by C26 and C27, the functional property is an inductive argument over element values that no sound static analysis in reach settles.')

prop('C91', 'Math functions are accurate for ordinary arguments',
     'For every ordinary argument each function of sprout/math and sprout/numeric/fft gives the exact result within a few units in the last place.',
     ['inputs'], 'every ordinary floating-point argument',
     'Tests compare a handful of arguments with a wide tolerance.',
     ['sprout/math/', 'sprout/numeric/'], [('kernels', 'sprout/math/detail')], check=None,
     na='A bound of the rounding and truncation error of series and argument reductions in run-time floating-point arithmetic; static argument in reach covers special values (C13) and coefficients given as tables (C10) only.')

prop('C92', 'Distributions and shuffles have the distribution their names say',
     'Samples of each distribution follow its law, shuffle gives each permutation equally often, and engines have their full period.',
     ['inputs', 'histories'], 'every engine, seed and parameter',
     'Tests draw a few numbers from one engine and one seed.',
     ['sprout/random/', 'sprout/algorithm/'], [('distributions', 'sprout/random/*_distribution.hpp')], check=None,
     na='A statistical statement about run-time sequences; statically decided are the engine parameters (C10), argument flow (C27), progress of the sampling loops (C26) and that no state is dropped (C34).')

prop('C93', 'Checksums, digests and parsed values are those of the reference algorithms',
     'MD5, SHA-1, CRC and BSD/System V sums of every message, UUIDs made from every text, numbers parsed from every string and the results of the weed parsers are those of the reference algorithms.',
     ['inputs'], 'every message and string',
     'Tests hash and parse a few fixed strings.',
     ['sprout/checksum/', 'sprout/uuid/', 'sprout/weed/', 'sprout/cstdlib/'], [('digests', 'sprout/checksum/*.hpp')], check=None,
     na='Equality of a whole iterated computation with a reference for messages of unbounded length; statically decided are its tables, initial values and parameters (C10) and the recursion over the message (C26).')

prop('C94', 'Rendered images, synthesised sound and interpreted programs are as specified',
     'darkroom renders, compost filters, generated text and the brainfuck interpreter give the output their specification says.',
     ['inputs', 'histories'], 'every scene, signal and program',
     'Examples only; there are hardly any tests.',
     ['sprout/darkroom/', 'sprout/compost/', 'sprout/brainfuck/'], [('darkroom', 'sprout/darkroom/'), ('brainfuck', 'sprout/brainfuck/')], check=None,
     na='There is no specification other than the code; only structural properties (C01, C02, C26, C27, C28, C34) of these parts are decided.')
