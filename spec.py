"""The properties (source of properties.jsonl and MANIFEST.json; see mk.py)."""
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, text, why, files, mech, technique, note, over=('inputs',), observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a['observe_at'] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why, anchors=a, technique=technique, note=note))


DIFF = 'property-based testing: generated ranges, differential against the standard algorithms, shrinking, coverage-guided mutation'

P('A01', 'Non-modifying sequence algorithms equal the standard ones on every range',
  'all_of/any_of/none_of/one_of, find*, adjacent_find, count*, mismatch, equal, is_permutation, search, search_n, find_end, find_first_of and their Sprout extensions return exactly what the standard algorithm (or its documented definition) returns, for every range, predicate and iterator category. They read only inside the given ranges and leave single-pass input usable as such.',
  'every range length and content, every predicate, every iterator category (random access, bidirectional, forward, input, pointer, list), both language modes',
  'the tests check about ten fixed arrays of ten ints with one iterator kind per algorithm; the divide-and-conquer split points, the single-pass paths and empty/odd sizes are not enumerated',
  ['sprout/algorithm/non_modifying.hpp', 'sprout/algorithm/find_if.hpp', 'sprout/algorithm/search.hpp', 'sprout/algorithm/search_n.hpp', 'sprout/algorithm/is_permutation.hpp', 'sprout/algorithm/mismatch.hpp'],
  [('binary-splitting recursion for random access, paired next/last recursion for single pass', 'sprout/algorithm/*.hpp detail::*_impl, *_impl_ra')],
  DIFF, 'random search over ranges of up to about 300 elements with few distinct keys; six iterator kinds; C++11 and C++17 code paths')

P('A02', 'Order, search and set queries equal the standard ones on every range',
  'lower/upper_bound, equal_range, binary_search, includes, is_sorted*, is_heap*, is_partitioned, partition_point, min/max/minmax(_element), clamp, lexicographical and three-way comparisons agree with the standard definitions for every range and every strict weak order, including which of several equivalent elements is returned. Comparators are only ever applied to elements of the ranges.',
  'every range, every strict weak ordering (also non-total ones), every iterator category',
  'tests use one or two fixed sorted arrays; ties, ranges with one element, non-default comparators with equivalence classes and non-random-access iterators are not covered',
  ['sprout/algorithm/lower_bound.hpp', 'sprout/algorithm/equal_range.hpp', 'sprout/algorithm/includes.hpp', 'sprout/algorithm/is_heap_until.hpp', 'sprout/algorithm/minmax_element.hpp', 'sprout/algorithm/lexicographical_compare.hpp'],
  [('binary-splitting recursion', 'sprout/algorithm/*.hpp')],
  DIFF, 'random search; element identity is checked, so a wrong choice among equivalent elements is seen')

P('A03', 'In-place modifying algorithms have the standard effect and write only in range',
  'copy*, move*, swap*, transform, replace*, fill*, generate*, remove*, unique*, reverse*, rotate*, shuffle, partition*, stable_partition and the other C++14-style mutating algorithms leave exactly the sequence the standard algorithm leaves (or, where the result is unspecified, a permutation satisfying the postcondition), return the same position, and touch nothing outside the ranges passed.',
  'every range content and length, every split point, overlapping source and destination where the standard allows it, every iterator category',
  'the in-place algorithms have almost no tests at all; whole functions (move_backward, for_each_n, copy_while) had never been instantiated',
  ['sprout/algorithm/cxx14', 'sprout/algorithm/cxx14/rotate.hpp', 'sprout/algorithm/cxx14/stable_partition.hpp', 'sprout/algorithm/cxx14/remove_if.hpp', 'sprout/algorithm/cxx14/unique.hpp'],
  [('loop implementations usable in constant expressions', 'sprout/algorithm/cxx14/*.hpp')],
  DIFF, 'random search; bounds-checked iterators plus AddressSanitizer on pointer ranges; randomised algorithms are checked for permutation and range only')

P('A04', 'Sorting, heap, merge and permutation algorithms meet their contracts',
  'sort, stable_sort, partial_sort(_copy), nth_element, the heap operations, merge, inplace_merge, the set operations and next/prev_permutation leave a sorted (partitioned, heap-ordered) permutation of the input for every input and every strict weak order; the stable ones keep equivalent elements in order, and merges and set operations produce exactly the standard output.',
  'every input length up to the thresholds where the algorithms change strategy and beyond, every arrangement (random, sorted, reversed, organ-pipe, few distinct keys), every strict weak order',
  'tests sort one fixed ten-element array; the size thresholds (insertion sort, median choices, pre-sorted detection) are never crossed',
  ['sprout/algorithm/cxx14/sort.hpp', 'sprout/algorithm/cxx14/stable_sort.hpp', 'sprout/algorithm/cxx14/nth_element.hpp', 'sprout/algorithm/cxx14/detail/heap_tool.hpp', 'sprout/algorithm/cxx14/inplace_merge.hpp'],
  [('introsort-like quicksort with insertion-sort tails, heap selection, rotation-based merge', 'sprout/algorithm/cxx14/*.hpp')],
  DIFF, 'random search with structured arrangements up to 1100 elements')

STATE = 'stateful property-based testing: generated operation sequences against the standard type as a model, shrinking'

P('S01', 'basic_string behaves as the standard string within its capacity',
  'Every sequence of basic_string operations (construction, assign, append, erase-like edits, resize, element and iterator access, find/rfind/find_*_of, compare, substr, copy, concatenation, stream input and output, comparison) gives the same text, length, return value and exception as std::string for text without embedded NUL, as long as the result fits the fixed capacity. The buffer always holds a terminator after the text, and nothing outside the string is read or written.',
  'every operation sequence, every text up to the capacity, every position and count including npos and size()',
  'the tests run each member once on one literal at compile time; run-time mutation, boundary positions and sequences of operations are untested',
  ['sprout/string/string.hpp', 'sprout/string/char_traits.hpp', 'sprout/string/concat.hpp', 'sprout/string/io.hpp', 'sprout/string/comparison.hpp'],
  [('elems[N+1] plus len; find algorithms by recursion or index iterators', 'sprout/string/string.hpp detail::string_impl / basic_string')],
  STATE, 'random search; capacities 0, 1, 5, 32 and 300; char, wchar_t; embedded NUL characters are outside the claim', over=('inputs', 'histories'))

P('S02', 'basic_string_view behaves as the standard view and never reads outside it',
  'Every query of a string view (element access, substr, copy, compare, the find family, remove_prefix/suffix, comparison, output, hash of equal views) equals the result of the same query on a standard string with the same characters, and never reads outside the viewed characters, which need not be terminated.',
  'every viewed text, every needle, position and count including npos and out-of-range values',
  'there are no tests beyond compile-time calls on a literal, which is always terminated',
  ['sprout/utility/string_view/string_view.hpp', 'sprout/utility/string_view/comparison.hpp', 'sprout/utility/string_view/io.hpp', 'sprout/utility/string_view/hash.hpp'],
  [('pointer + length; find algorithms by recursion', 'sprout/utility/string_view/string_view.hpp')],
  'property-based testing: differential against std::string on exactly sized heap buffers under AddressSanitizer', 'random search over texts up to about 60 characters from small alphabets')

P('S03', 'cstring and cwchar functions equal the C library on every terminated string',
  'strlen, strcmp, strncmp, strcpy, strncpy, strcat, strncat, strchr, strrchr, strstr, strspn, strcspn, strpbrk, the mem* functions and their wide counterparts return what the C library returns (comparisons: the same sign), write exactly what it writes, and read or write nothing past the terminator or the given count.',
  'every pair of strings, every count, overlapping buffers for memmove, all character values including negative char',
  'tests compare a few literals; overlapping moves, characters above 127, empty patterns and counts at the terminator are not covered',
  ['sprout/cstring', 'sprout/cwchar', 'sprout/cstring/strstr.hpp', 'sprout/cstring/memmove.hpp', 'sprout/cstring/strcmp.hpp'],
  [('recursion over iterators', 'sprout/cstring/*.hpp')],
  'property-based testing: differential against libc on exactly sized heap buffers under AddressSanitizer', 'random search; buffers up to about 80 characters')

P('N01', 'Number parsing and printing agree with the C library and round-trip',
  'Parsing integers (strto*, sto*, ato*, from_string; every base, prefix, sign, white space and trailing text; every width, with saturation) gives the C library value and end position. Printing integers in any supported base gives the standard digits, terminated, and parses back to the value. Parsing decimal floating-point text is within a few units in the last place of strtod and exact for integers; to_string of a floating-point value shows it rounded to six decimals, and the exponent form to seven digits. div and abs match C.',
  'every integer text and value of the integer types, including their limits; every base 0 and 2 to 36 (printing: 2, 8, 10, 16); decimal floating-point text with up to 34 digits and any exponent; values below 1/epsilon for fixed-point printing',
  'the tests contain no number conversions at all beyond a few literals; limits, prefixes under other bases, exponents and carries in rounding are exactly what samples miss',
  ['sprout/cstdlib/str_to_int.hpp', 'sprout/cstdlib/str_to_float.hpp', 'sprout/cstdlib/ascii_to_int.hpp', 'sprout/string/int_to_string.hpp', 'sprout/string/float_to_string.hpp', 'sprout/string/string_to_int.hpp', 'sprout/detail/char_conversion.hpp', 'sprout/cinttypes'],
  [('digit recursion with overflow guard', 'sprout/cstdlib/str_to_int.hpp'), ('digit extraction into an index pack', 'sprout/string/*_to_string.hpp')],
  'property-based testing: differential against libc and a wide-integer model, round trips, limits-biased generators', 'random search; hexadecimal floats, infinities and NaN text are outside the parsers and outside the claim')

P('N02', 'Character classification and case mapping equal the C locale',
  'Every is* predicate, tolower/toupper, their wide and functor forms, masks (isclassified) and case-insensitive comparison agree with the C locale for ASCII characters, and classify every other character value, including negative char and wide values, as nothing.',
  'every char, and wchar_t/char16_t/char32_t values over the whole range',
  'there are no tests for these functions; a wrong table row or a negative char index shows only on that character',
  ['sprout/ctype/ascii.hpp', 'sprout/ctype/wascii.hpp', 'sprout/ctype/functor.hpp', 'sprout/ctype/mask.hpp'],
  [('128-entry table of class bits, range-checked index', 'sprout/ctype/ascii.hpp')],
  'property-based testing: differential against <cctype> and std::ctype of the classic locale', 'the 128 ASCII characters are all drawn many times; wide values are sampled')

P('B01', 'bitset behaves as std::bitset for every size and history',
  'Every sequence of bitset operations (set/reset/flip, shifts, logical operators, references, conversions to and from integers, strings and streams, find_first/find_next, comparison, count/any/all/none, hash of equal sets) gives the same bits, results and exceptions as std::bitset, for sizes below, at and above word boundaries; bits at or above N never appear.',
  'every operation history, every shift distance including multiples of the word size and beyond N, sizes 0 to 323',
  'tests use a few sizes and literal constants; multi-word shifts, find_next across words and stream extraction were never instantiated',
  ['sprout/bitset/bitset.hpp', 'sprout/bitset/io.hpp', 'sprout/bitset/bitwise.hpp', 'sprout/bitset/hash.hpp', 'sprout/bit/popcount.hpp', 'sprout/bit/ctz.hpp'],
  [('array of unsigned long words; const operations build new word packs, mutable ones loop', 'sprout/bitset/bitset.hpp base_bitset<N>')],
  STATE, 'random search; eleven sizes', over=('inputs', 'histories'))

P('B02', 'Bit operations equal their bit-by-bit definition for every integer width',
  'popcount, parity, bit_length, bit_reverse, clz/ctz and the counts of leading or trailing zeros and ones, the shifts and rotations, the single-bit, bit-range and rightmost-bit operations give the result of their bit-by-bit definition on the N-bit representation, for every value of every signed and unsigned integer type, with compiler builtins enabled or disabled.',
  'every value of the standard integer types including limits, every bit position and shift distance in range',
  'the functions have no tests; wrong results appear only for particular widths, negative values, position N-1 or shift 0',
  ['sprout/bit', 'sprout/bit/popcount.hpp', 'sprout/bit/bit_reverse.hpp', 'sprout/bit/rotl.hpp', 'sprout/bit/ctz.hpp', 'sprout/bit/bit_length.hpp'],
  [('builtins per type, or table and mask arithmetic', 'sprout/bit/*.hpp')],
  'property-based testing: generated values and positions against a bit-by-bit model, both builtin configurations, UndefinedBehaviorSanitizer', 'random search biased to limits, single bits and runs of ones; ten integer types')

P('A05', 'Container-returning algorithms overlay or fit exactly the standard result',
  'Every algorithm of sprout::fixed:: returns the destination container overlaid with exactly the elements the standard algorithm would have written, truncated to its size and otherwise unchanged; sprout::fit:: returns a sub_array of exactly the elements produced. The arguments are unchanged. This holds for whole containers and for sub_array windows at any offset, and for random access and forward sources alike.',
  'every source range, destination size and window, every predicate, comparator and engine state',
  'tests check one ten-element array per algorithm, in which source and destination sizes match and windows are fixed',
  ['sprout/algorithm/fixed', 'sprout/algorithm/fit', 'sprout/detail/container_complate.hpp', 'sprout/container/functions.hpp', 'sprout/sub_array/sub_array.hpp'],
  [('parameter-pack expansion over container indexes, remake()', 'sprout/algorithm/fixed/*.hpp'), ('window arithmetic on the internal container', 'sprout/algorithm/fit/*.hpp')],
  'property-based testing: differential against the standard algorithms on vectors, over destination shapes and windows', 'random search; destinations of 0 to 9 elements and windows of them')

P('A06', 'Numeric algorithms and Fourier transforms equal their sequential definition',
  'accumulate, reduce, inner_product, transform_reduce, partial_sum, adjacent_difference, iota and the inclusive/exclusive (transform) scans give, for every range and every associative operation (accumulate and inner_product: every operation), the value of the left-to-right definition, in the iterator, fixed:: and fit:: forms, writing nothing beyond it. dft/idft/fft/ifft equal the discrete Fourier sum to rounding error and invert each other.',
  'every range and iterator category, non-commutative operations, every destination size; transforms of any signal at the sizes tried',
  'the numeric headers have no tests; splitting the range at the pivot changes the order of operations, which only a non-commutative operation reveals',
  ['sprout/numeric', 'sprout/numeric/accumulate.hpp', 'sprout/numeric/inner_product.hpp', 'sprout/numeric/fixed/partial_sum.hpp', 'sprout/numeric/cxx14/exclusive_scan.hpp', 'sprout/numeric/fft/cxx14/fft.hpp', 'sprout/numeric/dft/dft_element.hpp'],
  [('binary splitting carrying the accumulator', 'sprout/numeric/*.hpp'), ('split-radix in place, Stockham for containers', 'sprout/numeric/fft')],
  'property-based testing: generated ranges and non-commutative operations against sequential reference folds; transforms against the long double definition', 'random search; ranges up to 300 elements; transforms of 2 to 256 points. Inclusive scans given an initial value put that value out first (Sprout convention, the same in all three forms)')

P('M01', 'Math functions agree with libm, special values included',
  'With compiler builtins, the elementary functions (trigonometric, hyperbolic, exponential, logarithmic, power, root, error, gamma, sigmoid, hypot, fma, atan2, pow) give for every argument of every floating type the correctly signed special value the C standard prescribes for zeros, infinities and NaN, and otherwise the reference value to a few units in the last place; integer arguments behave as the double of the same value.',
  'every argument of float, double and long double',
  'the math headers have no tests; a wrong branch shows only for a signed zero, an infinity, one binade or one argument type',
  ['sprout/math', 'sprout/math/exp.hpp', 'sprout/math/log.hpp', 'sprout/math/pow.hpp', 'sprout/math/atan2.hpp', 'sprout/math/erf.hpp', 'sprout/math/tgamma.hpp'],
  [('special-value chains in front of builtins', 'sprout/math/*.hpp')],
  DIFF, 'random search biased to special values, binade boundaries and small rationals; tolerances of 2 to 32 units in the last place (lgamma: Sprout uses its own approximation, about 1e-8)')

P('M02', 'Pure constexpr math functions reach working precision',
  'Without compiler builtins, the elementary functions of the same list, computed by series and range reduction, give the special values the C standard prescribes for zeros, infinities and NaN, and for other arguments in the documented ranges the reference value to the accuracy of their series (a small multiple of epsilon of the type, scaled by the conditioning of the function).',
  'every argument within the ranges of DESIGN.md (for example |x| <= 20 for exp, |x| <= 300 for sin)',
  'no test computes a value without builtins; a wrong coefficient or reduction step shows only in part of the range',
  ['sprout/math', 'sprout/math/sin.hpp', 'sprout/math/exp.hpp', 'sprout/math/log.hpp', 'sprout/math/asinh.hpp', 'sprout/math/cbrt.hpp', 'sprout/math/tgamma.hpp'],
  [('power series, coefficient tables and range reduction', 'sprout/math/*.hpp')],
  DIFF, 'random search; ranges limited to where the series converge. Beyond about |x| = 30 the software exp loses precision: listed as a known finding')

P('M03', 'Rounding, remainder, classification and decomposition are exact',
  'Classification (fpclassify, isnan, isnormal, signbit ...), comparison (isless ... isunordered), rounding (floor, ceil, trunc, round, rint and their integer-returning forms), remainder (fmod, remainder, quotient, rem_quo), decomposition and scaling (logb, ilogb, ldexp, scalbn, integer and fractional part, binary and decimal significand and exponent), copysign, fmin/fmax/fdim, fabs, perfect-square and parity tests give exactly the result of the C standard for every argument, with compiler builtins enabled or (within 2^64 for rounding) disabled.',
  'every argument of float, double and long double, subnormals, infinities and NaN included',
  'the headers have no tests; errors sit at half-way cases, subnormals, the top binade and signed zeros',
  ['sprout/math', 'sprout/math/floor.hpp', 'sprout/math/round.hpp', 'sprout/math/fmod.hpp', 'sprout/math/float2_sig_exp.hpp', 'sprout/math/logb.hpp', 'sprout/math/ldexp.hpp', 'sprout/math/rem_quo.hpp'],
  [('builtins, or integer conversion and exponent loops', 'sprout/math/*.hpp')],
  DIFF, 'random search over value classes; comparison bit for bit')

P('R01', 'Rational arithmetic is exact and normalized',
  'For rational numbers over int, long and long long whose results fit, construction, arithmetic, compound assignment (also with itself or an integer), comparison, absolute value, conversion, hashing and text input/output agree with exact fractions: the result is in lowest terms with a positive denominator, a zero denominator throws bad_rational and a failing operation leaves its operand alone. gcd, lcm, factorials and Bernoulli numbers are exact over their whole domain.',
  'every pair of fractions and integers whose result fits; comparisons at the limits of the type',
  'rational has no tests; overflow-avoiding formulas and continued-fraction comparison fail only for particular signs and common factors',
  ['sprout/rational', 'sprout/rational/rational.hpp', 'sprout/rational/comparison.hpp', 'sprout/rational/arithmetic.hpp', 'sprout/math/gcd.hpp', 'sprout/math/bernoulli.hpp'],
  [('gcd normalization, Knuth fraction arithmetic, continued-fraction comparison', 'sprout/rational')],
  DIFF, 'random search; operands small enough for results to fit for arithmetic, unrestricted for comparison; rational<short> does not compile and is outside the claim')

P('C01', 'Complex functions agree with the C standard library',
  'Complex arithmetic, comparison, abs, arg, norm, conj, proj, polar, exp, log, log10, pow, sqrt, the trigonometric and hyperbolic functions and their inverses agree with std::complex for every argument - to a few units in the last place for finite parts, and in sign and class for zeros, infinities and NaN - with builtins, and to series accuracy without them; text input and output round-trip and a failed input leaves the value alone.',
  'every pair of parts, special values in either part included',
  'complex has no tests; the special-value tables have one line per combination',
  ['sprout/complex', 'sprout/complex/sqrt.hpp', 'sprout/complex/tanh.hpp', 'sprout/complex/arithmetic_operators.hpp', 'sprout/complex/stream_operators.hpp'],
  [('special-value chains and formulas per part', 'sprout/complex/*.hpp')],
  DIFF, 'random search biased to special values; relative error against std::complex in a wider type. Three special cases revised in C17 accept either revision')

P('H01', 'Checksums and digests match their definitions',
  'sha1, md5, sum8, sum16, sum32 and xor8 give, for every byte sequence and every way of feeding it (byte, block, count, range, copying or mutating, reset in between, elements of any integer width taken most significant byte first), the digest of the standard; the make functions and literals for all four character types agree. bytes_iterator is a random access iterator over exactly those bytes and the endian traits get and set single bytes.',
  'every byte sequence and every partition of it into updates',
  'the headers have no tests; padding and block boundaries show at lengths 55, 56, 63, 64, 119 ... and only for some update styles',
  ['sprout/checksum', 'sprout/checksum/md5.hpp', 'sprout/checksum/sha1.hpp', 'sprout/checksum/sum.hpp', 'sprout/checksum/xor.hpp', 'sprout/iterator/bytes_iterator.hpp', 'sprout/endian_traits.hpp'],
  [('block buffering and padding, once recursive and once in loops', 'sprout/checksum')],
  STATE, 'random search; messages up to about 700 bytes; reference digests written from RFC 1321 and FIPS 180-4, self-tested on published vectors')

P('U01', 'UUIDs: text round trips, RFC 4122 generators, ordering',
  'Every UUID converts to its canonical text and back (any case, dashes or none, braces, all character types, streams with any width and adjustment); malformed text throws or fails the stream and leaves the value alone; name-based UUIDs equal the MD5 or SHA-1 definition of RFC 4122 for every namespace and name, random ones carry version 4, the RFC variant and the bits of four 32-bit draws; comparison, hashing, variant, version and element access agree with the 16 bytes.',
  'every UUID, name, namespace, seed and malformed text',
  'uuid has no tests; one wrong mask or table entry affects one nibble of one byte',
  ['sprout/uuid', 'sprout/uuid/uuid.hpp', 'sprout/uuid/string_generator.hpp', 'sprout/uuid/md5_name_generator.hpp', 'sprout/uuid/sha1_name_generator.hpp', 'sprout/uuid/random_generator.hpp', 'sprout/uuid/io.hpp'],
  [('parser recursion, masks on octets 6 and 8', 'sprout/uuid')],
  DIFF, 'random search; names up to 60 bytes. Text following a complete UUID is not specified')

P('E01', 'Random number engines produce their defined sequences through every interface',
  'Every engine (linear congruential, inversive, additive combine, shuffle order, Mersenne twister, Tausworthe, xor combine and their named instances) produces, for every seed, the sequence its definition gives; the mutating call and the constant call (value plus next engine) agree at every step; discarding n equals drawing n; equality means the same future; writing and reading back restores an equal engine and refused text changes nothing; seeding from seed arrays and iterator pairs gives the reference state; iterators, ranges and arrays over an engine give its sequence.',
  'every seed, every number of draws before and between the interfaces, every state reached',
  'the tests only check that an engine can be called in a constant expression; no value is compared, and twists, carries and table refills happen hundreds of draws in',
  ['sprout/random', 'sprout/random/linear_congruential.hpp', 'sprout/random/mersenne_twister.hpp', 'sprout/random/shuffle_order.hpp', 'sprout/random/linear_feedback_shift.hpp', 'sprout/random/additive_combine.hpp', 'sprout/random/inversive_congruential.hpp', 'sprout/random/seed_array.hpp', 'sprout/random/iterator.hpp'],
  [('state update written twice: recursive C++11 form and loops', 'sprout/random/*.hpp')],
  STATE, 'random search over seeds and histories; oracles Boost.Random (whose engines these are) and the standard library. The first state word of a freshly seeded twister, of which Boost normalises unused bits, is not compared', over=('inputs', 'histories'))

P('E02', 'Random distributions map engine draws to values by their definition',
  'uniform_smallint, uniform_int, uniform_01, uniform_real, bernoulli, binomial, geometric, poisson and normal distributions and generate_canonical give, for every parameter and every engine range, the value their defining algorithm gives for the numbers drawn, inside [min, max], and leave the engine in the state that algorithm leaves it; the mutating call, the constant call (value, next engine, next distribution), the call with parameters and the variate generators agree; parameters, text, equality and reset round-trip and refused text changes nothing.',
  'every parameter set, seed, engine range and number of draws',
  'the tests only check that a distribution compiles in a constant expression; rejection, concatenation and narrow types are reached for particular ranges only',
  ['sprout/random/distribution.hpp', 'sprout/random/uniform_int_distribution.hpp', 'sprout/random/uniform_smallint.hpp', 'sprout/random/uniform_01.hpp', 'sprout/random/uniform_real_distribution.hpp', 'sprout/random/bernoulli_distribution.hpp', 'sprout/random/binomial_distribution.hpp', 'sprout/random/geometric_distribution.hpp', 'sprout/random/poisson_distribution.hpp', 'sprout/random/normal_distribution.hpp', 'sprout/random/variate_generator.hpp', 'sprout/random/generate_canonical.hpp'],
  [('rejection loops written twice: recursive C++11 form and loops', 'sprout/random/*_distribution.hpp')],
  DIFF, 'random search; oracle Boost.Random over the corresponding engines (the normal distribution: the polar form over two uniform numbers)', over=('inputs', 'histories'))

P('K01', 'Arrays, views and container functions behave like the standard containers',
  'A sprout::array under any sequence of element access, fill, assign, swap, iteration and comparison holds what a std::array would, and checked access throws out_of_range exactly for positions outside; a sub_array (by value or by reference) under any sequence of pushes, pops, drops, two-argument window and offset moves, fills and writes shows exactly the elements between its two positions, writing through to a referenced container and only there; sub, sub_window, sub_offset and their constant and copying forms, of containers and of views, select the positions asked for; size, empty, begin, end, front, back, at, nth, index_of and the internal_* functions agree over arrays, built-in arrays, standard containers, strings and views; comparison is lexicographic and equal values hash equal; make, remake, make_array, deep_copy and the rebind metafunctions keep the elements.',
  'every history of operations, every pair of positions, every kind of container',
  'views are tested as destinations of a few algorithms with one fixed window; histories, by-reference views and mutable iterators are not',
  ['sprout/array/array.hpp', 'sprout/array/comparison.hpp', 'sprout/array/make_array.hpp', 'sprout/sub_array/sub_array.hpp', 'sprout/sub_array/sub.hpp', 'sprout/sub_array/sub_window.hpp', 'sprout/sub_array/sub_offset.hpp', 'sprout/sub_array/comparison.hpp', 'sprout/container/functions.hpp', 'sprout/container/container_construct_traits.hpp'],
  [('position arithmetic relative to the container and to the view', 'sprout/sub_array'), ('function selection by container traits', 'sprout/container/detail')],
  STATE, 'random search; views over arrays of up to 9 elements, histories up to 10 operations. One-argument window members (documented nowhere, ends differing between forms), pit and sized_pit are outside the statement', over=('inputs', 'histories'))

P('I01', 'Iterator adaptors visit exactly the sequence they denote and obey their category',
  'Over any underlying sequence, traversing a pair of the transform (one and two sequences), filter, remove, remove_if, replace, replace_if, unique, clamp, alternate, joint, merge, set_union, set_intersection, set_difference, set_symmetric_difference, reverse, move, indexed, valued, while, step, counting, value, ptr_index, index, to_lower, to_upper and size_enum iterators yields exactly the elements, in order, that the corresponding standard algorithm yields; pre- and post-increment, decrement, advance, next and prev, subscripting, difference and ordering agree with that sequence as far as the iterator category promises them; writing through an adaptor that yields references reaches the underlying element, and insert iterators insert where the standard ones do.',
  'every sequence, every position and distance, every underlying iterator category',
  'adaptors appear in tests only as arguments of one algorithm over one fixed array, never walked backwards or by distance',
  ['sprout/iterator'],
  [('position arithmetic of multi-sequence adaptors', 'sprout/iterator'), ('iterator category promotion', 'sprout/iterator/type_traits')],
  DIFF, 'random search; sequences of up to 9 elements; insert_range_iterator (its advance does not compile) and remake_iterator are outside the statement')

P('G01', 'Range adaptors and pipelines of them show exactly the sequence they denote',
  'For any base range (array, vector, list) piped through the adaptors taken, dropped, taken_end, dropped_end, window, offset, their adapted_ forms, reversed, transformed (one and two ranges), filtered, adjacent_filtered, removed, removed_if, replaced, replaced_if, uniqued, clamped, steps, filled, counting, blanked, sized, moved, jointed, merged, the four set operations, alternated, indexed, outdirected, to_lower, to_upper, size_enumed and piped, the resulting range has exactly the elements, in order, of the corresponding list operation; distances beyond the ends are cut off; its size, emptiness, first element and iterators (forwards, backwards, by distance as their category allows) agree with that sequence; the same holds for a range made by one adaptor used as the base of another; copied and deep_copied give containers with those elements over the defaults or the given base; writes through views reach the base.',
  'every base range, every argument, every combination of adaptors',
  'no test exercises a range adaptor',
  ['sprout/range/adaptor', 'sprout/range/range_container.hpp'],
  [('clamping of distances and choice of the end iterators', 'sprout/range/adaptor'), ('iterator adaptors underneath', 'sprout/iterator')],
  DIFF, 'random search; base ranges of up to 9 elements, pipelines of up to three adaptors from 34 fixed combinations; distances from the end are given as non-positive offsets; the two-range transform takes ranges of one length; steps needs random access; filled is not piped into adaptors that subscript temporaries (its iterator refers into itself)')

P('G02', 'Range algorithms do what their iterator forms do over the whole range',
  'For any range, the sprout::range form of every non-modifying, searching, comparing, partitioning, sorted-range, set, heap, minimum/maximum, permutation, in-place modifying, sorting and numeric algorithm gives the same result and leaves the same elements as the iterator-pair algorithm over its whole range, with and without predicate or comparison; asked to, searches return the range from the found position to the end or from the beginning to it; sprout::range::fixed and fit forms, to a destination or to a destination type, give the same container as the iterator forms.',
  'every range and argument',
  'no test exercises a range algorithm',
  ['sprout/range/algorithm', 'sprout/range/numeric', 'sprout/range/range_return.hpp'],
  [('delegation of each overload', 'sprout/range/algorithm'), ('packing of the result', 'sprout/range/range_return.hpp')],
  DIFF, 'random search; ranges of up to 9 elements; the oracle is the iterator form, itself checked by A01 to A06; equal, mismatch, is_permutation, inner_product and the two-range transform take the second range to be at least as long as the first')

P('O01', 'An optional holds exactly the last value put into it, or nothing',
  'After any sequence of constructions, assignments of values, nullopt and other optionals (also of convertible types), emplacements, resets, swaps, moves and writes through its accessors, a sprout::optional is engaged and holds the value a model of {engaged, value} holds; every observer (bool, !, is_initialized, *, ->, value, get, get_pointer, value_or, get_value_or, the free get functions, size, at, iteration forwards and backwards) agrees with it; checked access to an empty optional throws bad_optional_access or out_of_range; an optional of a reference rebinds on assignment and writes through; comparison orders empty before every value and then by value, equal optionals hash equal, and text goes out and comes back the same.',
  'every history of operations and every value',
  'the tests construct and compare a handful of constant optionals; no history, no empty accessor, no reverse iteration',
  ['sprout/optional/optional.hpp', 'sprout/optional/comparison.hpp', 'sprout/optional/get.hpp', 'sprout/optional/io.hpp', 'sprout/optional/make_optional.hpp', 'sprout/utility/value_holder/value_holder.hpp'],
  [('a value that outlives disengagement', 'sprout/optional/optional.hpp'), ('observers repeated as members, statics and free functions', 'sprout/optional/get.hpp')],
  STATE, 'random search; histories up to 24 operations over three optionals of int, std::string and a type that records being moved from', over=('inputs', 'histories'))

P('V02', 'A variant holds exactly the alternative last put into it and visits that one',
  'After any sequence of constructions, assignments of each alternative (by copy, const and rvalue) and of other variants, swaps, moves, writes through get and mutating visits, a sprout::variant reports the index of the alternative last stored and that value; get by type and by index, the tuple protocol, output and visitors of every kind (static_visitor, result_type, deduced result, wrapped, stateful, and those giving a variant) see exactly that value once; comparison orders by index and then by value whatever the inactive alternatives hold, and equal variants hash equal.',
  'every history of operations and every value of every alternative',
  'the tests construct and visit a constant variant of two types; inactive alternatives left over from earlier assignments, copies from non-const objects and mutating visits do not occur',
  ['sprout/variant/variant.hpp', 'sprout/variant/apply_visitor.hpp', 'sprout/variant/as_visitor.hpp', 'sprout/variant/get.hpp', 'sprout/variant/hash.hpp', 'sprout/variant/tuple.hpp', 'sprout/variant/visitor_result.hpp'],
  [('all alternatives are stored side by side, with an index', 'sprout/variant/variant.hpp')],
  STATE, 'random search; histories up to 24 operations over three variants of five alternatives. Reading an alternative that is not active is outside the statement (an assertion)', over=('inputs', 'histories'))

P('T01', 'Tuples and pairs keep every element in its place',
  'After any history of construction (from values, references, other tuples and pairs of convertible types, piecewise), assignment, tie, forwarding, element writes, swaps and moves a sprout::tuple or sprout::pair holds exactly what std::tuple or std::pair would; comparison is lexicographic and equal ones hash equal; append, push, pop, tuple_cat, copy, deep_copy, remake, flexible construction, apply, fused and make_from_tuple act as the same operations on the list of elements, over tuples, pairs and arrays; exchange, folds, pack selection, pointee comparison and chained comparison (with operators or a given predicate) do what they spell out, and limited::plus and multiplies give the exact result cut off at the limits of the type.',
  'every history of operations, every list of values, every pair of integers',
  'the tests check a few constant tuples element by element; tuples assigned to pairs, tuples of references and integer limits do not occur',
  ['sprout/tuple/tuple/tuple_decl.hpp', 'sprout/tuple/operation', 'sprout/tuple/apply.hpp', 'sprout/tuple/tuple/make_tuple.hpp', 'sprout/utility/pair/pair_decl.hpp', 'sprout/utility/pair/pair.hpp', 'sprout/utility/comparison.hpp', 'sprout/utility/limited.hpp', 'sprout/utility/fold.hpp', 'sprout/utility/pack.hpp'],
  [('assignment and conversion repeated for each value category', 'sprout/tuple/tuple/tuple_decl.hpp'), ('index arithmetic of concatenation', 'sprout/tuple/tuple/make_tuple.hpp')],
  STATE, 'random search; tuples of up to four elements of four types, histories up to 16 operations, integers of 32 and 64 bits signed and unsigned (saturation: operands of one signedness; tuple_cat whose first argument is not a tuple is outside the statement)', over=('inputs', 'histories'))

P('V01', 'A valarray computes elementwise and its subsets address exactly their elements',
  'A sprout::valarray of any size up to its capacity, under any sequence of constructions, assignments, resizes, fills, swaps and element writes, holds what a std::valarray would; unary, binary and compound operators with arrays and scalars on either side, comparison and logical operators, sum, min, max, shift and cshift by any distance, apply and the mathematical functions give the elementwise result; slices, generalised slices, masks and index arrays select exactly the elements asked for, in order, reading, writing, updating and assigning through them (from arrays, scalars and other views) touches those and no others, and checked access beyond the size throws.',
  'every size, every value, every subset, every shift distance',
  'no test exercises valarray',
  ['sprout/valarray/valarray.hpp', 'sprout/valarray/slice_array.hpp', 'sprout/valarray/gslice_array.hpp', 'sprout/valarray/mask_array.hpp', 'sprout/valarray/indirect_array.hpp', 'sprout/valarray/arithmetic.hpp', 'sprout/valarray/comparison.hpp', 'sprout/valarray/power.hpp', 'sprout/valarray/trigonometric.hpp', 'sprout/functional/bind2nd.hpp'],
  [('one loop per operator and per view', 'sprout/valarray'), ('stride arithmetic of generalised slices', 'sprout/valarray/gslice_array.hpp')],
  STATE, 'random search; oracle std::valarray; capacity 7, all sizes; two-dimensional generalised slices without overlap; mathematical functions are compared with the scalar ones (checked by M01 to M03)', over=('inputs', 'histories'))

P('F01', 'Function objects do what their operators and adaptors promise',
  'For all operands every Sprout function object (arithmetic, comparison, logical, bitwise, shift, assignment, increment, reference, member, subscript, call, conditional and comma; typed, transparent and the polymorphic constants) gives the value, the result type and the side effects of the operator it stands for; bind1st, bind2nd, not1, not2, equiv, ptr_fun, mem_fun, mem_fun_ref, mem_fn, invoke, ref and cref forward to the function they wrap with the arguments in their places; bind and cbind (numbered, positional and variadic placeholders, nested binds, references, member pointers) call it with exactly the arguments the placeholders select; hash is the identity on integers, the documented fold on arrays, tuples, pairs and ranges, equal for equal values, and tells neighbouring floating-point values apart.',
  'every operand, every permutation of arguments, every value hashed',
  'the only tests are of the algorithms that use less<> and plus<>; bind, member adaptors and hashes have none',
  ['sprout/functional', 'sprout/functional/bind/bind.hpp', 'sprout/functional/mem_fn.hpp', 'sprout/functional/hash', 'sprout/type_traits/detail/invoke.hpp'],
  [('one header per function object', 'sprout/functional/plus.hpp'), ('overloads of bind per cv-qualification', 'sprout/functional/bind/bind.hpp')],
  'property-based testing: generated operands, differential against the operators and direct calls, shrinking', 'random search; int, unsigned, 64-bit and double operands, strings; functions of up to four arguments; a hash may collide, so distinctness is asserted of at least 80 of 96 neighbouring values')

P('F02', 'Type traits answer as the standard defines them',
  'For all types the Sprout type traits agree with the standard ones: categories, properties, construction, assignment, destruction and swapping (also nothrow), rank, extent, relations between two types, invocability, cv, reference, pointer, array and sign transformations, common_type, conjunction, disjunction, negation; the triviality traits never claim more than the language does and are exact for scalars; the operator traits (has_plus and so on, with and without a required result type) hold exactly when the expression is valid; the promotion traits give the type of the arithmetic, and is_sint, is_uint, is_char_type, is_c_str, the shallow cv transformations, copy_const and copy_cv, the unqualified queries, namespace membership and upcast queries are what their names say.',
  'every type, every pair of types, every subset of operators',
  'no test exercises the traits beyond the ones the containers use; wrong answers for references, cv-qualified types, void and operator pairs stay invisible',
  ['sprout/type_traits', 'sprout/type_traits/detail/has_binary_op.hpp', 'sprout/type_traits/is_swappable_with.hpp', 'sprout/type_traits/float_promote.hpp'],
  [('one header per operator', 'sprout/type_traits/has_plus.hpp'), ('fallbacks where the compiler gives no answer', 'sprout/type_traits/is_trivially_assignable.hpp')],
  'property-based testing: types drawn from a generated table (constructors applied to base types, classes with generated operator subsets), differential against std and against expression validity, shrinking', 'random draws from tables of about 380 types, 3100 pairs, 270 operand pairs; is_trivially_* of class types is implementation-limited and only checked for not over-claiming; is_invocable_r with a reference result is left out')
P('W01', 'weed: grammars recognise exactly their language',
  'For every grammar written with the weed parsers (character classes, sets and ranges, literals, signed and unsigned numbers with minimum and maximum digits, sequence, ordered choice, list, bounded and unbounded repetition with each limit category, optional, difference, predicates, omit/replace/repeat/as_tuple/as_array, actions) and every text, parse() succeeds exactly when the grammar as a parsing expression grammar matches a prefix of the text, stops where that match ends, and yields the attribute composed from the matched parts; it reads nothing outside the text and gives the same answer through every iterator type.',
  'every combinator separately and nested; texts from the tokens of the grammar, mutated; the attribute as concatenation, tuple, variant or padded array as written in attr_cnv; number values only when they fit the type; whether a list consumes a trailing separator is not claimed',
  'weed has examples and no tests; minimum digit counts, required repetitions, limits and backtracking positions depend on the text in ways three examples cannot show',
  ['sprout/weed/parse.hpp', 'sprout/weed/context/parse_context/operator', 'sprout/weed/parser/numeric/int_p.hpp', 'sprout/weed/parser/directive/repeat.hpp'],
  [('evaluation context advanced by each subexpression', 'sprout/weed/context/parse_context/operator/shift_left.hpp'), ('attribute conversion tables', 'sprout/weed/attr_cnv/shift_left.hpp')],
  'property-based testing: about 110 grammars written twice (weed expression and runtime PEG combinators), texts generated from grammar tokens with mutations, compared on success, consumed length and attribute, shrinking', 'texts of at most nine tokens; grammars are fixed because they are types')
P('Y01', 'compile-time lists: types and index sequences compute like lists',
  'For every list of types (type_tuple, sprout::tuple, std::tuple, integral_array) the operations of sprout::types (push, pop, append, assign, tuple_cat, at, size, find_index, count, contains, all/any/none/one_of, fold, accumulate, partial_sum, transform, lower/upper_bound_index, seq::find, iterator movement) and for every pack the conditions of sprout::tpp give the result of the same operation on the run-time list of values; index_range, integer_range, index_n, make_index_tuple, index_pack and make_integer_sequence contain exactly the arithmetic progression their arguments name, for every integer type, direction and step.',
  'lists of up to 8 elements of integral constants in four containers; ranges of up to 90 indexes of int, unsigned char, long and size_t, either direction; arithmetic and comparison metafunctions on small constants',
  'index sequences drive nearly every other component and no test looks at them; the divide-and-conquer metafunctions have cases by parity, position and emptiness that no test instantiates',
  ['sprout/type/algorithm', 'sprout/type/operation', 'sprout/type/type_tuple_decl.hpp', 'sprout/tpp/algorithm', 'sprout/index_tuple/integer_range.hpp'],
  [('doubling recursion of ranges by parity', 'sprout/index_tuple/integer_range.hpp'), ('divide and conquer over tuples', 'sprout/type/algorithm/find_index.hpp')],
  'property-based testing: pseudo-random type lists and ranges instantiated at compile time from seeds, drawn at run time, against a model on std::vector', 'the instantiated lists are fixed by the seeds compiled in (96 lists, 160 sorted lists, 240 packs, 260 ranges), because types cannot be generated at run time')
P('L01', 'Small value types: tribool, exempt_ptr, compressed_pair, value_holder',
  'tribool computes Kleene\'s strong three-valued logic in every formula mixing tribools and bools, and prints and reads back its text; exempt_ptr and observer_ptr point at what a plain pointer would after any history of construction, assignment, reset, release, swap and conversion and compare and hash as that pointer does; compressed_pair holds its two values like a pair, takes no space for an empty member, and first(), second(), swap and assignment address the right one; value_holder holds a value like the value itself and a reference by rebinding, never writing through.',
  'every formula, every history, every combination of empty and non-empty member types',
  'none of these types has a test; their defects (a swap that does nothing, the wrong base class) only show after several operations',
  ['sprout/logic/tribool', 'sprout/memory/exempt_ptr.hpp', 'sprout/compressed_pair.hpp', 'sprout/utility/value_holder'],
  [('one specialisation per combination of emptiness', 'sprout/compressed_pair.hpp'), ('pointer storage for references', 'sprout/utility/value_holder/value_holder.hpp')],
  'property-based testing: random formulas and operation histories against models (min/max logic, raw pointers, pairs), shrinking', 'formulas of up to six operators; histories of up to 40 operations')
P('L02', 'forward_clist behaves as a forward list over items it does not own',
  'After any history of construction from ranges of items, push_front, pop_front, insert_after, erase_after (one item or a range), assign, unlink, clear, swap and move, a forward_clist visits exactly the items a std::forward_list of references would hold, in that order, through its iterators and before_begin, const and non-const, and the items are the caller\'s own objects.',
  'every history over lists of caller-owned items',
  'forward_clist has no test; which link an operation follows only matters on the second operation',
  ['sprout/forward_clist.hpp'],
  [('intrusive links between caller-owned items', 'sprout/forward_clist.hpp')],
  'stateful property-based testing against std::forward_list, shrinking', 'a moved-from list still refers to the items, so its state is not claimed', over=('inputs', 'histories'))
P('L03', 'Calendar time and network byte order',
  'to_time_t of calendar fields, of a std::tm and of a pair of __DATE__ and __TIME__ shaped texts is the number of seconds since 1970 in the Gregorian calendar, for every date from 1970 on; difftime is the difference; hton and ntoh reverse the bytes of any unsigned integer on this machine and are inverse to each other, leaving single bytes alone.',
  'every date and time of day, every unsigned integer of 1, 2, 4 and 8 bytes',
  'no test converts a date; leap years, century rules and month lengths make the function wrong on single days',
  ['sprout/ctime/to_time_t.hpp', 'sprout/ctime/difftime.hpp', 'sprout/net/endian.hpp'],
  [('months counted from March', 'sprout/ctime/to_time_t.hpp'), ('byte reversal by recursion', 'sprout/net/endian.hpp')],
  'property-based testing: generated dates biased to month ends and leap years, differential against timegm; round trips, shrinking', 'years 1970 to 4969; little-endian machine')
