"""What each check builds and runs."""

ASSUME = [
    'g++ 13 on x86-64 Linux, libstdc++ as the reference library where the oracle is a standard algorithm',
    'sizes, alphabets and magnitudes are bounded as stated in DESIGN.md; a defect needing larger inputs is out of reach',
]


def both(src, **kw):
    """the harness in C++11 (recursive constexpr code paths) and C++17 (C++14-and-later code paths)"""
    return [dict(src=src, std=s, **kw) for s in ('11', '17')]


NT = 'cases are drawn from a structured generator (sizes, alphabets with many duplicates, boundary values, coverage-guided mutants); a case is non-trivial when '

CHECKS = {}


def check(pid, units, rule, **kw):
    CHECKS[pid] = dict(units=units, rule=NT + rule, **kw)


check('A01', both('alg_nonmod.cpp'), 'the input range has at least two elements (for searches: and a non-empty pattern)')
check('A02', both('alg_order.cpp'), 'the input range has at least two elements')
check('A03', both('alg_mutate.cpp'), 'the input range has at least two elements')
check('A04', both('alg_sort.cpp'), 'the input range has at least two elements')

check('S01', both('string_model.cpp'), 'the string is non-empty and at least one operation changed it, or the query has a non-empty subject')
check('S02', both('string_view.cpp'), 'the viewed text is non-empty')
check('S03', both('cstr.cpp', scale=2), 'the text has at least two characters')
check('N01', both('numconv.cpp', flags=['-O0']), 'the text has at least two characters, or the number is outside one digit')
check('N02', both('ctype.cpp', scale=2), 'the character is in the ASCII range')
check('B01', both('bitset.cpp', scale=2), 'the history has at least two operations and ends in a set that is neither empty nor full')
check('B02', [dict(src='bits.cpp', std=s, scale=2, **kw) for s in ('11', '17') for kw in (dict(), dict(tag='soft', flags=['-DSPROUT_CONFIG_DISABLE_BUILTIN_BIT_OPERATION']))],
      'the value is neither 0 nor all ones')
check('A05', [dict(src='alg_fixed.cpp', std=s, tag='p%d' % n, flags=['-DPART=%d' % n]) for n in (1, 2, 3, 4) for s in ('11', '17')],
      'the source has at least two elements and the destination at least one')
check('A06', both('numeric.cpp'), 'the input has at least two elements')
SOFT = ['-DSOFT', '-DSPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION']
check('M01', both('math_fn.cpp', scale=2), 'the argument is neither zero nor infinite nor NaN')
check('M02', both('math_fn.cpp', tag='soft', flags=SOFT, scale=2), 'the argument is neither zero nor infinite nor NaN')
check('M03', both('math_exact.cpp') + both('math_exact.cpp', tag='soft', flags=SOFT), 'the argument is finite and not an integer, or of a boundary class')
check('R01', both('rational.cpp'), 'both denominators exceed one, or the argument is not trivial')
check('C01', both('complex.cpp') + [dict(src='complex.cpp', std='14', tag='soft', flags=SOFT, scale=0.5)], 'both parts are neither zero nor infinite nor NaN')
check('H01', both('checksum.cpp'), 'the message crosses a 64-byte block in more than one update, or has several bytes')
check('U01', both('uuid.cpp'), 'the UUID is not nil, or the name is non-empty')
check('E01', both('random_engine.cpp'), 'more than one number is drawn, or the text or distance is not trivial')
check('E02', both('random_dist.cpp'), 'more than one number is drawn, or the text or canonical draw is not trivial')
check('K01', both('container.cpp'), 'the container or view has at least two elements (array histories: at least one and two operations)')
check('I01', both('iterator.cpp'), 'the adapted sequence has at least two elements')
check('G01', [dict(src='range.cpp', std=s, tag='p%d' % n, flags=['-DPART=%d' % n]) for n in (1, 2, 3) for s in ('11', '17')], 'the base range has at least two elements')
check('G02', [dict(src='range_alg.cpp', std=s, tag='p%d' % n, flags=['-DPART=%d' % n]) for n in (1, 2, 3) for s in ('11', '17')], 'the range has at least two elements')
check('O01', both('optional.cpp', scale=0.5), 'at least four operations with engaged optionals occurring, or an engaged operand')
check('V02', both('variant.cpp'), 'at least four operations and two alternatives, or both operands holding the same alternative')
check('T01', both('tuple.cpp'), 'at least three operations, or operands that share a first element, or a result beyond a limit')
check('V01', [dict(src='valarray.cpp', std=s, tag='p%d' % n, flags=['-DPART=%d' % n]) for n in (1, 2, 3) for s in ('11', '17')], 'the array or view has at least two elements (histories: at least three operations)')
check('F01', both('functional.cpp'), 'the operands differ')
check('F02', [dict(src='typetraits.cpp', std=s, tag='p%d' % n, flags=['-DPART=%d' % n]) for n in (1, 2, 3) for s in ('11', '17')], 'the type drawn is not the first of its table, or the two types differ')
check('W01', [dict(src='weed.cpp', std=s, tag='p%d' % n, flags=['-DPART=%d' % n], scale=3) for n in (1, 2, 3) for s in ('11', '17')], 'the grammar matches more than one character of a generated text')
check('Y01', both('typelists.cpp', flags=['-O0']), 'the list or sequence drawn has more than one element')
check('L01', both('small.cpp'), 'the formula has at least two operators, or the history at least three operations, or the operands differ')
check('L02', both('clist.cpp'), 'the history has at least three operations, or the source at least two items')
check('L03', both('netclock.cpp', scale=3), 'the date is in January or February or at the end of its month, or the value changes when its bytes are reversed')
