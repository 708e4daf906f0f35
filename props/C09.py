P = dict(
 id='C09', title='Integer arithmetic is exact and representation-independent',
 statement='''For all integers, whether represented as small or large integers: sum, difference, product, floor and truncated division with their remainders, exact division, greatest common divisor and least common multiple, bit operations and shifts (two's complement, rounding towards minus infinity when shifting right), comparisons, powers, factorials, binomials, integer logarithms, and printing and reading in every base from 2 to 36 give the mathematically exact result. The result is a SmallInteger exactly when it lies in the range of SmallIntegers and is otherwise of the class of its sign, so that equal integers are equal, have equal hashes and behave alike; a fraction results only when the quotient is not an integer. Operators compiled inline, the same operators really sent, and counting loops around the limits of SmallInteger agree. Division by zero raises an error.''',
 over=['inputs'],
 quantifier='''for every pair of integers of a set that contains every boundary of the representations (powers of two of the sizes where limbs, bytes, SmallIntegers and C types end, and their neighbours, of both signs), every shift count around the sizes of limbs and beyond 32 bits, every base''',
 why='''Carries, normalisation, truncation to C types and rounding of negative numbers go wrong only for particular pairs (exact division of numbers of opposite signs, the smallest SmallInteger divided by -1, a shift count that wraps around).''',
 files=['libgst/mpz.c', 'libgst/prims.def', 'libgst/vm.def', 'libgst/md-config.h', 'kernel/SmallInt.st', 'kernel/LargeInt.st', 'kernel/Integer.st', 'kernel/Number.st'],
 mechanism=[('_gst_mpz_*', 'libgst/mpz.c'), ('VMpr_SmallInteger_*, VMpr_LargeInteger_*', 'libgst/prims.def'), ('PLUS_SPECIAL .. BIT_SHIFT_SPECIAL', 'libgst/vm.def')],
 technique='exhaustive enumeration of bounded inputs on the real VM against an executable model',
 note='''About 61k argument tuples and 250k results (quick): 125 x 125 integers for 22 binary operators, each both inlined and sent; shifts, bit access, powers, 21 unary messages, all bases, loops. Thorough: 430 x 430 integers. The Smalltalk fallbacks used without GMP are not run in this build.''',
 design='''Tables enumerated twice, on the real VM and in Python (arbitrary precision), compared line by line. Every result is printed in hexadecimal with the class of its
representation; every special selector is run inlined and through perform:. This check found and we fixed: -x // x and x \\\\ -x wrong for large x (remainder
not normalised), right shifts of negative large integers rounding towards zero, shift counts truncated to 32 bits, SmallInteger smallest // -1, quo: and lowBit,
large / negative answering a fraction with denominator 1, a negative gcd, ceilingLog: rounding down, raisedTo: 0 answering a large integer 1.''')
