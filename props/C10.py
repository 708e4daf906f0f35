P = dict(
 id='C10', title='Fractions, floats and scaled decimals are exact or correctly rounded',
 statement='''Arithmetic and comparison of fractions is exact and answers a fraction in lowest terms, or an integer when the value is one. Converting any integer or fraction to any of the three float classes gives the nearest float, ties to even, including gradual underflow and overflow to infinity. Sum, difference, product, quotient and comparison of floats, of any mix of float classes and of floats with exact numbers follow IEEE 754 on the operands converted to the wider class; infinities, NaNs and signed zeros included. truncated, floor, ceiling, rounded and asExactFraction of a float are exact, however large the float. The text a float stores as reads back as the very same float. Scaled decimals compute exactly and carry the larger scale; they compare after rounding their difference to the smaller scale.''',
 over=['inputs'],
 quantifier='''for every pair of a set of rationals around the limits of the integer representations; every conversion at, just above and just below the halfway point between two floats for a set of significands and exponents, including denormals and the overflow threshold; every pair of a set of floats that contains the limits of every representation''',
 why='''Double rounding, off-by-one exponents at the denormal boundary, ties, and conversions between representations go wrong for isolated values only.''',
 files=['kernel/Fraction.st', 'kernel/Float.st', 'kernel/FloatD.st', 'kernel/FloatE.st', 'kernel/FloatQ.st', 'kernel/ScaledDec.st', 'kernel/Number.st', 'kernel/Integer.st', 'kernel/LargeInt.st', 'libgst/prims.def', 'libgst/lex.c'],
 mechanism=[('Fraction>>asFloat:', 'kernel/Fraction.st'), ('Float>>printOn:special:', 'kernel/Float.st'), ('retry*Coercing:', 'kernel/Number.st'), ('VMpr_Float*', 'libgst/prims.def')],
 technique='exhaustive enumeration of bounded inputs on the real VM against an executable model',
 note='''About 75k argument tuples and 650k results (quick). An exact number divided by a float zero may answer an infinity or signal an error, both occur; abs of a zero may have either sign. Transcendental functions are not covered.''',
 design='''Tables enumerated twice, on the real VM and in Python (exact rationals with an own rounding function), compared bit for bit. Found and fixed: coercion of large
integers truncated to 8 bytes, negative powers of even large integers, comparing infinities of different classes, FloatQ floor and ceiling losing precision,
2^62 truncated to -2^62, wrong rounding of fractions near the denormal range, large integer plus a float zero answering an integer, printing floats that read back
as a neighbour (powers of two) or ten times smaller (digits rounding up to a carry).''')
