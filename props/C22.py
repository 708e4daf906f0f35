P = dict(
 id='C22', title='Literals denote their value, and what is printed reads back',
 statement='''A literal in source code denotes exactly the value it spells: integers of any size in any radix from 2 to 36, with signs, underscores and exponents; floats of each precision as the nearest representable number, ties to even; scaled decimals with their exact value and scale; characters, strings with doubled quotes, symbols of every form, and literal arrays, byte arrays and brace arrays nesting all of these. Signs, operators, spaces and comments next to literals do not change what is read. Conversely, the printed or stored form of a number, in any base, of a float, character, string or symbol is read back as an equal object.''',
 over=['inputs'],
 quantifier='''for every number of the grammar over the pieces up to the bounds, every listed exponent, and every string up to a length over alphabets of special characters''',
 why='''The scanner accumulates digits in machine words, large integers and extended floats in turn, and decides by context what a sign or a dot means; a wrong rounding or a wrong carry shows on one literal in many thousands.''',
 files=['libgst/lex.c', 'libgst/real.c', 'libgst/gst-parse.c', 'libgst/mpz.c', 'libgst/dict.c', 'kernel/Number.st', 'kernel/Float.st', 'kernel/Integer.st', 'kernel/LargeInt.st', 'kernel/String.st', 'kernel/Symbol.st', 'kernel/Character.st'],
 mechanism=[('scan_number, scan_digits, scan_fraction, string_literal, char_literal, scan_bin_op_1, scan_symbol', 'libgst/lex.c'), ('_gst_real_*, _gst_real_get_ld, _gst_real_round', 'libgst/real.c'), ('parse_int_literal, parse_array_literal', 'libgst/gst-parse.c'), ('Float>>printOn:', 'kernel/Float.st')],
 technique='bounded exhaustive enumeration of literals and of values to print, run through the real scanner, compiler and printer, against exact rational arithmetic',
 note='''333,000 literals and values: 216,000 numbers of the grammar, 58,000 decimal floats and ties, all strings and symbols up to length 4 (5), characters, literal arrays, 10,700 prints of integers. Outside: unary minus of expressions, literals longer than 45 digits of fraction.''',
 design='''The grammar of numbers (sign, radix, sign, digits, fraction, exponent letter, exponent, scale) is enumerated over pieces that sit on the boundaries of the
scanner: digits around 2^30 to 2^128 in each of the 35 radices, fractions, exponents. A second family takes the decimal floats n*10^k for every n and k of
a range, a third the exact decimal expansions of numbers halfway between two floats and just beside. The oracle is Fraction arithmetic in Python with one
rounding to nearest-even. Strings and symbols: every string over alphabets with quotes, doubled quotes, blanks, newlines, colons, operators is printed,
stored, compiled and compared by character codes; floats: mantissas near powers of two for every exponent (every 7th below 2^-160 in the quick tier) of
FloatD, FloatE, and a stride of FloatQ; literal arrays of up to 2 (3) of 24 kinds of element in five syntaxes; operators next to numbers with each spacing.
Each literal is compiled by the VM and its value, class and precision compared. The check found and led to repairs of the double rounding of float
literals, of radix literals near the smallest SmallInteger, of evaluated strings containing $' and $!, and of the printing of the empty symbol.''')
