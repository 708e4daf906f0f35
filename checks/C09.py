"""C09: integer arithmetic is exact, whatever the representation."""
import os, sys, itertools, math
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq
from seq import Err, py_print

SMIN, SMAX = -2**62, 2**62 - 1


def values(thorough):
    v = {0, 1, 2, 3, 5, 7, 10, 100, 255, 256}
    for k in ([16, 31, 32, 61, 62, 63, 64, 65, 96, 124, 128, 190] if not thorough else list(range(4, 140)) + [190, 191, 192, 193, 255, 256, 257, 512]):
        v |= {2**k - 1, 2**k, 2**k + 1}
    v |= {10**9, 10**18, 10**19, 10**37, 3**40, 3**80, 2**64 + 2**31, 2**128 - 2**64, (2**61 + 1) * (2**61 - 1), 2**62 + 2**61,
          0x0100000000000001, 0xff00ff00ff00ff00ff00, math.factorial(30), 3 * 2**31, 3037000499, 3037000500, 2**31 * 2**31 - 1, 2**96 - 2**32}
    return sorted(v | {-x for x in v}, key=lambda x: (abs(x), x))


def show(x):
    if x is None:
        return '!'
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, Fr) and x.denominator == 1:
        x = int(x)
    if isinstance(x, Fr):
        return '%sF%s' % (show(x.numerator), show(x.denominator))
    if isinstance(x, int):
        return '%x%s' % (x, 's' if SMIN <= x <= SMAX else 'P' if x > 0 else 'N') if x >= 0 else '-%x%s' % (-x, 's' if SMIN <= x <= SMAX else 'N')
    return str(x)


def quo(a, b):
    if b == 0:
        return None
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def rem(a, b):
    return None if b == 0 else a - b * quo(a, b)


Z = lambda f: lambda a, b: None if b == 0 else f(a, b)
# special selectors and plain messages
BIN = [('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b), ('/', Z(lambda a, b: Fr(a, b))),
       ('//', Z(lambda a, b: a // b)), ('\\\\', Z(lambda a, b: a % b)),
       ('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b), ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b),
       ('=', lambda a, b: a == b), ('~=', lambda a, b: a != b)]
KEY = [('bitAnd:', lambda a, b: a & b), ('bitOr:', lambda a, b: a | b), ('bitXor:', lambda a, b: a ^ b),
       ('quo:', quo), ('rem:', rem), ('gcd:', lambda a, b: math.gcd(a, b)), ('lcm:', lambda a, b: abs(a * b) // math.gcd(a, b) if a and b else 0),
       ('max:', max), ('min:', min), ('bitClear:', lambda a, b: a & ~b)]

PRE = r'''
Object subclass: A [
  A class >> show: x on: s [
    x isNil ifTrue: [ ^s nextPutAll: 'nil' ].
    x == #ERR ifTrue: [ ^s nextPut: $! ].
    x == true ifTrue: [ ^s nextPutAll: 'true' ].
    x == false ifTrue: [ ^s nextPutAll: 'false' ].
    x class == Fraction ifTrue: [ self show: x numerator on: s. s nextPut: $F. ^self show: x denominator on: s ].
    x isInteger ifFalse: [ ^s nextPutAll: '?', x printString ].
    s nextPutAll: (x printString: 16) asLowercase.
    s nextPut: (x class == SmallInteger ifTrue: [ $s ] ifFalse: [ x class == LargePositiveInteger ifTrue: [ $P ]
       ifFalse: [ x class == LargeNegativeInteger ifTrue: [ $N ] ifFalse: [ $? ] ] ])
  ]
  A class >> try: b [ ^[ b value ] on: Error do: [ :e | e return: #ERR ] ]
]
'''


def lit(x):
    return '(0 - %d)' % -x if x < 0 and -x > 2**62 else str(x)


def arr(vals):
    return '((OrderedCollection new) %s; yourself)' % '; '.join('add: %s' % lit(x) for x in vals)


chk = Check('C09')
with chk:
    V = values(THOROUGH)

    def pairs(name, ops, V, W):
        code = '''
 | vs ws k r1 r2 |
 vs := %s. ws := %s. k := 0.
 vs do: [ :a | ws do: [ :b |
   k \\\\ n = shard ifTrue: [
''' % (arr(V), arr(W))
        for o, f in ops:
            # a + b compiled as a special selector, and really sent
            code += "   r1 := A try: [ a %s b ]. r2 := A try: [ a perform: #%s with: b ]. A show: r1 on: out.\n" % (o, o)
            code += "   (r1 = r2 and: [ r1 class == r2 class ]) ifFalse: [ out nextPutAll: '<perform:'. A show: r2 on: out. out nextPutAll: '>' ]. out space.\n"
        code += '   out nl ]. k := k + 1 ] ].'

        def expected(shard, n):
            k = 0
            for a in V:
                for b in W:
                    if k % n == shard:
                        yield (a, b), ''.join(show(f(a, b)) + ' ' for o, f in ops)
                    k += 1
        seq.table(chk, name, code, expected, pre=PRE, weight=2 * len(ops), describe=lambda k: '%s, %s' % k)

    pairs('arithmetic and comparisons', BIN, V, V)
    pairs('bits, gcd, truncated division', KEY, V, V)

    # shifts, bit access, powers
    S = sorted(set(list(range(-70, 71)) + [-200, -193, -192, -191, -128, -127, 127, 128, 129, 190, 191, 192, 193, 2**31 * -1, 1 - 2**31, -2**31 - 1, -2**32, -2**62]))
    if THOROUGH:
        S = sorted(set(S) | set(range(-300, 300)))
    SV = [x for x in V if x != 0] + [0]

    def shift(a, s):
        return a << s if s >= 0 else a >> min(-s, 10000)
    code = ''' | vs ss k |
 vs := %s. ss := %s. k := 0.
 vs do: [ :a | ss do: [ :s | k \\\\ n = shard ifTrue: [
   A show: (A try: [ a bitShift: s ]) on: out. out space.
   s > 0 ifTrue: [ A show: (A try: [ a bitAt: s ]) on: out. out space. A show: (A try: [ a setBit: s ]) on: out. out space.
        A show: (A try: [ a clearBit: s ]) on: out. out space. A show: (A try: [ a isBitSet: s ]) on: out. out space ].
   out nl ]. k := k + 1 ] ].''' % (arr(SV), arr(S))

    def exp_shift(shard, n):
        k = 0
        for a in SV:
            for s in S:
                if k % n == shard:
                    l = show(shift(a, s)) + ' '
                    if s > 0:
                        l += '%s %s %s %s ' % (show(a >> s - 1 & 1), show(a | 1 << s - 1), show(a & ~(1 << s - 1)), show(bool(a >> s - 1 & 1)))
                    yield (a, 'shift/bit', s), l
                k += 1
    seq.table(chk, 'shifts and single bits', code, exp_shift, pre=PRE, weight=5)

    P = list(range(0, 13)) + [20, 33, 64]
    PV = [x for x in V if abs(x) < 2**70]
    code = ''' | vs ss k |
 vs := %s. ss := %s. k := 0.
 vs do: [ :a | ss do: [ :s | k \\\\ n = shard ifTrue: [
   A show: (A try: [ a raisedTo: s ]) on: out. out space.
   out nl ]. k := k + 1 ] ].''' % (arr(PV), arr(P))

    def exp_pow(shard, n):
        k = 0
        for a in PV:
            for s in P:
                if k % n == shard:
                    yield (a, 'raisedTo:', s), (show(a ** s) if a or s else '!') + ' '
                k += 1
    seq.table(chk, 'powers', code, exp_pow, pre=PRE)

    # unary
    def lowbit(a):
        return (a & -a).bit_length()

    def highbit(a):
        return a.bit_length() if a >= 0 else (~a).bit_length() + 1

    UN = [('negated', lambda a: -a), ('abs', abs), ('sign', lambda a: (a > 0) - (a < 0)), ('squared', lambda a: a * a), ('even', lambda a: a % 2 == 0),
          ('odd', lambda a: a % 2 == 1), ('bitInvert', lambda a: ~a), ('lowBit', lowbit), ('highBit', highbit),
          ('negative', lambda a: a < 0), ('positive', lambda a: a >= 0), ('strictlyPositive', lambda a: a > 0), ('truncated', lambda a: a),
          ('rounded', lambda a: a), ('floor', lambda a: a), ('ceiling', lambda a: a), ('numerator', lambda a: a), ('denominator', lambda a: 1),
          ('asExactFraction', None), ('isZero', None), ('reciprocal', lambda a: None if a == 0 else Fr(1, a)),
          ]
    UN = [u for u in UN if u[1]]
    UV = values(True) + [x for k in range(1, 400, 7) for x in (5 ** k, -(5 ** k), 10 ** k, -10 ** k)]
    code = ''' | vs k h |
 vs := %s. k := 0.
 vs do: [ :a | k \\\\ n = shard ifTrue: [
 %s
   (a + 1 - 1) = a ifFalse: [ out nextPutAll: 'NE' ]. (a + 1 - 1) hash = a hash ifFalse: [ out nextPutAll: 'HASH' ].
   (a * 3 // 3) hash = a hash ifFalse: [ out nextPutAll: 'HASH3' ].
   out nl ]. k := k + 1 ].''' % (arr(UV), '\n'.join('A show: (A try: [ a %s ]) on: out. out space.' % o for o, f in UN))

    def exp_un(shard, n):
        for k, a in enumerate(UV):
            if k % n == shard:
                yield (a, 'unary'), ''.join(show(f(a)) + ' ' for o, f in UN)
    seq.table(chk, 'unary messages', code, exp_un, pre=PRE, weight=len(UN))

    # radix conversion
    D = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'

    def rad(a, b):
        if a == 0:
            return '0'
        s, x = '', abs(a)
        while x:
            s = D[x % b] + s
            x //= b
        return '-' * (a < 0) + s
    RV = values(True) if THOROUGH else sorted(set(V) | {x for k in range(5, 120, 23) for x in (7 ** k, -(7 ** k), 10 ** k, 10 ** k - 1)})
    code = r''' | vs k str |
 vs := %s. k := 0.
 vs do: [ :a | 2 to: 36 do: [ :b | k \\ n = shard ifTrue: [
   out nextPutAll: (str := a printString: b); space; nextPutAll: (a printString: b) size printString; space; nextPutAll: (a printStringRadix: b); space;
       nextPutAll: (a printPaddedWith: $0 to: 25 base: b); space.
   A show: (A try: [ Number readFrom: str readStream radix: b ]) on: out. out space.
   b = 10 ifTrue: [ out nextPutAll: a printString; space; nextPutAll: a displayString; space; nextPutAll: a storeString; space; nextPutAll: (a abs printPaddedWith: $  to: 12); space.
      A show: str asNumber on: out. A show: str asInteger on: out. A show: (A try: [ Behavior evaluate: str ]) on: out ].
   out nl ]. k := k + 1 ] ].''' % arr(RV)

    def exp_rad(shard, n):
        k = 0
        for a in RV:
            for b in range(2, 37):
                if k % n == shard:
                    s = rad(a, b)
                    l = '%s %d %s %s ' % (s, len(s), '%dr' % b + s, ('-' + s[1:].rjust(24, '0')) if a < 0 else s.rjust(25, '0'))
                    l += show(a) + ' '
                    if b == 10:
                        l += '%s %s %s %s ' % (s, s, s, s.lstrip('-').rjust(12))
                        l += show(a) * 3
                    yield (a, 'base', b), l
                k += 1
    seq.table(chk, 'printing and reading in every base', code, exp_rad, pre=PRE, weight=6)

    # functions on small naturals
    N = 60 if not THOROUGH else 200
    code = r''' | k |
 k := 0.
 0 to: %d do: [ :a | 0 to: a do: [ :b | k \\ n = shard ifTrue: [
   A show: (A try: [ a binomial: b ]) on: out. out space.
   b = 0 ifTrue: [ A show: a factorial on: out ].
   out nl ]. k := k + 1 ] ].''' % N

    def exp_fn(shard, n):
        k = 0
        for a in range(N + 1):
            for b in range(a + 1):
                if k % n == shard:
                    yield (a, b), show(math.comb(a, b)) + ' ' + (show(math.factorial(a)) if b == 0 else '')
                k += 1
    seq.table(chk, 'binomials and factorials', code, exp_fn, pre=PRE)

    def flog(a, b):
        n = 0
        while b ** (n + 1) <= a:
            n += 1
        return n

    def clog(a, b):
        n = 0
        while b ** n < a:
            n += 1
        return n
    LV = sorted({b ** k + d for b in (2, 3, 7, 10, 16) for k in list(range(1, 20)) + [40, 61, 62, 100] for d in (-1, 0, 1)} - {0})
    LV = [x for x in LV if x > 0]
    code = r''' | vs k |
 k := 0. vs := %s.
 vs do: [ :a | #(2 3 7 10 16) do: [ :b | k \\ n = shard ifTrue: [
   A show: (A try: [ a floorLog: b ]) on: out. out space. A show: (A try: [ a ceilingLog: b ]) on: out. out space.
   out nl ]. k := k + 1 ] ].''' % arr(LV)

    def exp_log(shard, n):
        k = 0
        for a in LV:
            for b in (2, 3, 7, 10, 16):
                if k % n == shard:
                    yield (a, 'log', b), show(flog(a, b)) + ' ' + show(clog(a, b)) + ' '
                k += 1
    seq.table(chk, 'integer logarithms', code, exp_log, pre=PRE)

    # loops over integers around the limits: the compiler's inlined loop, and really sent
    T = [0, 1, -1, 3, SMAX - 2, SMAX - 1, SMAX, SMAX + 1, SMAX + 3, SMIN - 2, SMIN, SMIN + 1, SMIN + 2, 2**64]
    ST = [1, 2, -1, -3, 2**61, -2**61, 2**62]
    TR = [(a, a + d * s // 2, s) for a in T for d in range(-3, 8) for s in ST]
    code = r''' | vs k c |
 k := 0. vs := {%s}.
 vs do: [ :t | | a b s | k \\ n = shard ifTrue: [ a := t at: 1. b := t at: 2. s := t at: 3.
   a to: b do: [ :i | A show: i on: out. out space. (i - a) > 20 ifTrue: [ b := a - 1 ] . (i - a) > 20 ifTrue: [ ^nil ]. (i-a) = 9 ifTrue: [ a to: b do: [ :x | ^nil ] ] ].
   out nl ]. k := k + 1 ].'''
    # each step as a constant, since only constant steps are inlined
    STEPS = ' '.join('''s = %s ifTrue: [ a to: b by: %s do: [ :i | A show: i on: out. out space ]. out nextPut: $/. blk := [ :i | A show: i on: out. out space ]. a to: b by: %s do: blk.
        out nextPut: $/. (a to: b by: %s) do: [ :i | A show: i on: out. out space ]. out nextPut: $/. A show: (a to: b by: %s) size on: out ].''' % ((lit(s) if s >= 0 else lit(s),) * 5) for s in ST)
    code = r''' | vs k blk |
 k := 0. vs := {%s}.
 vs do: [ :t | | a b s | k \\ n = shard ifTrue: [ a := t at: 1. b := t at: 2. s := t at: 3.
   s = 1 ifTrue: [ a to: b do: [ :i | A show: i on: out. out space ]. out nextPut: $/. ].
   s = -1 ifTrue: [ a to: b by: -1 do: [ :i | A show: i on: out. out space ]. out nextPut: $/. ].
   %s
   out nl ]. k := k + 1 ].''' % ('. '.join('{%s. %s. %s}' % (lit(a), lit(b), lit(s)) for a, b, s in TR), STEPS)

    def exp_loop(shard, n):
        for k, (a, b, s) in enumerate(TR):
            if k % n == shard:
                r = []
                i = a
                while (i <= b) if s > 0 else (i >= b):
                    r.append(i)
                    i += s
                l = ''.join(show(x) + ' ' for x in r)
                out = ''
                if abs(s) == 1:
                    out += l + '/'
                yield (a, 'to', b, 'by', s), out + l + '/' + l + '/' + l + '/' + show(len(r))
    seq.table(chk, 'loops around the limits of SmallInteger', code, exp_loop, pre=PRE)
