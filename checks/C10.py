"""C10: fractions are exact and canonical; floats are correctly rounded; scaled decimals are exact."""
import os, sys, itertools, math, struct
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq
from seq import Err, py_print

PRE = r'''
Object subclass: A [
  A class >> show: x on: s [
    x isNil ifTrue: [ ^s nextPutAll: 'nil' ].
    x == #ERR ifTrue: [ ^s nextPut: $! ].
    x == true ifTrue: [ ^s nextPutAll: 'true' ].
    x == false ifTrue: [ ^s nextPutAll: 'false' ].
    (x class == Fraction and: [ x denominator = 1 ]) ifTrue: [ ^self show: x numerator on: s ].
    x class == Fraction ifTrue: [ self show: x numerator on: s. s nextPut: $F. ^self show: x denominator on: s ].
    x class == FloatD ifTrue: [ s nextPut: $D. ^self bytes: x size: 8 on: s ].
    x class == FloatE ifTrue: [ s nextPut: $E. ^self bytes: x size: 4 on: s ].
    x class == FloatQ ifTrue: [ s nextPut: $Q. ^self bytes: x size: 10 on: s ].
    x class == ScaledDecimal ifTrue: [ s nextPut: $S. self show: x fraction on: s. s nextPut: $:; print: x scale. ^s ].
    x isString ifTrue: [ ^s nextPutAll: x ].
    x isInteger ifFalse: [ ^s nextPutAll: '?', x printString ].
    s nextPutAll: (x printString: 16) asLowercase
  ]
  A class >> bytes: x size: n on: s [
    x isNaN ifTrue: [ ^s nextPutAll: 'nan' ].
    n to: 1 by: -1 do: [ :i | | b | b := x at: i.
      s nextPut: (Character digitValue: b // 16); nextPut: (Character digitValue: b \\ 16) ]
  ]
  A class >> try: b [ ^[ b value ] on: Error do: [ :e | e return: #ERR ] ]
]
'''
sys.set_int_max_str_digits(0)
PREC = dict(E=(24, -149, 128), D=(53, -1074, 1024), Q=(64, -16445, 16384))


class Fl:
    """A float of class K; v is a Fraction, or 'inf', '-inf', 'nan', '-0'."""
    def __init__(self, k, v):
        self.k = k
        self.v = v if isinstance(v, str) else Fr(v)

    def neg(self):
        return self.v in ('-0', '-inf') or not isinstance(self.v, str) and self.v < 0

    def __repr__(self):
        return '%s(%s)' % (self.k, self.v)


def rnd(x, k):
    """The float of class K nearest to the rational X, ties to even."""
    x = Fr(x)
    p, emin, emax = PREC[k]
    if x == 0:
        return Fl(k, 0)
    s = 1 if x > 0 else -1
    a = abs(x)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fr(2) ** e > a:
        e -= 1
    q = max(e - p + 1, emin)
    m = a / Fr(2) ** q
    f = m.numerator // m.denominator
    r = m - f
    if r > Fr(1, 2) or r == Fr(1, 2) and f % 2:
        f += 1
    v = f * Fr(2) ** q
    if v >= Fr(2) ** emax:
        return Fl(k, 'inf' if s > 0 else '-inf')
    if v == 0:
        return Fl(k, '-0' if s < 0 else 0)
    return Fl(k, s * v)


def bits(f):
    p, emin, emax = PREC[f.k]
    eb = {'E': 8, 'D': 11, 'Q': 15}[f.k]
    mb = p - 1
    sign = 1 if f.neg() else 0
    bias = emax - 1
    v = f.v
    if v == 'nan':
        return f.k + 'nan'
    if v in ('inf', '-inf'):
        e, m = 2 * bias + 1, (1 << 63 if f.k == 'Q' else 0)
    elif v == '-0' or v == 0:
        e, m = 0, 0
    else:
        a = abs(v)
        x = a.numerator.bit_length() - a.denominator.bit_length()
        if Fr(2) ** x > a:
            x -= 1
        if x < 1 - bias:
            e, m = 0, int(a / Fr(2) ** emin)
        else:
            e = x + bias
            m = int(a / Fr(2) ** (x - mb))
            if f.k != 'Q':
                m -= 1 << mb
    if f.k == 'Q':
        n = (sign << 79) | (e << 64) | m
        return 'Q%020X' % n
    n = (sign << (eb + mb)) | (e << mb) | m
    return '%s%0*X' % (f.k, (eb + mb + 1) // 4, n)


class SD:
    def __init__(self, f, s):
        self.f, self.s = Fr(f), s

    def __repr__(self):
        return '%ss%d' % (self.f, self.s)


def show(x):
    if x is None:
        return '!'
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, Fl):
        return bits(x)
    if isinstance(x, SD):
        return 'S%s:%d' % (show(x.f), x.s)
    if isinstance(x, str):
        return x
    x = Fr(x)
    if x.denominator == 1:
        return '%x' % x.numerator if x >= 0 else '-%x' % -x.numerator
    return '%sF%s' % (show(x.numerator), show(x.denominator))


def lit(x):
    if isinstance(x, Fl):
        c = {'E': 'FloatE', 'D': 'FloatD', 'Q': 'FloatQ'}[x.k]
        s = {'E': 'asFloatE', 'D': 'asFloatD', 'Q': 'asFloatQ'}[x.k]
        if x.v == 'inf':
            return c + ' infinity'
        if x.v == '-inf':
            return c + ' negativeInfinity'
        if x.v == 'nan':
            return c + ' nan'
        if x.v == '-0':
            return '(0 %s negated)' % s if False else '(-1 %s * 0 %s)' % (s, s)
        if x.v == 0:
            return '(0 %s)' % s
        m, e = x.v.numerator, -(x.v.denominator.bit_length() - 1)
        while m % 2 == 0:
            m //= 2
            e += 1
        return '((%s) %s timesTwoPower: %d)' % (ilit(m), s, e)
    if isinstance(x, SD):
        return '(ScaledDecimal newFromNumber: %s scale: %d)' % (lit(x.f), x.s)
    x = Fr(x)
    if x.denominator == 1:
        return ilit(x.numerator)
    return '(Fraction numerator: %s denominator: %s)' % (ilit(x.numerator), ilit(x.denominator))


def ilit(x):
    return '(0 - %d)' % -x if x < -2**62 else '%d' % x


def arr(vals):
    return '((OrderedCollection new) %s; yourself)' % '; '.join('add: %s' % lit(x) for x in vals)


def flo(x):
    return x.numerator // x.denominator


def trunc(x):
    return flo(x) if x >= 0 else -flo(-x)


def rounded(x):
    return trunc(x + (Fr(1, 2) if x >= 0 else -Fr(1, 2)))


Z = lambda f: lambda a, b: None if b == 0 else f(a, b)


# ---------------------------------------------------------------- rationals
def rationals(th):
    ns = [1, 2, 3, 5, 6, 7, 10, 12, 100, 2**31, 2**53 + 1, 2**62 - 1, 2**62, 2**64, 3**50, 10**20 + 1]
    ds = [1, 2, 3, 4, 7, 10, 15, 128, 2**31 - 1, 2**62, 2**62 + 1, 3**45, 10**25]
    if th:
        ns += [2**k + d for k in (8, 16, 30, 61, 63, 100) for d in (-1, 0, 1)]
        ds += [2**k + d for k in (8, 16, 30, 61, 63, 100) for d in (-1, 0, 1)]
    vs = sorted({Fr(a, b) for a in ns for b in ds} | {Fr(0)}, key=lambda x: (x.numerator * x.denominator, x))
    if not th:
        vs = [v for i, v in enumerate(vs) if i % 4 == 0 or v.denominator * v.numerator < 200]
    return vs + [-v for v in vs if v]


RBIN = [('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b), ('/', Z(lambda a, b: a / b)),
        ('//', Z(lambda a, b: flo(a / b))), ('\\\\', Z(lambda a, b: a - b * flo(a / b))),
        ('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b), ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b),
        ('=', lambda a, b: a == b), ('~=', lambda a, b: a != b),
        ('max:', max), ('min:', min), ('quo:', Z(lambda a, b: trunc(a / b))), ('rem:', Z(lambda a, b: a - b * trunc(a / b)))]
RUN = [('negated', lambda a: -a), ('abs', abs), ('squared', lambda a: a * a), ('reciprocal', lambda a: None if a == 0 else 1 / a),
       ('numerator', lambda a: a.numerator), ('denominator', lambda a: a.denominator),
       ('floor', flo), ('ceiling', lambda a: -flo(-a)), ('truncated', trunc), ('rounded', rounded), ('integerPart', trunc),
       ('fractionPart', lambda a: a - trunc(a)), ('sign', lambda a: (a > 0) - (a < 0)),
       ('negative', lambda a: a < 0), ('positive', lambda a: a >= 0), ('strictlyPositive', lambda a: a > 0),
       ('asExactFraction', lambda a: a), ('asFraction', lambda a: a),
       ('raisedTo: 3', lambda a: a**3), ('raisedTo: -2', lambda a: None if a == 0 else 1 / a**2), ('raisedTo: 1', lambda a: a),
       ('roundTo: 5', lambda a: 5 * rounded(a / 5)), ('truncateTo: 3', lambda a: 3 * trunc(a / 3)),
       ('roundTo: 1/4', lambda a: Fr(1, 4) * rounded(a * 4)),
       ('asFloatE', lambda a: rnd(a, 'E')), ('asFloatD', lambda a: rnd(a, 'D')), ('asFloatQ', lambda a: rnd(a, 'Q'))]


def floats(k, th):
    p, emin, emax = PREC[k]
    F = lambda m, e=0: Fl(k, Fr(m) * Fr(2) ** e)
    vs = [F(1), F(3, -1), F(1, -1), F(5, -1), F(7, -1), rnd(Fr(1, 10), k), rnd(Fr(1, 3), k), rnd(Fr(2, 3), k), F(2), F(3), F(10), F(100),
          F(2**p - 1), F(2**(p - 1)), F(2**(p - 1) + 1), F(2**(p - 1) - 1), F(2**(p + 1) - 2), F(2**p - 1, -1), F(2**p - 1, -2), F(2**p - 1, -p),
          F(1, 61), F(1, 62), F(2**p - 1, 62 - p), F(2**p - 1, 61 - p), F(1, 63), F(2**p - 1, 63 - p), F(2**p - 1, 64 - p), F(1, 64), F(1, 100),
          F(2**p - 1, emax - p), F(1, emax - 1), F(1, emin), F(3, emin), F(2**(p - 1) - 1, emin), F(2**(p - 1), emin), F(2**p - 1, emin), F(1, 31), rnd(2**31 - 1, k),
          rnd(10**22, k), rnd(10**23, k), rnd(Fr(10)**-5, k), rnd(Fr(123456789, 1000), k), rnd(Fr(1, 10)**20, k), rnd(Fr(314159265358979323846, 10**20), k)]
    if th:
        vs += [F(2**p - 1, j - p) for j in range(-5, 70)] + [F(1, j) for j in range(-70, 70)] + [rnd(Fr(10)**j, k) for j in range(-30, 30)]
    seen, r = set(), []
    for v in vs:
        if not isinstance(v.v, str) and v.v not in seen:
            seen.add(v.v)
            r.append(v)
    r += [Fl(k, -v.v) for v in r]
    return r + [Fl(k, 0), Fl(k, '-0'), Fl(k, 'inf'), Fl(k, '-inf'), Fl(k, 'nan')]


def val(x):
    """Value for ordering."""
    if x.v == '-0':
        return Fr(0)
    return x.v


def fcmp(op, a, b):
    if a.v == 'nan' or b.v == 'nan':
        return op == '~='
    key = lambda x: (-1, 0) if x.v == '-inf' else (1, 0) if x.v == 'inf' else (0, val(x))
    x, y = key(a), key(b)
    return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '=': x == y, '~=': x != y}[op]


def farith(op, a, b):
    k = a.k
    inf = lambda x: x.v in ('inf', '-inf')
    nan = Fl(k, 'nan')
    if a.v == 'nan' or b.v == 'nan':
        return nan
    sg = lambda n: Fl(k, '-inf' if n else 'inf')
    zero = lambda n: Fl(k, '-0' if n else 0)
    if op == '-':
        return farith('+', a, fneg(b))
    if op == '+':
        if inf(a) and inf(b):
            return a if a.v == b.v else nan
        if inf(a):
            return a
        if inf(b):
            return b
        s = val(a) + val(b)
        if s == 0:
            return zero(a.neg() and b.neg())
        return rnd(s, k)
    n = a.neg() != b.neg()
    if op == '*':
        if inf(a) or inf(b):
            return nan if 0 in (fz(a), fz(b)) else sg(n)
        p = val(a) * val(b)
        return zero(n) if p == 0 else rnd(p, k)
    if op == '/':
        if inf(a):
            return nan if inf(b) else sg(n)
        if inf(b):
            return zero(n)
        if val(b) == 0:
            return nan if val(a) == 0 else sg(n)
        return zero(n) if val(a) == 0 else rnd(val(a) / val(b), k)


def fz(x):
    return 0 if x.v in ('-0', 0) else 1


def fneg(x):
    return Fl(x.k, {'inf': '-inf', '-inf': 'inf', 'nan': 'nan', '-0': 0}.get(x.v, '-0' if x.v == 0 else None if isinstance(x.v, str) else -x.v))


def coerce(x, k):
    if isinstance(x, Fl):
        if isinstance(x.v, str):
            return Fl(k, x.v)
        return rnd(x.v, k)
    return rnd(x, k)


RANK = {'E': 1, 'D': 2, 'Q': 3}


def fop(op, a, b):
    k = max((x.k for x in (a, b) if isinstance(x, Fl)), key=lambda k: RANK[k])
    a, b = coerce(a, k), coerce(b, k)
    if op in ('+', '-', '*', '/'):
        return farith(op, a, b)
    return fcmp(op, a, b)


chk = Check('C10')
with chk:
    def pairs(name, ops, pairs_of, V, W, fn, describe=lambda k: '%s, %s' % k):
        code = '''
 | vs ws k r1 r2 |
 vs := %s. ws := %s. k := 0.
 vs do: [ :a | ws do: [ :b |
   k \\\\ n = shard ifTrue: [
''' % (arr(V), arr(W))
        for o in ops:
            code += "   r1 := A try: [ a %s b ]. A show: r1 on: out.\n" % o
            if not o.endswith(':'):
                code += "   r2 := A try: [ a perform: #%s with: b ]. \n" % o
                code += ("   (r1 == r2 or: [ r1 class == r2 class and: [ (A show: r1 on: WriteStream on: String new) contents = (A show: r2 on: WriteStream on: String new) contents ] ])"
                         " ifFalse: [ out nextPutAll: '<perform:'. A show: r2 on: out. out nextPutAll: '>' ].").replace('(A show: r1 on: WriteStream on: String new) contents', '(A str: r1)').replace('(A show: r2 on: WriteStream on: String new) contents', '(A str: r2)')
            code += ' out space.\n'
        code += '   out nl ]. k := k + 1 ] ].'

        def expected(shard, n):
            k = 0
            for a in V:
                for b in W:
                    if k % n == shard:
                        yield (a, b), ''.join(show(fn(o, a, b)) + ' ' for o in ops)
                    k += 1
        seq.table(chk, name, code, expected, pre=PRE + "A class extend [ str: x [ | s | s := WriteStream on: String new. self show: x on: s. ^s contents ] ]\n",
                  weight=2 * len(ops), describe=describe)

    def unary(name, ops, V):
        code = ''' | vs k |
 vs := %s. k := 0.
 vs do: [ :a | k \\\\ n = shard ifTrue: [
 %s
   out nl ]. k := k + 1 ].''' % (arr(V), '\n'.join('A show: (A try: [ a %s ]) on: out. out space.' % o for o, f in ops))

        def exp(shard, n):
            for k, a in enumerate(V):
                if k % n == shard:
                    yield a, ''.join(show(f(a)) + ' ' for o, f in ops)
        seq.table(chk, name, code, exp, pre=PRE, weight=len(ops))

    only = os.environ.get('MC_ONLY', '')
    V = rationals(THOROUGH)
    rd = dict(RBIN)
    if only in ('', 'r'):
        pairs('rational operations', [o for o, f in RBIN], None, V, V, lambda o, a, b: rd[o](a, b))
        unary('rational unary messages', RUN, rationals(True))

    # conversions of integers and fractions around the halfway points of each float class
    if only in ('', 'c'):
        C = []
        for k in 'EDQ':
            p, emin, emax = PREC[k]
            for m in (2**(p - 1), 2**(p - 1) + 1, 2**(p - 1) + 2, 2**p - 1, 2**p - 2, 3 * 2**(p - 2) + 1, 5 * 2**(p - 3) - 1):
                for d in (0, Fr(1, 4), Fr(1, 2), Fr(3, 4), Fr(1, 2) - Fr(1, 2**70), Fr(1, 2) + Fr(1, 2**70), Fr(1, 2) + Fr(1, 3**50), Fr(1, 2) - Fr(1, 3**50), Fr(1, 3), Fr(2, 3),
                          Fr(1, 2) + Fr(1, 2**20), Fr(1, 2) - Fr(1, 2**20), Fr(1, 2) + Fr(1, 2**300), Fr(1, 2) - Fr(1, 2**300)):
                    for e in (0, 10, -10, 60 - p, 62 - p, 64 - p, 100, -100) + ((emax - p, emax - p + 1, emin, emin - 1, emin - 2, emin - 5, emin - p, emin - p - 1, emin - p - 2) if k != 'Q' or THOROUGH else ()):
                        C.append((m + d) * Fr(2) ** e)
        C = sorted(set(C))
        C = [c for c in C if c.numerator.bit_length() < 3000 and c.denominator.bit_length() < 3000]
        C = C + [-c for c in C[::1 if THOROUGH else 3]]
        unary('conversions to floats around halfway points', [('asFloatE', lambda a: rnd(a, 'E')), ('asFloatD', lambda a: rnd(a, 'D')), ('asFloatQ', lambda a: rnd(a, 'Q'))], C)

    def isnum(a):
        return not isinstance(a.v, str) or a.v == '-0'

    def num(f):
        """ints from floats; error for non-finite."""
        return lambda a: f(Fr(val(a))) if isnum(a) else None

    def keep(f):
        return lambda a: f(a)
    FUN = [('truncated', lambda a: trunc(Fr(val(a))) if isnum(a) else a), ('floor', num(flo)), ('ceiling', num(lambda x: -flo(-x))), ('rounded', lambda a: rounded(Fr(val(a))) if isnum(a) else a),
           ('asExactFraction', num(lambda x: x)), ('negated', fneg), 
           ('asFloatE', lambda a: coerce(a, 'E')), ('asFloatD', lambda a: coerce(a, 'D')), ('asFloatQ', lambda a: coerce(a, 'Q')),
           ('isNaN', lambda a: a.v == 'nan'), ('isInfinite', lambda a: a.v in ('inf', '-inf')), ('isFinite', isnum),
           ('integerPart', lambda a: Fl(a.k, trunc(Fr(val(a))) or ('-0' if a.neg() else 0)) if isnum(a) else '?'),
           ('squared', lambda a: farith('*', a, a)),
           ]
    if only in ('', 'f'):
        for k in 'EDQ':
            ops = [o for o in FUN if not o[0] == 'integerPart']
            unary('unary messages to Float' + k, ops, [f for f in floats(k, True) if isnum(f) or True])
        for k in 'EDQ':
            fs = floats(k, THOROUGH)
            pairs('Float%s operations' % k, ['+', '-', '*', '/', '<', '<=', '>', '>=', '=', '~='], None, fs, fs, fop)
        small = {k: [f for f in floats(k, False)][::3] + [Fl(k, 0), Fl(k, 'nan'), Fl(k, 'inf')] for k in 'EDQ'}
        mixed = small['E'] + small['D'] + small['Q']
        pairs('mixed float operations', ['+', '-', '*', '/', '<', '<=', '>', '>=', '=', '~='], None, mixed, mixed, fop)
        ex = [0, 1, -1, 3, -7, 2**31, 2**53, 2**53 + 1, 2**53 - 1, 2**62 - 1, -2**62, 2**62 + 1, 2**64 - 1, -2**64, 2**100 + 1, 10**30, Fr(1, 3), Fr(-1, 3), Fr(1, 2), Fr(7, 4), Fr(10**20, 3), Fr(1, 2**62 + 1), -Fr(10**20, 7)]
        # an exact number divided by a float zero may answer an infinity or signal ZeroDivide: both are in use
        pairs('exact number and float', ['+', '-', '*', '<', '<=', '>', '>=', '=', '~='], None, ex, mixed, fop)
        pairs('exact number divided by float', ['/'], None, ex, [f for f in mixed if fz(f)], fop)
        pairs('float and exact number', ['+', '-', '*', '/', '<', '<=', '>', '>=', '=', '~='], None, mixed, ex, fop)

    if only in ('', 'p'):
        for k in 'EDQ':
            fs = [f for f in floats(k, True if k != 'Q' or THOROUGH else False) if not isinstance(f.v, str) and (k != 'Q' or THOROUGH or 2**-200 < abs(f.v) < 2**200 or f.v == 0)]
            fs += [Fl(k, v.v) for v in [rnd(Fr(10)**j * d, k) for j in range(-25, 26) for d in (1, 3, Fr(15, 10), Fr(123, 100), Fr(999, 100))]] if k == 'D' or THOROUGH else []

            def exp(shard, n):
                for i, a in enumerate(fs):
                    if i % n == shard:
                        yield a, (show(a) + ' ') * (2 if k == 'D' else 1)
            seq.table(chk, 'printing and reading back Float' + k, ''' | vs k |
 vs := %s. k := 0.
 vs do: [ :a | k \\\\ n = shard ifTrue: [
   %s A show: (Behavior evaluate: a storeString) on: out. out space. out nl ]. k := k + 1 ].''' % (arr(fs), 'A show: (Behavior evaluate: a printString) on: out. out space.' if k == 'D' else ''), exp, pre=PRE, weight=2)

    # scaled decimals that are exact at their scale
    if only in ('', 's'):
        SV = [SD(Fr(n, 10**s), s) for s in (0, 1, 2, 5) for n in (0, 1, 3, 5, 9, 10, 15, 99, 100, 12345, 10**20 + 7)]
        SV += [SD(-v.f, v.s) for v in SV if v.f]
        IV = [0, 1, -1, 3, 10, -7, 2**62, -2**64]

        def sop(o, a, b):
            s = max(x.s for x in (a, b) if isinstance(x, SD))
            x, y = [v.f if isinstance(v, SD) else Fr(v) for v in (a, b)]
            if o in ('+', '-', '*'):
                return SD({'+': x + y, '-': x - y, '*': x * y}[o], s)
            if o == '/':
                return None if y == 0 else SD(x / y, s)
            if o == '//':
                return None if y == 0 else flo(x / y)
            if o == '\\\\':
                return None if y == 0 else SD(x - y * flo(x / y), s)
            # the documented comparison: the difference, rounded to the coarser of the two scales
            m = min(v.s for v in (a, b) if isinstance(v, SD))
            d = rounded((x - y) * 10**m)
            return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0, '=': d == 0, '~=': d != 0}[o]
        ops = ['+', '-', '*', '/', '//', '\\\\', '<', '<=', '>', '>=', '=', '~=']
        ds = lambda k: ', '.join(lit(x) for x in k)
        pairs('scaled decimals', ops, None, SV, SV, sop, ds)
        pairs('scaled decimals and integers', ops, None, SV, IV, sop, ds)
        pairs('integers and scaled decimals', ops, None, IV, SV, sop, ds)

        def dec(a, print_scale=True):
            x = abs(a.f)
            t = '%d' % trunc(x)
            r = ('-' if a.f < 0 else '') + t
            if a.s:
                fr = int((x - trunc(x)) * 10**a.s)
                r += '.' + str(fr).rjust(a.s, '0')
            return r
        unary('scaled decimal unary messages', [('truncated', lambda a: trunc(a.f)), ('floor', lambda a: flo(a.f)), ('ceiling', lambda a: -flo(-a.f)), ('rounded', lambda a: rounded(a.f)),
              ('negated', lambda a: SD(-a.f, a.s)), ('abs', lambda a: SD(abs(a.f), a.s)), ('asFloatD', lambda a: rnd(a.f, 'D')), ('asExactFraction', lambda a: a.f), ('asFraction', lambda a: a.f),
              ('squared', lambda a: SD(a.f**2, a.s)), ('sign', lambda a: (a.f > 0) - (a.f < 0)),
              ('fractionPart', lambda a: SD(a.f - trunc(a.f), a.s)), ('integerPart', lambda a: SD(trunc(a.f), a.s)),
              ('displayString', dec), ('printString', lambda a: dec(a) + 's%d' % a.s)], SV + [SD(Fr(1, 3), 3), SD(Fr(-2, 3), 2), SD(Fr(1999, 1000), 2)][:0])
