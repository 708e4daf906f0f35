"""C33: indexed instance variables store what fits, refuse the rest, and never touch other memory."""
import os, sys, itertools, struct
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq
from seq import Err, py_print

SHAPES = ['byte', 'int8', 'short', 'ushort', 'int', 'uint', 'int64', 'uint64', 'float', 'double', 'character', 'utf32', 'pointer']
RANGE = {'byte': (0, 255), 'int8': (-128, 127), 'short': (-32768, 32767), 'ushort': (0, 65535), 'int': (-2**31, 2**31 - 1),
         'uint': (0, 2**32 - 1), 'int64': (-2**63, 2**63 - 1), 'uint64': (0, 2**64 - 1)}
SIZE = {'byte': 1, 'int8': 1, 'short': 2, 'ushort': 2, 'int': 4, 'uint': 4, 'int64': 8, 'uint64': 8, 'float': 4, 'double': 8,
        'character': 1, 'utf32': 4, 'pointer': 8}

INTS = sorted({s * (2**k) + d for k in (7, 8, 15, 16, 31, 32, 62, 63, 64) for s in (1, -1) for d in (-1, 0, 1)} | {0, 1, -1, 65, 2**100, -2**100})
# (smalltalk, python tag)
VALUES = [(str(i), ('i', i)) for i in INTS] + [
    ('1.5', ('f', Fr(3, 2))), ('-0.25e0', ('f', Fr(-1, 4))), ('2.5q0', ('f', Fr(5, 2))), ('0.1', ('f', Fr(0.1))), ('1e0', ('f', Fr(1))),
    ('$a', ('c', 97)), ('(Character value: 0)', ('c', 0)), ('(Character value: 127)', ('c', 127)), ('(Character value: 128)', ('c', 128)),
    ('(Character value: 255)', ('c', 255)), ('(Character codePoint: 128)', ('u', 128)), ('(Character codePoint: 255)', ('u', 255)),
    ('(Character codePoint: 256)', ('u', 256)), ('(Character codePoint: 1114111)', ('u', 1114111)),
    ('nil', ('o', 'nil')), ('#abc', ('o', '#abc')), ("'xyz'", ('o', "'xyz'")), ('(1/2)', ('o', '1/2')), ('#[1 2 3]', ('o', 'ByteArray (1 2 3 )')), ('Object', ('o', 'Object'))]
INDEXES = lambda n: list(range(-2, n + 3)) + [9, 17, 2**28 + 1, 2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**32 + 1, 2**32 + 2, 2**58, 2**59 + 1, 2**60, 2**60 + 1,
                                               2**61 - 1, 2**61, 2**61 + 1, 2**62 - 1, -2**62, -2**61 + 1, 2**62, 2**64 + 1, -2**32 + 1, -2**31, -2**60 + 1]
ODD = ['nil', '$a', '1.0', "'1'", '(1/2)', '#a']
BIG = lambda x: '(' + str(x) + ')'


def store(shape, v):
    """The value read back, or None if it must be refused."""
    t, x = v
    if shape == 'pointer':
        return v
    if shape in RANGE:
        if t == 'i' and RANGE[shape][0] <= x <= RANGE[shape][1]:
            return v
        return None
    if shape == 'double':
        if t == 'f' or t == 'i' and -2**62 <= x < 2**62:
            return ('f', Fr(float(x)))
        return None
    if shape == 'float':
        if t == 'f' or t == 'i' and -2**62 <= x < 2**62:
            if t == 'i':
                x = Fr(x)
            return ('f', round32(x))
        return None
    if shape == 'character':
        if t == 'c':
            return v
        return None
    if shape == 'utf32':
        if t == 'u' or t == 'c' and x <= 127:
            return (t, x)
        return None


def round32(x):
    if x == 0:
        return x
    import math
    s = 1 if x > 0 else -1
    x = abs(x)
    e = 0
    while x / Fr(2)**e >= 2**24:
        e += 1
    while x / Fr(2)**e < 2**23:
        e -= 1
    q = x / Fr(2)**e
    f = q.numerator // q.denominator
    r = q - f
    if r > Fr(1, 2) or r == Fr(1, 2) and f % 2:
        f += 1
    return s * f * Fr(2)**e


def show(v, shape):
    t, x = v
    if t == 'i':
        return str(x)
    if t == 'f':
        return 'F' + (str(x.numerator) if x.denominator == 1 else '%d/%d' % (x.numerator, x.denominator))
    if t == 'c' or t == 'u':
        return 'C%d' % x
    return x


PRE = '''
Object subclass: Sh [
  Sh class >> v: x [
    (x isKindOf: Float) ifTrue: [ | f | f := x asExactFraction. ^'F', f numerator printString, (f denominator = 1 ifTrue: [ '' ] ifFalse: [ '/', f denominator printString ]) ].
    (x isKindOf: Character) ifTrue: [ ^'C', x codePoint printString ].
    ^x printString ]
  Sh class >> all: o fixed: f [ | s |
    s := WriteStream on: String new.
    1 to: f do: [ :i | s nextPutAll: (self v: (o instVarAt: i)); space ].
    s nextPut: $:.
    1 to: o basicSize do: [ :i | s nextPutAll: (self v: (o basicAt: i)); space ].
    ^s contents ]
]
'''
CLASSES = [(s, f) for s in SHAPES for f in (0, 1, 2)]
DEFS = ''.join('Object subclass: T%s%d [ %s <shape: #%s> ]\n' % (s, f, '' if not f else '| %s |' % ' '.join('abc'[:f]), s) for s, f in CLASSES)

NIL = ('o', 'nil')


def zero(shape):
    if shape in RANGE:
        return ('i', 0)
    if shape in ('float', 'double'):
        return ('f', Fr(0))
    if shape in ('character', 'utf32'):
        return ('c', 0)
    return NIL


INIT = {'int': 7, 'float': Fr(7)}


def initial(shape, i):
    if shape in RANGE:
        return ('i', 3 + i)
    if shape in ('float', 'double'):
        return ('f', Fr(3 + i))
    if shape in ('character', 'utf32'):
        return ('c', 65 + i)
    return ('i', 3 + i)


def st(v):
    t, x = v
    return '$%c' % x if t == 'c' else str(x) + '.0' if t == 'f' else str(x)


def all_show(fx, ix, shape):
    return ''.join(show(v, shape) + ' ' for v in fx) + ':' + ''.join(show(v, shape) + ' ' for v in ix)


PATHS = [('at:', 'x at: i put: y'), ('basicAt:', 'x basicAt: i put: y'), ('perform', 'x perform: #at:put: with: i with: y'),
         ('checked', 'x checkIndex: i from: 1. x basicAt: i put: y')]
RPATHS = ['x at: i', 'x basicAt: i', 'x perform: #basicAt: with: i']


def stores(c, sizes):
    # one line for each (class, size, value, index within range): each value; and for each index: some values
    code = """
 | vals |
 vals := OrderedCollection new. %s
 %s do: [ :spec | | cls f inits size mk line |
   cls := spec at: 1. f := spec at: 2. inits := spec at: 3. size := spec at: 4.
   mk := [ | o | o := cls new: size. 1 to: f do: [ :k | o instVarAt: k put: k * 100 ]. 1 to: size do: [ :k | o basicAt: k put: (inits at: k) ]. o ].
   (spec at: 5) do: [ :i | vals keysAndValuesDo: [ :vi :y |
     (i isInteger and: [ (i between: 1 and: size) or: [ vi \\\\ 9 = 1 ] ]) ifTrue: [
     #(1 2 3) do: [ :path | | before x after r |
       before := mk value. x := mk value. after := mk value.
       r := [ path = 1 ifTrue: [ x at: i put: y ] ifFalse: [ path = 2 ifTrue: [ x basicAt: i put: y ] ifFalse: [ x perform: #at:put: with: i with: y ] ] ] on: Error do: [ :e | e return: #ERR ].
       out nextPutAll: (r == #ERR ifTrue: [ '!' ] ifFalse: [ 'ok' ]);
           space; nextPutAll: (Sh all: before fixed: f); nextPut: $|; nextPutAll: (Sh all: x fixed: f); nextPut: $|; nextPutAll: (Sh all: after fixed: f).
       x class == cls ifFalse: [ out nextPutAll: 'CLASS' ].
       out nl ] ] ] ] ].
""" % ('\n'.join('vals add: %s.' % v[0] for v in VALUES), '(Array new: 1)')
    specs = [(s, f, n) for (s, f) in CLASSES for n in sizes]

    def spec(s, f, n):
        return '{T%s%d. %d. {%s}. %d. {%s}}' % (s, f, f, '. '.join(st(initial(s, k)) for k in range(n)), n, '. '.join(str(i) for i in INDEXES(n)))
    body = '\n'.join('%d = shard ifTrue: [ specs add: %s ].' % (k % NCPU, spec(*x)) for k, x in enumerate(specs))
    code = code.replace('(Array new: 1)', 'specs').replace(' | vals |', ' specs := OrderedCollection new.\n' + body)

    def exp(shard, n):
        for k, (s, f, size) in enumerate(specs):
            if k % n != shard:
                continue
            fx = [('i', 100 * (j + 1)) for j in range(f)]
            ix = [initial(s, j) for j in range(size)]
            base = all_show(fx, ix, s)
            for i in INDEXES(size):
                for vi, (vs, v) in enumerate(VALUES):
                    inb = 1 <= i <= size
                    if not (inb or (vi + 1) % 9 == 1):
                        continue
                    w = store(s, v) if inb else None
                    new = base if w is None else all_show(fx, ix[:i - 1] + [w] + ix[i:], s)
                    for path in ('at:put:', 'basicAt:put:', 'perform:'):
                        yield (s, f, size, i, vs, path), '%s %s|%s|%s' % ('!' if w is None else 'ok', base, new, base)
    seq.table(c, 'stores', code, exp, pre=PRE + DEFS, temps='specs vals')


def loads(c, sizes):
    specs = [(s, f, n) for (s, f) in CLASSES for n in sizes]
    code = """
 specs := OrderedCollection new.
%s
 specs do: [ :spec | | cls f inits size x |
   cls := spec at: 1. f := spec at: 2. inits := spec at: 3. size := spec at: 4.
   x := cls new: size. 1 to: f do: [ :k | x instVarAt: k put: k * 100 ].
   out nextPutAll: (Sh all: x fixed: f); nl.
   1 to: size do: [ :k | x basicAt: k put: (inits at: k) ].
   out print: x size; space; print: x basicSize; space; print: x copy basicSize; space; nextPutAll: (Sh all: x copy fixed: f); nextPutAll: (Sh all: x shallowCopy fixed: f); nextPutAll: (Sh all: x deepCopy fixed: f); nl.
   (spec at: 5) do: [ :i | #(1 2 3 5) do: [ :path | | r |
       r := [ path = 1 ifTrue: [ Sh v: (x at: i) ] ifFalse: [ path = 2 ifTrue: [ Sh v: (x basicAt: i) ] ifFalse: [ path = 3 ifTrue: [ Sh v: (x perform: #at: with: i) ] ifFalse: [
              path = 4 ifTrue: [ Sh v: (x at: i ifAbsent: [ #none ]) ] ifFalse: [ Sh v: (x instVarAt: i) ] ] ] ] ] on: Error do: [ :e | e return: '!' ].
       out nextPutAll: r; nl ] ] ].
""" % '\n'.join('%d = shard ifTrue: [ specs add: {T%s%d. %d. {%s}. %d. {%s}} ].' % (
        k % NCPU, s, f, f, '. '.join(st(initial(s, j)) for j in range(n)), n, '. '.join([str(i) for i in INDEXES(n)] + ODD)) for k, (s, f, n) in enumerate(specs))

    def exp(shard, n):
        for k, (s, f, size) in enumerate(specs):
            if k % n != shard:
                continue
            fx = [('i', 100 * (j + 1)) for j in range(f)]
            ix = [initial(s, j) for j in range(size)]
            yield (s, f, size, 'fresh'), all_show(fx, [zero(s)] * size, s)
            yield (s, f, size, 'copies'), '%d %d %d %s' % (size, size, size, 3 * all_show(fx, ix, s))
            for i in INDEXES(size) + ODD:
                ok = isinstance(i, int) and 1 <= i <= size
                iok = isinstance(i, int) and 1 <= i <= size + f
                a = show(ix[i - 1], s) if ok else '!'
                for path in range(1, 4):
                    yield (s, f, size, i, path), a
                yield (s, f, size, i, 'instVarAt:'), show((fx + ix)[i - 1], s) if iok else '!'
    seq.table(c, 'loads', code, exp, pre=PRE + DEFS, temps='specs')


class Any(str):
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False
    __hash__ = str.__hash__


seq_any = Any('(anything)')

MOVES = [('Array', 'Array', '{%s}', lambda k: ('i', k)), ('ByteArray', 'ByteArray', '{%s} asByteArray', lambda k: ('i', k)),
         ('String', 'String', '({%s} collect: [ :e | Character value: e + 60 ]) asString', lambda k: ('c', k + 60)),
         ('Tint0', 'Tint0', 'Tint0', lambda k: ('i', k)), ('Tdouble0', '', 'Tdouble0', None)]


def moves(c, n, m):
    """replaceFrom:to:with:startingAt: for all sizes, ranges and overlaps."""
    huge = [2**31 - 1, 2**31, 2**32 + 1, 2**32 + 2, 2**61 + 1, -2**31, -2**32 + 1, 2**62]
    kinds = [('Array', '(1 to: %d) asArray', '((11 to: %d) asArray)', 'i'), ('ByteArray', '(1 to: %d) asArray asByteArray', '((11 to: %d) asArray asByteArray)', 'i'),
             ('String', "('%s' copy)", "('%s' copy)", 'c'), ('Symbol', "('%s' copy)", "('%s' asSymbol)", 'c')]
    letters, caps = 'abcdefgh', 'ABCDEFGH'
    idx = range(-1, n + 3)
    cases = []
    for kind in ('Array', 'ByteArray', 'String', 'StringSym', 'ArrayBA', 'OC', 'BAString', 'StringBA'):
        for a in range(n + 1):
            for b in list(range(m + 1)) + [-1]:   # -1: itself
                if b == -1 and kind not in ('Array', 'ByteArray', 'String'):
                    continue
                for s in list(idx) + huge:
                    for e in list(idx) + huge:
                        for r in list(idx) + huge:
                            if (s in huge) + (e in huge) + (r in huge) > 1 and not (s in huge and e in huge and e - s <= 2 and 1 <= r <= 2):
                                continue
                            if (s in huge or e in huge or r in huge) and (a != n or b not in (m, -1)):
                                continue
                            cases.append((kind, a, b, s, e, r))
    code = """
 { #Array->[ :a :k | (1 + k to: a + k) asArray ]. #ByteArray->[ :a :k | (1 + k to: a + k) asArray asByteArray ].
   #String->[ :a :k | String withAll: ((1 + k to: a + k) asArray collect: [ :e | Character value: 64 + e ]) ].
   #StringSym->[ :a :k | | s | s := String withAll: ((1 + k to: a + k) asArray collect: [ :e | Character value: 64 + e ]). k = 0 ifTrue: [ s ] ifFalse: [ s asSymbol ] ].
   #ArrayBA->[ :a :k | k = 0 ifTrue: [ (1 + k to: a + k) asArray ] ifFalse: [ (1 + k to: a + k) asArray asByteArray ] ].
   #OC->[ :a :k | k = 0 ifTrue: [ (1 + k to: a + k) asArray ] ifFalse: [ (1 + k to: a + k) asOrderedCollection ] ].
   #BAString->[ :a :k | k = 0 ifTrue: [ (1 to: a) asArray asByteArray ] ifFalse: [ String withAll: ((1 + k to: a + k) asArray collect: [ :e | Character value: e ]) ] ].
   #StringBA->[ :a :k | k = 0 ifTrue: [ String withAll: ((1 + k to: a + k) asArray collect: [ :e | Character value: 64 + e ]) ] ifFalse: [ (65 + k to: a + k + 64) asArray asByteArray ] ] } do: [ :kind | | huge idx mk |
   mk := kind value.
   huge := {%s}. idx := (-1 to: %d) asArray, huge.
   0 to: %d do: [ :a | ((0 to: %d) asArray, #(-1)) do: [ :b |
     (b = -1 and: [ (#(#Array #ByteArray #String) includes: kind key) not ]) ifFalse: [
     idx do: [ :s | idx do: [ :e | idx do: [ :r | | hs he hr |
       hs := huge includes: s. he := huge includes: e. hr := huge includes: r.
       ((({ hs. he. hr } occurrencesOf: true) > 1 and: [ (hs and: [ he and: [ e - s <= 2 and: [ r between: 1 and: 2 ] ] ]) not ])
          or: [ (hs or: [ he or: [ hr ] ]) and: [ a ~= %d or: [ b ~= %d and: [ b ~= -1 ] ] ] ]) ifFalse: [
       cnt := cnt + 1.
       cnt \\\\ n = shard ifTrue: [ | x y z after res |
         x := mk value: a value: 0. y := b = -1 ifTrue: [ x ] ifFalse: [ mk value: b value: 10 ]. after := mk value: a value: 0. z := y copy.
         res := [ x replaceFrom: s to: e with: y startingAt: r. 'ok' ] on: Error do: [ :ex | ex return: '!' ].
         out nextPutAll: res; space.
         x do: [ :el | out print: (el isCharacter ifTrue: [ el value ] ifFalse: [ el ]); space ].
         (b = -1 or: [ y = z ]) ifFalse: [ out nextPutAll: 'SRC' ].
         after = (mk value: a value: 0) ifFalse: [ out nextPutAll: 'OVERRUN' ].
         out nl ] ] ] ] ] ] ] ] ].
""" % ('. '.join(map(str, huge)), n + 2, n, m, n, m)

    def exp(shard, nn):
        for i, (kind, a, b, s, e, r) in enumerate(cases):
            if (i + 1) % nn != shard:
                continue
            off = 64 if kind in ('String', 'StringSym', 'StringBA') else 0
            x = [off + k for k in range(1, a + 1)]
            y = x if b == -1 else [off + 10 + k for k in range(1, b + 1)]
            ln = e - s + 1
            key = '%s size %d, replaceFrom: %d to: %d with: size %d startingAt: %d' % (kind, a, s, e, b, r)
            if ln <= 0:
                yield key, AnyOf([p + ' ' + ''.join('%d ' % v for v in x) for p in ('ok', '!')])
                continue
            if s < 1 or e > a or r < 1 or r + ln - 1 > len(y):
                # it fails; what was copied before the first bad index may stay, nothing else changes
                yield key, Failed(x, y)
                continue
            x = x[:s - 1] + y[r - 1:r - 1 + ln] + x[e:]
            yield key, 'ok ' + ''.join('%d ' % v for v in x)
    seq.table(c, 'block moves', code, exp, temps='cnt', pre=PRE + 'Eval [ ]\n', limit=None) if 0 else \
        seq.table(c, 'block moves', 'cnt := 0.\n' + code, exp, temps='cnt', pre=PRE)


class AnyOf(str):
    def __new__(cls, l):
        s = str.__new__(cls, ' or '.join(l))
        s.l = l
        return s

    def __eq__(self, o):
        return o in self.l

    def __ne__(self, o):
        return o not in self.l
    __hash__ = str.__hash__


ALPHA = [0, 1, 97, 127, 128, 255]
HUGEIX = [-2**62, -2**32 + 1, -4, -3, -1, 2**31 - 1, 2**31, 2**32 + 1, 2**61, 2**62 - 1]


def searches(c, n):
    """indexOf:startingAt:[ifAbsent:] in byte indexed objects, for elements of any kind."""
    elts = [('%d' % i, ('i', i)) for i in (0, 1, 97, 127, 128, 255, 256, 257, 353, -1, -128, -129, 65633, 2**32 + 97, 2**61 + 1)] + \
        [('(Character value: %d)' % i, ('c', i)) for i in (0, 1, 97, 127, 128, 255)] + \
        [('(Character codePoint: 353)', ('u', 353)), ('(Character codePoint: 128)', ('u', 128)), ('nil', ('o', 0)), ("'a'", ('o', 0)), ('97.5', ('o', 0)), ('(2 raisedTo: 64)', ('o', 0))]
    recvs = [t for k in range(n + 1) for t in itertools.product(ALPHA, repeat=k)]
    kinds = ('ByteArray', 'String')
    code = """
 elts := OrderedCollection new. %s
 cnt := 0.
 { ByteArray. String } do: [ :cls |
 0 to: %d do: [ :k | | idx more |
   idx := Array new: k withAll: 1. more := true.
   [ more ] whileTrue: [ | x |
     cnt := cnt + 1.
     cnt \\\\ n = shard ifTrue: [
     x := cls new: k. 1 to: k do: [ :i | x at: i put: (cls == String ifTrue: [ Character value: (#(%s) at: (idx at: i)) ] ifFalse: [ #(%s) at: (idx at: i) ]) ].
     elts do: [ :e | (0 to: k + 2) do: [ :s | out nextPutAll: (Enum fmt: (Enum try: [ x indexOf: e startingAt: s ])); space; nextPutAll: (Enum fmt: (Enum try: [ x indexOf: e startingAt: s ifAbsent: [ -7 ] ])); space ].
        #(%s) do: [ :s | out nextPutAll: (Enum fmt: (Enum try: [ x indexOf: e startingAt: s ])); space ].
        out nextPutAll: (Enum fmt: (Enum try: [ x indexOf: e ])); space; print: (x includes: e); space; print: (x occurrencesOf: e); nl ] ].
     more := Enum next: idx base: %d ] ] ].
""".replace('\\\\\\\\', '\\\\') % ('\n'.join('elts add: %s.' % e[0] for e in elts), n, ' '.join(map(str, ALPHA)), ' '.join(map(str, ALPHA)), ' '.join(map(str, HUGEIX)), len(ALPHA))

    def exp(shard, nn):
        cnt = 0
        for kind in kinds:
            for t in recvs:
                cnt += 1
                if cnt % nn != shard:
                    continue
                for es, (et, ev) in elts:
                    hit = [et == ('i' if kind == 'ByteArray' else 'c') and v == ev for v in t]
                    o = ''
                    for s in range(0, len(t) + 3):
                        if s < 1 or s > len(t) + 1:
                            o += '! ! '
                            continue
                        r = next((i + 1 for i in range(s - 1, len(t)) if hit[i]), 0)
                        o += '%d %d ' % (r, r or -7)
                    o += '! ' * len(HUGEIX)
                    o += '%d %s %d' % (next((i + 1 for i in range(len(t)) if hit[i]), 0), py_print(any(hit)), sum(hit))
                    yield '%s %s indexOf: %s startingAt: 0.. and %s' % (kind, t, es, HUGEIX), o
    seq.table(c, 'searches', code, exp, temps='elts cnt', pre=PRE, weight=10)


CT = [('short', 'short', '<h', [0, 1, -1, 32767, -32768]), ('ushort', 'ushort', '<H', [0, 1, 65535, 32768]), ('unsignedShort', 'ushort', '<H', [7, 65535]),
      ('int', 'int', '<i', [0, -1, 2**31 - 1, -2**31]), ('uint', 'uint', '<I', [0, 2**31, 2**32 - 1]), ('unsignedInt', 'uint', '<I', [5, 2**32 - 1]),
      ('long', 'long', '<q', [0, -1, 2**62 - 1, -2**62, 2**62, -2**62 - 1, 2**63 - 1, -2**63]), ('ulong', 'ulong', '<Q', [0, 2**62 - 1, 2**62, 2**63 - 1, 2**63, 2**64 - 1]),
      ('unsignedLong', 'ulong', '<Q', [3, 2**64 - 1]), ('float', 'float', '<f', [Fr(3, 2), Fr(-1, 4)]), ('double', 'double', '<d', [Fr(3, 2), Fr(-1, 4)]),
      ('char', 'char', 'c', [0, 97, 127, 255]), ('uchar', 'uchar', 'c', [0, 97, 255]), ('unsignedChar', 'uchar', 'c', [97])]


def views(c, n):
    """C typed access inside a ByteArray: every size, offset and boundary value."""
    huge = [-2**62, -2**61, -2**32 + 1, 2**31, 2**32 + 1, 2**61, 2**62 - 1, 2**62 - 8]
    cases = [(t, k, i, v) for t in CT for k in range(n + 1) for i in list(range(-9, n + 3)) + huge for v in t[3]]
    st_ = lambda t, v: '$%s value: %d' % ('', v) if 0 else ('(Character value: %d)' % v if t[2] == 'c' else '(%d/%d) asFloatD' % (v.numerator, v.denominator) if isinstance(v, Fr) else str(v))
    code = 'cnt := 0.\n' + '\n'.join("""
 { %s } do: [ :v | %s ].""" % ('. '.join(st_(t, v) for v in t[3]), 'nil') for t in CT[:0]) + """
 { %s } do: [ :spec | | get put |
  get := spec at: 1. put := spec at: 2.
  0 to: %d do: [ :k | (-9 to: %d + 2) asArray, #(%s) do: [ :i | (spec at: 3) do: [ :v |
     cnt := cnt + 1.
     cnt \\\\ n = shard ifTrue: [ | x a b r |
       a := ByteArray new: k. x := (ByteArray new: k) atAll: (1 to: k) put: 170; yourself. b := ByteArray new: k.
       r := Enum try: [ x perform: put with: i with: v. Sh v: (x perform: get with: i) ].
       out nextPutAll: (r == #ERR ifTrue: [ '!' ] ifFalse: [ r ]); space.
       x do: [ :e | out print: e; space ].
       (a allSatisfy: [ :e | e = 0 ]) & (b allSatisfy: [ :e | e = 0 ]) ifFalse: [ out nextPutAll: 'OVERRUN' ].
       out nl ] ] ] ] ].
""".replace('\\\\\\\\', '\\\\') % ('. '.join('{ #%sAt:. #%sAt:put:. {%s} }' % (t[0], t[0], '. '.join(st_(t, v) for v in t[3])) for t in CT), n, n, ' '.join(map(str, huge)))

    def exp(shard, nn):
        cnt = 0
        for t in CT:
            for k in range(n + 1):
                for i in list(range(-9, n + 3)) + huge:
                    for v in t[3]:
                        cnt += 1
                        if cnt % nn != shard:
                            continue
                        raw = bytes([v]) if t[2] == 'c' else struct.pack(t[2], float(v) if isinstance(v, Fr) else v)
                        x = [170] * k
                        key = '(ByteArray new: %d) %sAt: %d put: %s' % (k, t[0], i, v)
                        if i < 1 or i + len(raw) - 1 > k:
                            yield key, '! ' + ''.join('%d ' % e for e in x)
                            continue
                        x[i - 1:i - 1 + len(raw)] = list(raw)
                        r = 'C%d' % v if t[2] == 'c' else show(('f', v), '') if isinstance(v, Fr) else str(v)
                        yield key, r + ' ' + ''.join('%d ' % e for e in x)
    seq.table(c, 'typed access to bytes', code, exp, temps='cnt', pre=PRE)


class Failed(str):
    def __new__(cls, x, y):
        s = str.__new__(cls, 'a failure, leaving elements of %s or %s' % (x, y))
        s.x, s.y = x, y
        return s

    def __eq__(self, o):
        l = o.split(' ')
        return l[0] == '!' and len(l) == len(self.x) + 2 and l[-1] == '' and all(
            w.isdigit() and (int(w) == a or int(w) in self.y) for w, a in zip(l[1:-1], self.x))

    def __ne__(self, o):
        return not self == o
    __hash__ = str.__hash__


def main():
    with Check('C33') as c:
        stores(c, range(0, 10) if THOROUGH else (0, 1, 2, 3, 5))
        loads(c, range(0, 18) if THOROUGH else range(0, 10))
        searches(c, 4 if THOROUGH else 3)
        views(c, 18 if THOROUGH else 10)
        moves(c, 4, 4) if THOROUGH else moves(c, 3, 3)


if __name__ == '__main__':
    main()
