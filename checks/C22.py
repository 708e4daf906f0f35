"""C22: literals denote their value; what is printed reads back."""
import os, sys, itertools
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq

DIG = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
FMT = {'D': (53, -1022, 1023), 'E': (24, -126, 127), 'Q': (64, -16382, 16383)}

PRE = r'''
Object subclass: T [
  T class >> show: x [
    x == #ERR ifTrue: [ ^'!' ].
    x isFloat ifTrue: [ ^self float: x ].
    (x isKindOf: ScaledDecimal) ifTrue: [ ^'S ', x fraction numerator printString, '/', x fraction denominator printString, ' ', x scale printString ].
    (x isKindOf: Fraction) ifTrue: [ ^'F ', x numerator printString, '/', x denominator printString ].
    x isInteger ifTrue: [ ^'I ', x printString ].
    x isSymbol ifTrue: [ ^'Y', (self codes: x) ].
    x isString ifTrue: [ ^'T', (self codes: x) ].
    x isCharacter ifTrue: [ ^'C C', x value printString ].
    x class == Array ifTrue: [ ^'(', (x inject: '' into: [ :a :b | a, (self show: b), ',' ]), ')' ].
    x class == ByteArray ifTrue: [ ^'[', (x inject: '' into: [ :a :b | a, (self show: b), ',' ]), ']' ].
    ^x printString ]
  T class >> codes: x [ | s | s := WriteStream on: String new. x do: [ :c | s space; print: c value ]. ^s contents ]
  T class >> float: x [ | e |
    x isNaN ifTrue: [ ^x class name, ' NaN' ].
    x isInfinite ifTrue: [ ^x class name, ' ', x negative printString, ' inf' ].
    x = 0 ifTrue: [ ^x class name, ' 1 0' ].
    e := x exponent.
    ^x class name, ' ', (x timesTwoPower: x class precision - 1 - e) truncated printString, ' ', e printString ]
  T class >> read: s [ ^[ Behavior evaluate: s ifError: [ :a :b :c | ^#ERR ] ] on: Error do: [ :e | e return: #ERR ] ]
  T class >> decode: line [ "\ddd octal-like decimal escapes"
    | s r |
    s := ReadStream on: line. r := WriteStream on: String new.
    [ s atEnd ] whileFalse: [ | c | c := s next.
      c == $\ ifTrue: [ c := Character value: (s next: 3) asNumber ].
      r nextPut: c ].
    ^r contents ]
]
'''


def nearest(v, kind):
    """The float nearest to the Fraction V, ties to even: ('inf' | 0 | (m, e))."""
    p, emin, emax = FMT[kind]
    if v == 0:
        return 0
    a = abs(v)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    if Fraction(2) ** (e + 1) <= a:
        e += 1
    q = max(e, emin) - p + 1
    m = a / Fraction(2) ** q
    n = m.numerator // m.denominator
    r = m - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n == 0:
        return 0
    e = q + n.bit_length() - 1
    if e > emax:
        return 'inf'
    # normalize to p bits
    n = n << (p - n.bit_length()) if n.bit_length() <= p else n >> (n.bit_length() - p)
    return (n if v > 0 else -n, e)


def fshow(v, kind):
    r = nearest(v, kind)
    n = 'Float' + kind
    if r == 'inf':
        return '%s %s inf' % (n, 'true' if v < 0 else 'false')
    if r == 0:
        return '%s 1 0' % n
    return '%s %d %d' % (n, r[0], r[1])


def digits(n, b):
    s = ''
    while n:
        s = DIG[n % b] + s
        n //= b
    return s or '0'


def value(neg, base, ip, fp, exp):
    v = Fraction(int(ip, base))
    if fp:
        v += Fraction(int(fp, base), base ** len(fp))
    if exp:
        v *= Fraction(base) ** exp
    return -v if neg else v


def numbers():
    """All derivations of the grammar of numbers over some pieces: (text, expected)."""
    ints = ['0', '1', '7', '10', '12', '99', '1_000', '4611686018427387903', '4611686018427387904', '18446744073709551616', '123456789012345678901234567890']
    radix = [('', 10, ints)]
    for b in range(2, 37):
        l = DIG[b - 1]
        xs = ['0', '1', '10', l, l + l, '1' + l + '0'] + [digits(2 ** k + d, b) for k in (8, 30, 31, 32, 61, 62, 63, 64, 65, 128) for d in (-1, 0, 1)]
        radix.append(('%dr' % b, b, xs))
    for neg in ('', '-'):
        for pre, b, xs in radix:
            for neg2 in ([''] if not pre or neg else ['', '-']):
                for ip in xs:
                    t = neg + pre + neg2 + ip
                    n = bool(neg or neg2)
                    ipc = ip.replace('_', '')
                    yield t, 'I %d' % value(n, b, ipc, '', 0)
                    if len(ip) > 6 and b not in (2, 10, 16, 36):
                        continue
                    fps = ['', '0', '5' if b > 5 else '1', '25' if b > 5 else '01', '001', DIG[b - 1] * 3]
                    for fp in fps:
                        dot = '.' + fp if fp else ''
                        if fp:
                            yield t + dot, fshow(value(n, b, ipc, fp, 0), 'D')
                        for e in ['', '0', '1', '2', '-1', '-3', '10']:
                            for k in 'edq':
                                x = int(e or 0)
                                yield t + dot + k + e, fshow(value(n, b, ipc, fp, x), k.upper())
                        for sc in ['', '0', '1', '2', '5']:
                            v = value(n, b, ipc, fp, 0)
                            yield t + dot + 's' + sc, 'S %d/%d %d' % (v.numerator, v.denominator, int(sc) if sc else len(fp))


def decimals():
    """Decimal literals of many exponents, and ties."""
    big = 2000 if THOROUGH else 200
    for n in range(1, big):
        if n % 10 == 0:
            continue
        for k in range(-344, 310, 1 if n < 40 else 7):
            if n * 10 ** max(k, 0) < 10 ** 309:
                yield '%dd%d' % (n, k), fshow(Fraction(n) * Fraction(10) ** k, 'D')
        for k in range(-50, 40):
            yield '%de%d' % (n, k), fshow(Fraction(n) * Fraction(10) ** k, 'E')


def ties():
    for kind, sfx in (('D', 'd'), ('E', 'e')):
        p = FMT[kind][0]
        for e in range(-40, 60):
            for m in (2 ** (p - 1), 2 ** (p - 1) + 1, 2 ** p - 2, 2 ** p - 1, 3 * 2 ** (p - 2), 3 * 2 ** (p - 2) + 1):
                for off in (0, 1, 2, 3):
                    v = Fraction(4 * m + off) * Fraction(2) ** (e - p - 1)
                    # exact decimal expansion
                    k = 0
                    d = v.denominator
                    while d > 1:
                        d //= 2
                        k += 1
                    s = str(v.numerator * 5 ** k).rjust(k + 1, '0')
                    t = (s[:-k] + '.' + s[-k:]) if k else s
                    yield t + sfx, fshow(v, kind)
                    if off == 2:
                        # just below and above the tie, in the 30th digit after it
                        eps = Fraction(1, 10 ** (k + 3)) if THOROUGH else Fraction(1, 10 ** (k + 1))
                        for w, u in ((v + eps, 1), (v - eps, -1)):
                            j = k + (3 if THOROUGH else 1)
                            s = str((w * 10 ** j).numerator).rjust(j + 1, '0')
                            yield s[:-j] + '.' + s[-j:] + sfx, fshow(w, kind)


def enc(s):
    return ''.join(c if 33 <= ord(c) < 127 and c != '\\' else '\\%03d' % ord(c) for c in s)


def read_table(c, name, items):
    items = list(items)
    f = os.path.join(c.b.work, 'c22-%s.txt' % name)
    with open(f, 'w') as h:
        for t, e in items:
            h.write(enc(t) + '\n')
    code = r'''
 | f k |
 f := FileStream open: '%s' mode: FileStream read.
 k := 0.
 [ f atEnd ] whileFalse: [ | line |
   line := f nextLine.
   k \\ n = shard ifTrue: [ out nextPutAll: (T show: (T read: (T decode: line))); nl ].
   k := k + 1 ]
''' % f

    def exp(shard, n):
        for i in range(shard, len(items), n):
            yield items[i][0][:200], items[i][1]
    seq.table(c, name, code, exp, pre=PRE)


def quads():
    for n in (1, 3, 7, 12, 123456789, 9999999999999999999, 18446744073709551617):
        for k in list(range(-120, 120)) + list(range(-4990, 4932, 1 if THOROUGH else 23)):
            if n * 10 ** max(k, 0) < 10 ** 4932:
                yield '%dq%d' % (n, k), fshow(Fraction(n) * Fraction(10) ** k, 'Q')


def floats(c):
    """Printing a float and reading it back."""
    for kind in 'DEQ':
        p, emin, emax = FMT[kind]
        h = 2 ** (p - 1)
        ms = [h, h + 1, h + 2, h + 3, 2 * h - 1, 2 * h - 2, 2 * h - 3, h + h // 2, h + h // 2 + 1, int('10' * (p // 2), 2) | h, int('1100' * (p // 4), 2) | h] + [
            h + 2 ** k for k in range(2, p - 1, 1 if THOROUGH else 7)]
        step = 1
        if kind == 'Q':
            step = 61 if THOROUGH else 977
        es = list(range(emin - p + 1, emax - p + 1, step))
        if kind == 'Q':
            es = sorted(set(es) | set(range(-130, 70, 1 if THOROUGH else 3)))
        if kind == 'D' and not THOROUGH:
            es = [e for e in es if -160 < e < 60 or e % 7 == 0]
        code = r"""
 | k es ms |
 ms := #(%s). es := #(%s). k := 0.
 es do: [ :e | ms do: [ :m |
   k \\ n = shard ifTrue: [ | x |
     x := m asFloat%s timesTwoPower: e.
     out nextPutAll: (T show: (T read: x %s)); nextPut: $|; nextPutAll: (T show: (T read: x negated storeString)); nl ].
   k := k + 1 ] ]
""" % (' '.join(map(str, ms)), ' '.join(map(str, es)), kind, 'printString' if kind == 'D' else 'storeString')

        def exp(shard, n):
            k = 0
            for e in es:
                for m in ms:
                    if k % n == shard:
                        v = Fraction(m) * Fraction(2) ** e
                        # denormals lose bits in the conversion
                        yield 'Float%s %d * 2^%d' % (kind, m, e), fshow(v, kind) + '|' + fshow(-v, kind)
                    k += 1
        seq.table(c, 'printing Float' + kind, code, exp, pre=PRE)


def strings(c):
    """Strings, symbols, characters."""
    L = 6 if THOROUGH else 5
    alpha = [ord(x) for x in "a'\" %#"] + [10, 233]
    code = r"""
 | k al |
 al := #(%s) collect: [ :x | Character value: x ].
 k := 0.
 0 to: %d do: [ :len | | idx |
   idx := Array new: len withAll: 1.
   [ k \\ n = shard ifTrue: [ | x |
       x := String new: len. 1 to: len do: [ :i | x at: i put: (al at: (idx at: i)) ].
       out nextPutAll: (T show: (T read: x printString)); nextPut: $|; nextPutAll: (T show: (T read: x storeString)); nextPut: $|; nextPutAll: (T show: (T read: '{', x printString, '} first')); 
          nextPut: $|; nextPutAll: (T show: ([T read: x asSymbol storeString] on: Error do: [:e | e return: #ERR])); nextPut: $|; nextPutAll: (([T read: x asSymbol printString] on: Error do: [:e | e return: #ERR]) == x asSymbol) printString; nl ].
     k := k + 1.
     Enum next: idx base: al size ] whileTrue ]
""" % (' '.join(map(str, alpha)), L - 1)

        # the order of Enum class>>next:base: is lexicographic
    def exp(shard, n):
        k = 0
        for l in range(L):
            for t in itertools.product(alpha, repeat=l):
                if k % n == shard:
                    cs = ''.join(' %d' % x for x in t)
                    yield 'codes' + cs, 'T%s|T%s|T%s|Y%s|true' % (cs, cs, cs, cs)
                k += 1
    seq.table(c, 'strings', code, exp, pre=PRE)
    alpha2 = [ord(x) for x in "aB1:_+-|.<"]
    code2 = code.replace(' '.join(map(str, alpha)), ' '.join(map(str, alpha2)))

    def exp2(shard, n):
        k = 0
        for l in range(L):
            for t in itertools.product(alpha2, repeat=l):
                if k % n == shard:
                    cs = ''.join(' %d' % x for x in t)
                    yield 'codes' + cs, 'T%s|T%s|T%s|Y%s|true' % (cs, cs, cs, cs)
                k += 1
    seq.table(c, 'symbols', code2, exp2, pre=PRE)
    chars = list(range(0, 3000)) + list(range(3000, 0x110000, 97 if THOROUGH else 997)) + [0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF]
    chars = [x for x in chars if not 0xD800 <= x < 0xE000]
    code = r"""
 #(%s) doWithIndex: [ :v :k | k \\ n = shard ifTrue: [ | x |
   x := Character codePoint: v.
   out nextPutAll: (T show: (T read: x printString)); nextPut: $|; nextPutAll: (T show: (T read: x storeString)); nextPut: $|;
     nextPutAll: (v < 256 ifTrue: [ T show: (T read: '#($', (String with: (Character value: v)), ') first') ] ifFalse: [ '' ]); nl ] ]
""" % ' '.join(map(str, chars))

    def exp3(shard, n):
        for k, v in enumerate(chars, 1):
            if k % n == shard:
                s = 'C %s%d' % ('C' if v < 128 else 'C', v)
                yield 'character %d' % v, '%s|%s|%s' % (s, s, s if 0 < v < 128 else '!' if v < 256 else '')
    seq.table(c, 'characters', code, exp3, pre=PRE.replace("'C ', x class name first asString", "'C C'"))


def arrays():
    """Literal arrays."""
    leaves = [('1', 'I 1'), ('-5', 'I -5'), ('2r101', 'I 5'), ('1.5', fshow(Fraction(3, 2), 'D')), ('$a', 'C C97'), ('$ ', 'C C32'), ("'b'", 'T 98'), ("''", 'T'),
              ('#c', 'Y 99'), ('#c:d:', 'Y 99 58 100 58'), ('#+', 'Y 43'), ("#'e f'", 'Y 101 32 102'), ('nil', 'nil'), ('true', 'true'), ('false', 'false'),
              ('3s2', 'S 3/1 2'), ('#[1 2]', '[I 1,I 2,]'), ('[3]', '[I 3,]'), ('#()', '()'), ('(1)', '(I 1,)'), ('#(2 3)', '(I 2,I 3,)'), ('123456789012345678901234567890', 'I 123456789012345678901234567890')]
    leaves += [('((1) #c)', '((I 1,),Y 99,)'), ('(($) ))', '((C C41,),)'), ('#[255]', '[I 255,]')]
    for n in range(0, 4 if THOROUGH else 3):
        for t in itertools.product(leaves, repeat=n):
            yield '#(%s)' % ' '.join(x for x, _ in t), '(%s)' % ''.join(y + ',' for _, y in t)
            yield '#(%s)' % ' "c)" '.join(x for x, _ in t), '(%s)' % ''.join(y + ',' for _, y in t)
            yield '(#(%s) ->3) key' % '\n'.join(x for x, _ in t), '(%s)' % ''.join(y + ',' for _, y in t)
            yield '{%s}' % '. '.join(x if x[0] not in '([' else '#' + x for x, _ in t), '(%s)' % ''.join(y + ',' for _, y in t)
            yield '##({%s})' % '. '.join(x if x[0] not in '([' else '#' + x for x, _ in t), '(%s)' % ''.join(y + ',' for _, y in t)
            yield '#(%s) copy storeString' % ' '.join(x for x, _ in t), None


def tokens():
    """Operators, signs and spaces."""
    for a, av in (('7', 7), ('-7', -7), ('16rA', 10), ('(3)', 3)):
        for b, bv in (('2', 2), ('-2', -2), ('- 2', None), ('2r10', 2), ('(2)', 2)):
            for s1 in ('', ' ', '\n', '"c"'):
                for s2 in ('', ' ', '\t', '"-"'):
                    if bv is None:
                        continue
                    for op, f in (('+', lambda x, y: x + y), ('*', lambda x, y: x * y), ('-', lambda x, y: x - y), ('//', lambda x, y: x // y), ('\\\\', lambda x, y: x % y)):
                        t = a + s1 + op + s2 + b
                        yield t, 'I %d' % f(av, bv)
                        yield '#(%s) size. %s' % (a, t), 'I %d' % f(av, bv)
                        yield '[:x | %s] value: 3' % t, 'I %d' % f(av, bv)
                    for op, f in (('<', lambda x, y: x < y), ('>=', lambda x, y: x >= y), ('=', lambda x, y: x == y), ('~=', lambda x, y: x != y), ('==', lambda x, y: x == y)):
                        yield a + s1 + op + s2 + b, 'true' if f(av, bv) else 'false'


def integers(c):
    """Printing in any base."""
    ns = sorted(set(s * (2 ** k + d) for k in (0, 1, 3, 7, 8, 15, 16, 29, 30, 31, 32, 60, 61, 62, 63, 64, 65, 127, 200, 500) for d in (-1, 0, 1) for s in (1, -1)) | set(range(-40, 41)) | set([10 ** k for k in range(60)]) | set([-10 ** k + 1 for k in range(60)]))
    code = r"""
 #(%s) doWithIndex: [ :v :k | k \\ n = shard ifTrue: [
   2 to: 36 do: [ :b |
     out nextPutAll: (v printString: b); space; nextPutAll: (v radix: b); space; nextPutAll: (v printStringRadix: b); space;
       print: (T read: (v printStringRadix: b)); space; nextPutAll: (v printPaddedWith: $0 to: 12 base: b); space;
       nextPutAll: (v printString: b) size printString; nl ].
   out nextPutAll: v printString; space; nextPutAll: v displayString; space; print: v printString asInteger; space; print: v printString asNumber; space;
     print: (Number readFrom: v printString readStream); space; nextPutAll: (v printPaddedWith: $  to: (v < 0 ifTrue: [1] ifFalse: [5])); nl ] ]
""" % ' '.join(map(str, ns))

    def rad(v, b):
        return ('-' if v < 0 else '') + digits(abs(v), b)

    def exp(shard, n):
        for k, v in enumerate(ns, 1):
            if k % n == shard:
                for b in range(2, 37):
                    r = rad(v, b)
                    rr = '%dr' % b + ('-' if v < 0 else '') + digits(abs(v), b)
                    pad = ('-' if v < 0 else '') + digits(abs(v), b).rjust(12 - (v < 0), '0')
                    yield '%d in base %d' % (v, b), '%s %s %s %d %s %d' % (r, rr, rr, v, pad, len(r))
                yield '%d' % v, '%d %d %d %d %d %s' % (v, v, v, v, v, str(v).rjust(1 if v < 0 else 5))
    seq.table(c, 'integers', code, exp, pre=PRE)


def main():
    with Check('C22') as c:
        only = os.environ.get('MC_ONLY')
        for name, f in (('numbers', numbers), ('decimals', decimals), ('ties', lambda: (x for x in ties() if sum(d.isdigit() for d in x[0].lstrip('0.')) <= 45)),
                        ('quads', quads), ('arrays', lambda: (x for x in arrays() if x[1])), ('tokens', tokens)):
            if not only or only == name:
                read_table(c, name, f())
        for name, f in (('floats', floats), ('strings', strings), ('integers', integers)):
            if not only or only == name:
                f(c)


if __name__ == '__main__':
    main()
