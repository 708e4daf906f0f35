"""C15: sequenceable collections behave as finite sequences."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq
from seq import Err, py_print

# ------------------------------------------------------- OrderedCollection


def idx(s, i, lo=1, hi=None):
    if not (lo <= i <= (len(s) if hi is None else hi)):
        raise Err
    return i


def o_add(v):
    def f(s):
        s.append(v)
        return v
    return f


def o_addfirst(v):
    def f(s):
        s.insert(0, v)
        return v
    return f


def o_removefirst(s):
    if not s:
        raise Err
    return s.pop(0)


def o_removelast(s):
    if not s:
        raise Err
    return s.pop()


def o_addall(vs):
    def f(s):
        s.extend(vs)
        return None
    return f


def o_addallfirst(vs):
    def f(s):
        s[0:0] = vs
    return f


def o_insert(v, i):
    def f(s):
        idx(s, i, 0)
        s.insert(i, v)
        return v
    return f


def o_insertall(vs, i):
    def f(s):
        idx(s, i, 0)
        s[i:i] = vs
    return f


def o_remove(v):
    def f(s):
        if v not in s:
            raise Err
        s.remove(v)
        return v
    return f


def o_removeat(i):
    def f(s):
        idx(s, i)
        return s.pop(i - 1)
    return f


def o_atput(i, v):
    def f(s):
        idx(s, i)
        s[i - 1] = v
        return v
    return f


def o_after(v, w):
    def f(s):
        if w not in s:
            raise Err
        s.insert(s.index(w) + 1, v)
        return v
    return f


def o_before(v, w):
    def f(s):
        if w not in s:
            raise Err
        s.insert(s.index(w), v)
        return v
    return f


def o_repl(s):
    if len(s) < 2:
        raise Err
    s[0:2] = [8, 9]


def o_filter(s):
    s[:] = [x for x in s if x % 2]


OPS = [
    ('s add: 1', o_add(1)),
    ('s addFirst: 2', o_addfirst(2)),
    ('s removeFirst', o_removefirst),
    ('s removeLast', o_removelast),
    ('s addAll: #(3 4 5). nil', o_addall([3, 4, 5])),
    ('s addAllFirst: #(6 7). nil', o_addallfirst([6, 7])),
    ('s add: 8 afterIndex: 1', o_insert(8, 1)),
    ('s removeAtIndex: 2', o_removeat(2)),
    ('s remove: 3', o_remove(3)),
    ('s addAll: #(3 9 2) afterIndex: 2. nil', o_insertall([3, 9, 2], 2)),
    ('s at: 2 put: 4', o_atput(2, 4)),
    ('s add: 5 beforeIndex: 1', o_insert(5, 0)),
    ('s addAllLast: (OrderedCollection with: 3 with: 1). nil', o_addall([3, 1])),
    ('s replaceFrom: 1 to: 2 with: #(7 8 9) startingAt: 2. nil', o_repl),
    ('s add: 7 before: 3', o_before(7, 3)),
    ('s removeAll: (s select: [ :x | x even ]). nil', o_filter),
]
SHOW = 's asArray printString, (s inject: 0 into: [ :a :b | a * 3 + b ]) printString'


def osnap(s):
    a = 0
    for x in s:
        a = a * 3 + x
    return py_print(tuple(s)) + str(a)


def ordered(c):
    d = 5 if THOROUGH else 4
    for cap in (1, 2, 3) if not THOROUGH else (1, 2, 3, 5, 8):
        seq.sequences(c, 'OrderedCollection new: %d' % cap, 'OrderedCollection new: %d' % cap, OPS, SHOW,
                      lambda: [], osnap, d, lo=d if cap > 1 else 0, clone=list)
    # long runs of few operations: growth and shrinking, with the contents moving in the buffer
    few = [OPS[0], OPS[1], OPS[2], OPS[3]]
    n = 9 if not THOROUGH else 11
    seq.sequences(c, 'OrderedCollection as a deque', 'OrderedCollection new: 2', few, SHOW, lambda: [], osnap, n, lo=n, clone=list)
    big = [('1 to: 7 do: [ :i | s add: i ]. nil', o_addall([1, 2, 3, 4, 5, 6, 7])),
           ('5 timesRepeat: [ s removeFirst ]. nil', lambda s: [o_removefirst(s) for i in range(5)] and None),
           ('5 timesRepeat: [ s removeLast ]. nil', lambda s: [o_removelast(s) for i in range(5)] and None),
           ('1 to: 7 do: [ :i | s addFirst: i ]. nil', lambda s: [s.insert(0, i) for i in range(1, 8)] and None),
           ('s addAllFirst: (1 to: 10). nil', o_addallfirst(list(range(1, 11)))),
           ('s addAll: (1 to: 10) afterIndex: s size // 2. nil', lambda s: s.__setitem__(slice(len(s) // 2, len(s) // 2), list(range(1, 11)))),
           ('[ s isEmpty ] whileFalse: [ s removeLast ]. nil', lambda s: s.clear()),
           ('s removeAtIndex: s size // 2 + 1. nil', lambda s: [idx(s, len(s) // 2 + 1), s.pop(len(s) // 2)] and None)]
    seq.sequences(c, 'OrderedCollection in bulk', 'OrderedCollection new', big, SHOW, lambda: [], osnap,
                  6 if THOROUGH else 5, clone=list)


# ---------------------------------------------------- queries on sequences

def S(st):
    return "'" + st + "'"


CLASSES = [  # name, literal of a word over a,b
    ('Array', lambda w: '#(' + ' '.join('$' + x for x in w) + ') copy'),
    ('String', lambda w: "'%s' copy" % w),
    ('OrderedCollection', lambda w: '(OrderedCollection new: 1) addAll: #(%s); yourself' % ' '.join('$' + x for x in w)),
    ('Symbol', lambda w: "#'%s'" % w),
    ('ByteArray', lambda w: '#[%s] copy' % ' '.join(str(ord(x)) for x in w)),
]


def words(n, alpha='ab'):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)


def check(cond):
    if not cond:
        raise Err


def rep_all(w, old, new):
    if not old:
        raise Err
    out, i = '', 0
    while i < len(w):
        if w.startswith(old, i):
            out += new
            i += len(old)
        else:
            out += w[i]
            i += 1
    return out


def cfrom(w, i, j):
    if j < i:
        return SKIP if not (1 <= i <= len(w) + 1 and j == i - 1) else ''
    check(1 <= i <= len(w) + 1 and i - 1 <= j <= len(w))
    return w[i - 1:j]


def crepl(w, i, j, v):
    if j < i and not (1 <= i <= len(w) + 1 and j == i - 1):
        return SKIP
    check(1 <= i <= len(w) + 1 and i - 1 <= j <= len(w))
    return w[:i - 1] + v + w[j:]


# (name, smalltalk expression with w, x (another word), i, j, arguments, python)
Q = [
    ('w size', '', lambda w: len(w)),
    ('w reverse', '', lambda w: w[::-1]),
    ('w copy reverse reverse asArray = w asArray', '', lambda w: True),
    ('w isEmpty', '', lambda w: not w),
    ('w first', '', lambda w: w[0] if w else check(0)),
    ('w last', '', lambda w: w[-1] if w else check(0)),
    ('w first: i', 'i', lambda w, i: (check(0 <= i <= len(w)), w[:i])[1]),
    ('w last: i', 'i', lambda w, i: (check(0 <= i <= len(w)), w[len(w) - i:])[1]),
    ('w allButFirst: i', 'i', lambda w, i: (check(0 <= i <= len(w)), w[i:])[1]),
    ('w allButLast: i', 'i', lambda w, i: (check(0 <= i <= len(w)), w[:len(w) - i])[1]),
    ('w at: i', 'i', lambda w, i: (check(1 <= i <= len(w)), w[i - 1])[1]),
    ('w at: i ifAbsent: [ 99 ]', 'i', lambda w, i: w[i - 1] if 1 <= i <= len(w) else 99),
    ('w copyFrom: i', 'i', lambda w, i: cfrom(w, i, len(w))),
    ('w copyFrom: i to: j', 'ij', lambda w, i, j: cfrom(w, i, j)),
    ('w indexOf: $b', '', lambda w: w.find('b') + 1),
    ('w indexOf: $z', '', lambda w: 0),
    ('w includes: $b', '', lambda w: 'b' in w),
    ('w occurrencesOf: $b', '', lambda w: w.count('b')),
    ('w indexOf: $b startingAt: i ifAbsent: [ 0 ]', 'i', lambda w, i: w.find('b', i - 1) + 1 if 1 <= i <= len(w) else
        0 if i == len(w) + 1 else SKIP),
    ('w copyUpTo: $b', '', lambda w: w.split('b')[0]),
    ('w copyAfter: $b', '', lambda w: w.partition('b')[2]),
    ('w copyUpToLast: $b', '', lambda w: w.rpartition('b')[0] if 'b' in w else w),
    ('w copyAfterLast: $b', '', lambda w: w.rpartition('b')[2] if 'b' in w else ''),
    ('w copyWith: $c', '', lambda w: w + 'c'),
    ('w copyWithout: $b', '', lambda w: w.replace('b', '')),
    ('w copyReplacing: $b withObject: $c', '', lambda w: w.replace('b', 'c')),
    ('w startsWith: x', 'x', lambda w, x: w.startswith(x)),
    ('w endsWith: x', 'x', lambda w, x: w.endswith(x)),
    ('(w, x) size', 'x', lambda w, x: len(w + x)),
    ('w, x', 'x', lambda w, x: w + x),
    ('w = x', 'x', lambda w, x: w == x),
    ('(w = x) not or: [ w hash = x hash ]', 'x', lambda w, x: True),
    ('w indexOfSubCollection: x', 'x', lambda w, x: w.find(x) + 1 if x else SKIP),
    ('w indexOfSubCollection: x startingAt: i', 'xi', lambda w, x, i: w.find(x, i - 1) + 1 if x and 1 <= i <= len(w) else SKIP),
    ('w copyReplaceAll: z with: y', 'zy', lambda w, x, y: rep_all(w, x, y) if x else SKIP),
    ('w copyReplaceFrom: i to: j with: x', 'xij', lambda w, x, i, j: crepl(w, i, j, x)),
    ('w copyReplaceFrom: i to: j withObject: $c', 'ij', lambda w, i, j: crepl(w, i, j, 'c' * (1 if j == i - 1 else j - i + 1))),
    ('w collect: [ :e | e == $a ifTrue: [ $b ] ifFalse: [ $a ] ]', '', lambda w: w.translate({97: 98, 98: 97})),
    ('w select: [ :e | e == $a ]', '', lambda w: w.replace('b', '')),
    ('w reject: [ :e | e == $a ]', '', lambda w: w.replace('a', '')),
    ('w detect: [ :e | e == $b ] ifNone: [ 0 ]', '', lambda w: 'b' if 'b' in w else 0),
    ('w inject: 0 into: [ :a :e | a * 2 + e value - 96 ]', '', lambda w: __import__('functools').reduce(lambda a, e: a * 2 + ord(e) - 96, w, 0)),
    ('w count: [ :e | e == $b ]', '', lambda w: w.count('b')),
    ('w anySatisfy: [ :e | e == $b ]', '', lambda w: 'b' in w),
    ('w allSatisfy: [ :e | e == $b ]', '', lambda w: set(w) <= {'b'}),
    ('w findFirst: [ :e | e == $b ]', '', lambda w: w.find('b') + 1),
    ('w findLast: [ :e | e == $b ]', '', lambda w: w.rfind('b') + 1),
    ('(w asOrderedCollection removeAll: x; yourself)', 'x', None),
    ('w asBag size', '', lambda w: len(w)),
    ('w asSet size', '', lambda w: len(set(w))),
    ('| r | r := WriteStream on: String new. w do: [ :e | r nextPut: e ] separatedBy: [ r nextPut: $- ]. r contents', '', lambda w: '-'.join(w)),
    ('| r | r := WriteStream on: String new. w reverseDo: [ :e | r nextPut: e ]. r contents', '', lambda w: w[::-1]),
    ('| r | r := WriteStream on: String new. w doWithIndex: [ :e :k | r nextPut: e; print: k ]. r contents', '', lambda w: ''.join(e + str(k + 1) for k, e in enumerate(w))),
    ('| r | r := WriteStream on: String new. w keysAndValuesDo: [ :k :e | r nextPut: e; print: k ]. r contents', '', lambda w: ''.join(e + str(k + 1) for k, e in enumerate(w))),
    ('| r | r := WriteStream on: String new. w from: i to: j do: [ :e | r nextPut: e ]. r contents', 'ij', lambda w, i, j: cfrom(w, i, j) if 1 <= i <= len(w) + 1 and i - 1 <= j <= len(w) else SKIP),
    ('| r | r := WriteStream on: String new. w with: x do: [ :e :f | r nextPut: e; nextPut: f ]. r contents', 'x', lambda w, x: (check(len(w) == len(x)), ''.join(a + b for a, b in zip(w, x)))[1]),
    ('w fold: [ :a :e | e ]', '', lambda w: w[-1] if w else check(0)),
    ('w countSubCollectionOccurrencesOf: x', 'x', None),
]
MUT = [
    ('w at: i put: $c. w', 'i', lambda w, i: (check(1 <= i <= len(w)), w[:i - 1] + 'c' + w[i:])[1]),
    ('w atAllPut: $c. w', '', lambda w: 'c' * len(w)),
    ('w replaceAll: $a with: $c. w', '', lambda w: w.replace('a', 'c')),
    ('w swap: i with: j. w', 'ij', lambda w, i, j: (check(1 <= i <= len(w) and 1 <= j <= len(w)), swap(w, i - 1, j - 1))[1]),
    ('w replaceFrom: i to: j with: x startingAt: k. w', 'xijk', lambda w, x, i, j, k: repf(w, i, j, x, k)),
    ('w replaceFrom: i to: j with: w startingAt: k. w', 'ijk', lambda w, i, j, k: repf(w, i, j, w, k)),
    ('w replaceFrom: i to: j with: x. w', 'xij', lambda w, x, i, j: repf(w, i, j, x, 1) if len(x) == j - i + 1 else SKIP),
    ('w replaceFrom: i to: j withObject: $c. w', 'ij', lambda w, i, j: w[:i - 1] + 'c' * (j - i + 1) + w[j:] if 1 <= i <= len(w) + 1 and i - 1 <= j <= len(w) else SKIP),
]


class Skip(Exception):
    pass


SKIP = object()


def swap(w, i, j):
    l = list(w)
    l[i], l[j] = l[j], l[i]
    return ''.join(l)


def repf(w, i, j, x, k):
    if j == i - 1 and 1 <= i <= len(w) + 1:
        return SKIP if not 1 <= k <= len(x) + 1 else w
    check(1 <= i and j <= len(w) and i - 1 <= j)
    check(1 <= k and k + (j - i) <= len(x))
    return w[:i - 1] + x[k - 1:k + j - i] + w[j:]


def fmtpy(r):
    if isinstance(r, str):
        return r
    return py_print(r)


FMT = '''Enum class extend [
 word: r [ r == #ERR ifTrue: [ ^'!' ]. r isNil ifTrue: [ ^'nil' ]. r isCharacter ifTrue: [ ^String with: r ].
   r isString ifTrue: [ ^r asString ]. (r isKindOf: ByteArray) ifTrue: [ ^r asString ].
   (r isKindOf: SequenceableCollection) ifTrue: [ ^String withAll: r ].
   ^r printString ]
]
'''
ELEMENT = {'w first', 'w last', 'w at: i', 'w at: i ifAbsent: [ 99 ]', 'w detect: [ :e | e == $b ] ifNone: [ 0 ]', 'w fold: [ :a :e | e ]'}
IDX = list(range(0, 6))


def queries(c, cname, lit, qs, maxlen, xlen):
    ws = list(words(maxlen))
    xs = list(words(xlen, 'ab'))
    ys = ['', 'c', 'ab', 'aba']
    ks = [0, 1, 2, 3, 5]
    dims = {'x': xs, 'z': [x for x in xs if x], 'y': ys, 'i': IDX, 'j': IDX, 'k': ks}
    qs = [q for q in qs if q[2]]
    byte = cname == 'ByteArray'
    arr = lambda l: '{ %s }' % '. '.join('[ ' + lit(w) + ' ]' for w in l)
    code = ''
    decl = '''
 | ws xs ys ks is run |
 zs := %s. ws := %s. xs := %s. ys := %s. is := #(%s). ks := #(%s).
''' % (arr(dims['z']), arr(ws), arr(xs), arr(ys), ' '.join(map(str, IDX)), ' '.join(map(str, ks)))
    body = ''
    for qi, (src, dim, py) in enumerate(qs):
        if byte:
            if 'WriteStream' in src:
                continue
            src = src.replace('$a', '97').replace('$b', '98').replace('$c', '99').replace('e value', 'e')
        loop = '''out nextPutAll: (Enum word: (Enum try: [ | w %s | w := mk value. %s [ %s ] value ])); nl''' % (
            ' '.join(v for v in 'xyz' if v in dim), ' '.join('%s := %sb value.' % (v, v) for v in 'xyz' if v in dim), src)
        for v in reversed(dim):
            loop = '%s do: [ :%s | %s ]' % (v + 's' if v in 'xyzk' else 'is', v + 'b' if v in 'xyz' else v, loop)
        body += ' run value: [ :mk | %s ].\n' % loop
    code = decl[decl.index('zs :='):] + ''' run := [ :blk | ws keysAndValuesDo: [ :n1 :mk | n1 - 1 \\\\ n = shard ifTrue: [ blk value: mk ] ] ].
''' + body

    def expected(shard, n):
        for src, dim, py in qs:
            if byte and 'WriteStream' in src:
                continue
            for wi, w in enumerate(ws):
                if wi % n != shard:
                    continue
                for args in itertools.product(*[dims[d] for d in dim]):
                    try:
                        r = py(w, *args)
                        if r is not SKIP:
                            r = str(ord(r)) if byte and src in ELEMENT and isinstance(r, str) else fmtpy(r)
                    except Err:
                        r = '!' if cname != 'OrderedCollection' or 'copyReplaceFrom' not in src else SKIP
                    yield (src, w, args), (r if r is not SKIP else ANY)
    seq.table(c, 'queries on ' + cname, code, expected, pre=FMT, temps='zs ws xs ys ks is run',
              describe=lambda k: '%s w=%r args=%r' % k if isinstance(k, tuple) else str(k))


class Any(str):
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False
    __hash__ = str.__hash__


ANY = Any('(anything)')


# ---------------------------------------------------------------- Interval

FMTI = FMT + '''
Object extend [ nrm [ ^self ] ]
Number extend [ nrm [ ^self numerator / self denominator ] ]
Collection extend [ nrm [ ^self collect: [ :x | x nrm ] ] ]
Interval extend [ nrm [ ^self asArray collect: [ :x | x nrm ] ] ]
Enum class extend [ iv: iv [ | r |
   r := WriteStream on: String new.
   r print: iv size; space; print: iv isEmpty; space; print: (iv collect: [ :x | x nrm ]); print: iv asArray nrm; print: iv asOrderedCollection asArray nrm.
   iv do: [ :x | r print: x nrm; nextPut: $, ].
   r print: iv reverse asArray nrm; print: (iv inject: 0 into: [ :a :b | a * 3 + b ]) nrm.
   #(0 1 2 3) do: [ :k | r nextPutAll: (Enum fmt: (Enum try: [ (iv at: k) nrm ])); space ].
   r nextPutAll: (Enum fmt: (Enum try: [ iv first nrm ])); space; nextPutAll: (Enum fmt: (Enum try: [ iv last nrm ])).
   r space; print: (iv includes: 2); space; print: (iv copyFrom: 1 to: iv size) asArray nrm.
   ^r contents ] ]
'''


def interval(c):
    from fractions import Fraction
    R = range(-5, 6) if not THOROUGH else range(-9, 10)
    for name, conv, steps in (('integers', '', (-4, -3, -2, -1, 1, 2, 3, 4)), ('fractions', ' / 3', (-2, -1, 1, 2, 3))):
        den = 3 if conv else 1

        def pr(x):
            return str(x.numerator) if x.denominator == 1 else '%d/%d' % (x.numerator, x.denominator)

        def arr(l):
            return '(' + ''.join(pr(x) + ' ' for x in l) + ')'

        def expected(shard, n, den=den, steps=steps):
            for a in R:
                if a % n != shard:
                    continue
                for b in R:
                    for st in steps:
                        a_, b_, s_ = Fraction(a, den), Fraction(b, den), Fraction(st, den)
                        l, x = [], a_
                        while x <= b_ if st > 0 else x >= b_:
                            l.append(x)
                            x += s_
                        acc = Fraction(0)
                        for x in l:
                            acc = acc * 3 + x
                        at = ' '.join(pr(l[k - 1]) if 1 <= k <= len(l) else '!' for k in range(4)) + ' '
                        yield (a, b, st), '%d %s %s%s%s%s%s%s%s%s %s %s %s' % (
                            len(l), py_print(not l), arr(l), arr(l), arr(l), ''.join(pr(x) + ',' for x in l), arr(l[::-1]), pr(acc), at,
                            pr(l[0]) if l else '!', pr(l[-1]) if l else '!', py_print(2 in l), arr(l))
        seq.table(c, 'Interval of ' + name, '''
 %d to: %d do: [ :a | a \\\\ n = shard ifTrue: [ %d to: %d do: [ :b | #(%s) do: [ :s |
   out nextPutAll: (Enum iv: (a%s to: b%s by: s%s)); nl ] ] ] ]''' % (R[0], R[-1], R[0], R[-1], ' '.join(map(str, steps)), conv, conv, conv),
                  expected, pre=FMTI, describe=lambda k: '%s to: %s by: %s%s' % (k + (conv,)) if isinstance(k, tuple) else k)
    # equality and hash

    def eq(shard, n):
        ivs = [(a, b, st) for a in range(4) for b in range(4) for st in (-2, -1, 1, 2)]
        for i, p in enumerate(ivs):
            if i % n == shard:
                for q in ivs:
                    lp, lq = (list(range(x, y + (1 if s > 0 else -1), s)) for x, y, s in (p, q))
                    yield (p, q), 'ok' if (not lp and not lq) or (lp == lq and p[2] == q[2]) else 'no' if lp != lq else ANY
    seq.table(c, 'Interval equality', '''
 l := OrderedCollection new.
 0 to: 3 do: [ :a | 0 to: 3 do: [ :b | #(-2 -1 1 2) do: [ :s | l add: (a to: b by: s) ] ] ].
 l keysAndValuesDo: [ :i :p | i - 1 \\\\ n = shard ifTrue: [ l do: [ :q |
   out nextPutAll: (p = q ifTrue: [ p hash = q hash ifTrue: [ 'ok' ] ifFalse: [ 'hash' ] ] ifFalse: [ 'no' ]); nl ] ] ]''', eq, temps='l')


# -------------------------------------------------------------- LinkedList

def ll_add(v, first):
    def f(s):
        if v not in s:
            s.insert(0 if first else len(s), v)
    return f


def linked(c):
    ops = []
    for v in (1, 2, 3):
        g = '(s first includes: (s at: %d)) ifFalse: [ s first %s: (s at: %d) ]. nil'
        ops += [(g % (v + 1, 'addFirst', v + 1), ll_add(v, True)), (g % (v + 1, 'addLast', v + 1), ll_add(v, False)),
                ('(s first remove: (s at: %d)) value' % (v + 1), o_remove(v))]
    ops += [('s first removeFirst value', o_removefirst), ('s first removeLast value', o_removelast),
            ('s first first value', lambda s: s[0] if s else check(0)), ('s first last value', lambda s: s[-1] if s else check(0)),
            ('(s first at: 2) value', lambda s: s[1] if len(s) > 1 else check(0))]
    seq.sequences(c, 'LinkedList', '{ LinkedList new. Lk new value: 1. Lk new value: 2. Lk new value: 3 }', ops,
                  '| r | r := WriteStream on: String new. s first do: [ :l | r print: l value ]. r print: s first size; print: s first isEmpty. '
                  '2 to: 4 do: [ :i | r print: (s first includes: (s at: i)) ]. r contents',
                  lambda: [], lambda s: ''.join(map(str, s)) + str(len(s)) + py_print(not s) + ''.join(py_print(v in s) for v in (1, 2, 3)),
                  5 if THOROUGH else 4, clone=list,
                  pre="Link subclass: Lk [ |v| value [ ^v ] value: x [ v := x ] ].\n")


def main():
    with Check('C15') as c:
        ordered(c)
        interval(c)
        linked(c)
        for name, lit in CLASSES:
            if lit is None:
                continue
            mut = name in ('Array', 'String', 'OrderedCollection')
            if name == 'Symbol':
                ws = 3
            queries(c, name, lit, Q + (MUT if mut else []), 4 if not THOROUGH else 5, 2 if not THOROUGH else 3)


if __name__ == '__main__':
    main()
