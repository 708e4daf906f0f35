"""C17: sorting, and sorted collections."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq
from seq import Err, py_print

# ------------------------------------------------------- SortedCollection histories
# The model: a sorted list of keys (mutable list) and whether the order is descending.


class M:
    def __init__(self, l=(), desc=False):
        self.l, self.desc = list(l), desc
        self.fix()

    def fix(self):
        self.l.sort(reverse=self.desc)
        return self

    def copy(self):
        return M(self.l, self.desc)


def clone(s):
    return M(s.l, s.desc)


def need(c):
    if not c:
        raise Err


def op_add(*v):
    def f(s):
        s.l.extend(v)
        s.fix()
    return f


def op_remove(v):
    def f(s):
        need(v in s.l)
        s.l.remove(v)
        return v
    return f


def op_pop(i):
    def f(s):
        need(s.l)
        return s.l.pop(i)
    return f


def op_popn(first, n):
    def f(s):
        for _ in range(n):
            need(s.l)
            s.l.pop(0 if first else -1)
    return f


def op_at(i):
    def f(s):
        need(i <= len(s.l))
        return s.l[i - 1]
    return f


def op_resort(s):
    s.desc = not s.desc
    s.fix()


def op_removeall(vs):
    def f(s):
        for v in vs:
            need(v in s.l)
            s.l.remove(v)
    return f


def op_removeat(i):
    def f(s):
        need(i <= len(s.l))
        return s.l.pop(i - 1)
    return f


def op_reject(f):
    def g(s):
        s.l = [x for x in s.l if not f(x)]
    return g


def idx(s, v):
    return s.l.index(v) + 1 if v in s.l else 0


# (smalltalk on the variable s : Holder with c, python)
OPS = [
    ('s c add: 1. nil', op_add(1)),
    ('s c add: 2. nil', op_add(2)),
    ('s c add: 3. nil', op_add(3)),
    ('s c addAll: #(2 0). nil', op_add(2, 0)),
    ('s c removeFirst', op_pop(0)),
    ('s c removeLast', op_pop(-1)),
    ('s c remove: 2', op_remove(2)),
    ('s c first', lambda s: (need(s.l), s.l[0])[1]),
    ('s c last', lambda s: (need(s.l), s.l[-1])[1]),
    ('s c at: 2', op_at(2)),
    ('s c indexOf: 2', lambda s: idx(s, 2)),
    ('s c occurrencesOf: 2', lambda s: s.l.count(2)),
]
OPS2 = OPS + [
    ('s c add: 0. nil', op_add(0)),
    ('s c includes: 3', lambda s: 3 in s.l),
    ('s resort. nil', op_resort),
    ('s c: s c copy. nil', lambda s: None),
    ('s c addAll: #(5 1 4 0 9 2 8 3 7 6). nil', op_add(5, 1, 4, 0, 9, 2, 8, 3, 7, 6)),
    ('s c removeAll: #(2 1). nil', op_removeall([2, 1])),
    ('s c removeFirst; removeFirst. nil', op_popn(True, 2)),
    ('s c removeLast; removeLast. nil', op_popn(False, 2)),
    ('s c removeAtIndex: 1', op_removeat(1)),
    ('s c: (s c reject: [ :x | x = 2 ]). nil', op_reject(lambda x: x == 2)),
    ('s c do: [ :x | x ]. nil', lambda s: None),
    ('(s c collect: [ :x | x + 1 ]) asArray', lambda s: [x + 1 for x in s.l]),
    ('s c addFirst: 1', lambda s: need(False)),
    ('s c includes: #foo', lambda s: False),
    ('s c asArray', lambda s: list(s.l)),
    ('s c reverse asArray', lambda s: s.l[::-1]),
    ('s c asBag size', lambda s: len(s.l)),
    ('(s c copyFrom: 1 to: 1) asArray', lambda s: (need(s.l), s.l[:1])[1]),
    ('(s c detect: [ :x | x > 1 ] ifNone: [ nil ])', lambda s: next((x for x in s.l if x > 1), None)),
    ('(s c, #(1)) asArray', None),
]
OPS2 = [o for o in OPS2 if o[1]]
# what adding in bulk, heaps and merges do to more elements
OPS3 = [
    ('s c addAll: #(5 1 4 0 9 2 8 3 7 6). nil', op_add(5, 1, 4, 0, 9, 2, 8, 3, 7, 6)),
    ('s c add: 11; add: 4; add: -1. nil', op_add(11, 4, -1)),
    ('s c add: 5. nil', op_add(5)),
    ('s c removeLast; removeLast. nil', op_popn(False, 2)),
    ('s c removeFirst; removeFirst. nil', op_popn(True, 2)),
    ('s c remove: 5', op_remove(5)),
    ('s c last', lambda s: (need(s.l), s.l[-1])[1]),
    ('s c first', lambda s: (need(s.l), s.l[0])[1]),
    ('s c occurrencesOf: 5', lambda s: s.l.count(5)),
    ('s resort. nil', op_resort),
]
HOLDER = r'''
Object subclass: Holder [ | c desc |
  c [ ^c ] c: x [ c := x ]
  init [ desc := false. c := SortedCollection sortBlock: [ :a :b | a <= b ] ]
  resort [ desc := desc not. c sortBlock: (desc ifTrue: [ [ :a :b | a >= b ] ] ifFalse: [ [ :a :b | a <= b ] ]) ]
  show [ "The order that do: sees must be that of the sort block; it is asked of a copy, which must not change the receiver"
    | d s | d := c copy. s := d asArray printString, ' ', (d inject: 0 into: [ :x :y | x + 1 ]) printString, ' ', d size printString, ' '.
    ^s, (0 to: 3) asArray printString size printString, ' ', ((0 to: 3) collect: [ :x | (d indexOf: x) -> (d occurrencesOf: x) ]) printString, ' ',
      ((0 to: 3) collect: [ :x | d includes: x ]) printString ]
]
'''


def show(s):
    return '%s %d %d %d %s %s' % (
        py_print(s.l), len(s.l), len(s.l), len('(0 1 2 3 )'),
        '(' + ''.join('%d->%d ' % (idx(s, x), s.l.count(x)) for x in range(4)) + ')',
        py_print([x in s.l for x in range(4)]))


# ------------------------------------------------------- sorting
def weak_orderings(n):
    """All arrays of length n whose values are exactly 0..k for some k: every pattern of order and ties."""
    for a in itertools.product(range(n), repeat=n):
        if a and max(a) + 1 == len(set(a)):
            yield a
    if n == 0:
        yield ()


def arrays(th):
    for n in range(0, 7 if th else 6):
        yield from weak_orderings(n)
    for n in range(6, 14 if th else 11):
        for a in itertools.product(range(2), repeat=n):
            yield a
    if th:
        yield from itertools.permutations(range(8))
    else:
        yield from itertools.permutations(range(7))
    for n in (8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100) + ((200, 255, 256, 257, 1000) if th else ()):
        base = list(range(n))
        for mul in (1, 3, 7, 11, 13, 17, 19, 23):
            for mod in (2, 3, 5, n, 4 * n):
                yield tuple(x * mul % mod for x in base)
        yield tuple(base[::-1])
        yield tuple(base[:n // 2] + base[:n - n // 2][::-1])
        yield tuple(base[:n // 2][::-1] + base[:n - n // 2])
        for r in range(1, n, max(1, n // 8)):
            yield tuple(base[r:] + base[:r])
        for r in range(0, n, max(1, n // 8)):
            yield tuple(base[:r] + [n // 2] + base[r + 1:])


SORT = r"""
 | f k |
 f := FileStream open: '%s' mode: FileStream read.
 k := 0.
 [ f atEnd ] whileFalse: [ | line a p pr keys |
   line := f nextLine.
   k \\ n = shard ifTrue: [
     a := (line subStrings: ' ') collect: [ :x | x asNumber ].
     a := Array withAll: a.
     pr := [ :c | (c inject: '' into: [ :x :y | x, y printString, ' ' ]) ].
     "pairs that differ but that the sort block finds equal"
     p := (1 to: a size) asArray collect: [ :i | (a at: i) @ i ].
     keys := [ :c :up | | ok prev seen |
        ok := c size = p size. prev := nil. seen := Set new.
        c do: [ :e | seen add: e y. ok := ok and: [ (p at: e y) == e and: [ prev isNil or: [ up ifTrue: [ prev x <= e x ] ifFalse: [ prev x >= e x ] ] ] ]. prev := e ].
        ok and: [ seen size = p size ] ].
     out nextPutAll: (pr value: a asSortedCollection); nextPut: $|;
         nextPutAll: (pr value: (a asSortedCollection: [ :x :y | x > y ])); nextPut: $|;
         nextPutAll: (pr value: a sorted); nextPut: $|; nextPutAll: (pr value: (a sorted: [ :x :y | x >= y ])); nextPut: $|;
         nextPutAll: (pr value: a copy sort); nextPut: $|; nextPutAll: (pr value: (a asOrderedCollection sort: [ :x :y | x < y ])); nextPut: $|;
         nextPutAll: (pr value: (a asBag asSortedCollection: [ :x :y | x >= y ])); nextPut: $|;
         print: (keys value: (p asSortedCollection: [ :x :y | x x <= y x ]) value: true);
         print: (keys value: (p asSortedCollection: [ :x :y | x x > y x ]) value: false);
         print: (keys value: (p sorted: [ :x :y | x x < y x ]) value: true);
         print: (keys value: (p copy sort: [ :x :y | x x >= y x ]) value: false);
         print: ((p asSortedCollection: [ :x :y | x x <= y x ]) allSatisfy: [ :e | | sc | sc := p asSortedCollection: [ :x :y | x x <= y x ]. (sc includes: e) and: [ (sc occurrencesOf: e) = 1 and: [ (sc at: (sc indexOf: e)) == e ] ] ]);
         nl ].
   k := k + 1 ]
"""


def main():
    with Check('C17') as c:
        kw = dict(make='Holder new init; yourself', show='s show', pymake=M, pyshow=show, pre=HOLDER, clone=clone)
        seq.sequences(c, 'sorted collections', ops=OPS, depth=6 if THOROUGH else 5, **kw)
        seq.sequences(c, 'all operations', ops=OPS2, depth=4 if THOROUGH else 3, **kw)
        seq.sequences(c, 'bulk', ops=OPS3, depth=7 if THOROUGH else 5, **kw)
        arrs = list(arrays(THOROUGH))
        f = os.path.join(c.b.work, 'c17.arr')
        with open(f, 'w') as h:
            for a in arrs:
                h.write(' '.join(map(str, a)) + ' \n')

        def exp(shard, n):
            for i in range(shard, len(arrs), n):
                a = arrs[i]
                up = ''.join('%d ' % x for x in sorted(a))
                dn = ''.join('%d ' % x for x in sorted(a, reverse=True))
                yield a, '|'.join([up, dn, up, dn, up, up, dn, 'true' * 5])
        seq.table(c, 'sorting', SORT % f, exp, weight=12)


if __name__ == '__main__':
    main()
