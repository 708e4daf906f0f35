"""C16: sets, bags and dictionaries behave as mathematical sets, multisets and maps."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq
from seq import Err, py_print

PRE = '''
Object subclass: Slots [
  "Integers whose home slot in a table with a power of two size is given modulo 16"
  Slots class >> at: k nth: n [ | i m |
     i := 100. m := 0.
     [ ((i respondsTo: #scramble) ifTrue: [ i scramble ] ifFalse: [ i ]) \\\\ 16 = k ifTrue: [ m := m + 1. m = n ifTrue: [ ^i ] ].
       i := i + 1 ] repeat ]
]
Object subclass: Key [ | id h | id [ ^id ] id: i hash: x [ id := i. h := x ] hash [ ^h ] = o [ ^(o isKindOf: Key) and: [ id = o id ] ]
  printOn: s [ s print: id ] <= o [ ^id <= o id ] ]
Smalltalk at: #K1 put: nil.
Smalltalk at: #K2 put: nil.
Smalltalk at: #K3 put: nil.
Smalltalk at: #Fill put: nil.
Smalltalk at: #Mk put: nil.
Object subclass: Show [
  Show class >> set: c [ | r e |
    r := WriteStream on: String new.
    e := c asArray.
    { K1. K2. K3 } keysAndValuesDo: [ :i :k |
       (c includes: k) ifTrue: [ r print: i ].
       r print: (c occurrencesOf: k); space ].
    r print: c size; space; print: (Fill select: [ :f | c includes: f ]) size; space; print: e size; space; print: c isEmpty.
    (c copyEmpty addAll: e reverse; yourself) = c ifFalse: [ r nextPutAll: ' NE' ].
    (c copyEmpty addAll: e reverse; yourself) hash = c hash ifFalse: [ r nextPutAll: ' HASH' ].
    (c copyWith: K1) size = (c size + ((c isKindOf: Bag) ifTrue: [ 1 ] ifFalse: [ (c includes: K1) ifTrue: [ 0 ] ifFalse: [ 1 ] ])) ifFalse: [ r nextPutAll: ' COPYW' ].
    ((c copyWith: Show) = c or: [ c = (c copyWith: Show) ]) ifTrue: [ r nextPutAll: ' EQ' ].
    c isEmpty ifFalse: [ | d | d := c copyEmpty. (e copyFrom: 2) do: [ :x | d add: x ]. (d = c or: [ c = d ]) ifTrue: [ r nextPutAll: ' EQ' ]. d remove: e first ifAbsent: []. d add: Show. (d = c or: [ c = d ]) ifTrue: [ r nextPutAll: ' EQ' ] ].
    (c select: [ :x | x = K1 ]) size = (c occurrencesOf: K1) ifFalse: [ r nextPutAll: ' SEL' ].
    (c reject: [ :x | x = K1 ]) size + (c occurrencesOf: K1) = c size ifFalse: [ r nextPutAll: ' REJ' ].
    (c collect: [ :x | x ]) size = c size ifFalse: [ r nextPutAll: ' COL' ].
    (c inject: 0 into: [ :a :x | a + 1 ]) = c size ifFalse: [ r nextPutAll: ' INJ' ].
    ^r contents ]
  Show class >> dict: c [ | r e d |
    r := WriteStream on: String new.
    { K1. K2. K3 } keysAndValuesDo: [ :i :k |
       (c includesKey: k) ifTrue: [ r print: i ].
       r nextPutAll: (c at: k ifAbsent: [ 'x' ]) displayString; nextPutAll: ((c at: k ifPresent: [ :v | v printString ]) displayString); space ].
    r print: c size; space; print: (Fill select: [ :f | c includesKey: f ]) size; space; print: c keys size; space; print: c values size; space; print: c isEmpty.
    r space; print: (c values inject: 0 into: [ :a :x | a + x ]).
    d := c copyEmpty. e := 0.
    c keysAndValuesDo: [ :k :v | (d includesKey: k) ifTrue: [ r nextPutAll: ' DUP' ]. d at: k put: v. e := e + v ].
    r space; print: e; space; print: (c inject: 0 into: [ :a :x | a + x ]).
    d = c ifFalse: [ r nextPutAll: ' NE' ].
    d hash = c hash ifFalse: [ r nextPutAll: ' HASH' ].
    d := c copy. d at: Show put: 1. (d = c or: [ c = d ]) ifTrue: [ r nextPutAll: ' EQ' ].
    c isEmpty ifFalse: [ d := c copy. d removeKey: c keys asArray first. (d = c or: [ c = d ]) ifTrue: [ r nextPutAll: ' EQ' ].
      d at: Show put: (c values asArray first). (d = c or: [ c = d ]) ifTrue: [ r nextPutAll: ' EQ' ].
      d := c copy. d at: c keys asArray first put: -1. (d = c or: [ c = d ]) ifTrue: [ r nextPutAll: ' EQ' ] ].
    c do: [ :v | e := e - v ]. e = 0 ifFalse: [ r nextPutAll: ' DO' ].
    c associationsDo: [ :a | e := e + a value. (c at: a key) = a value ifFalse: [ r nextPutAll: ' ASSOC' ] ].
    c keysDo: [ :k | e := e - (c at: k ifAbsent: [ 0 ]) ]. e = 0 ifFalse: [ r nextPutAll: ' KEYS' ].
    (c select: [ :v | v = 1 ]) size = (c occurrencesOf: 1) ifFalse: [ r nextPutAll: ' SEL' ].
    (c reject: [ :v | v = 1 ]) size + (c occurrencesOf: 1) = c size ifFalse: [ r nextPutAll: ' REJ' ].
    (c includes: 2) = (c anySatisfy: [ :v | v = 2 ]) ifFalse: [ r nextPutAll: ' INC' ].
    (c keyAtValue: 2 ifAbsent: [ nil ]) notNil = (c includes: 2) ifFalse: [ r nextPutAll: ' KAV' ].
    (c collect: [ :x | 1 ]) size = c size ifFalse: [ r nextPutAll: ' COL' ].
    ^r contents ]
]
'''
FILL = 8


def setup(layout, kind):
    if kind == 'int':
        used, out = {}, []
        for k in layout:
            used[k] = used.get(k, 0) + 1
            out.append('(Slots at: %d nth: %d)' % (k, used[k]))
        fills = ['(Slots at: %d nth: %d)' % ((3 * i) % 16, 7 + i) for i in range(FILL)]
    elif kind == 'same':                # equal, but not identical
        out = ['(Key new id: 1 hash: (Slots at: %d nth: 1))' % layout[0]] * 3
        fills = out[:1] * FILL
    else:
        out = ['(Key new id: %d hash: (Slots at: %d nth: 1))' % (i, k) for i, k in enumerate(layout)]
        fills = ['(Key new id: %d hash: (Slots at: %d nth: 1))' % (i + 10, (3 * i) % 16) for i in range(FILL)]
    return 'Eval [ %s Smalltalk at: #Fill put: { %s } ]\n' % (
        ' '.join('Smalltalk at: #K%d put: %s.' % (i + 1, o) for i, o in enumerate(out)), '. '.join(fills))


# ------------------------------------------------------------------- models
# set: python set of 1,2,3,'f0'..; bag: dict; dictionary: dict

def seqall(l):
    return None


FN = ['f%d' % i for i in range(FILL)]


def s_add(k):
    def f(s):
        s[k] = 1
    return f


def s_remove(k):
    def f(s):
        if k not in s:
            raise Err
        del s[k]
    return f


def s_fill(s):
    for x in FN:
        s[x] = 1


def s_empty(s):
    for x in FN:
        s.pop(x, None)


def s_show(s):
    e = len(s)
    return ''.join('%s%d ' % (k if k in s else '', 1 if k in s else 0) for k in (1, 2, 3)) + '%d %d %d %s' % (
        e, sum(x in s for x in FN), e, py_print(not s))


SETOPS = [('s first add: K%d. nil' % k, s_add(k)) for k in (1, 2, 3)] + \
    [('s first remove: K%d. nil' % k, s_remove(k)) for k in (1, 2, 3)] + [
    ('s first addAll: Fill. nil', s_fill),
    ('s first removeAll: (Fill select: [ :f | s first includes: f ]). nil', s_empty),
    ('s at: 1 put: s first copy. (s at: 2) notNil ifTrue: [ (s at: 2) add: K1; remove: K2 ifAbsent: [ ] ]. s at: 2 put: s first copy. nil', lambda s: None),
    ('s first rehash. nil', lambda s: None),
]


def b_add(k, n=1):
    def f(s):
        s[k] = s.get(k, 0) + n
    return f


def b_remove(k):
    def f(s):
        if k not in s:
            raise Err
        s[k] -= 1
        if not s[k]:
            del s[k]
    return f


def b_fill(s):
    for x in FN:
        s[x] = s.get(x, 0) + 1


def b_show(s):
    e = sum(s.values())
    return ''.join('%s%d ' % (k if k in s else '', s.get(k, 0)) for k in (1, 2, 3)) + '%d %d %d %s' % (
        e, sum(x in s for x in FN), e, py_print(not s))


BAGOPS = [('s first add: K%d. nil' % k, b_add(k)) for k in (1, 2, 3)] + \
    [('s first remove: K%d. nil' % k, b_remove(k)) for k in (1, 2, 3)] + [
    ('s first addAll: Fill. nil', b_fill),
    ('s first add: K1 withOccurrences: 2. nil', b_add(1, 2)),
    ('s first removeAll: (Fill select: [ :f | s first includes: f ]). nil', lambda s: seqall([b_remove(x)(s) for x in FN if x in s])),
    ('s at: 1 put: s first copy. (s at: 2) notNil ifTrue: [ (s at: 2) add: K1; remove: K2 ifAbsent: [ ] ]. s at: 2 put: s first copy. nil', lambda s: None),
]


def d_put(k, v):
    def f(s):
        s[k] = v
        return v
    return f


def d_remove(k):
    def f(s):
        if k not in s:
            raise Err
        return s.pop(k)
    return f


def d_fill(s):
    for i, x in enumerate(FN):
        s[x] = i + 1


def d_get(s):
    if 2 not in s:
        raise Err
    return s[2]


def d_inc(s):
    s[1] = s.get(1, 4) + 1
    return s[1]


def d_ifput(s):
    return s.setdefault(3, 6)


def d_show(s):
    e = len(s)
    t = sum(s.values())
    f = lambda k: ('%s%s%s ' % (k, s[k], s[k])) if k in s else 'xnil '
    return ''.join(f(k) for k in (1, 2, 3)) + '%d %d %d %d %s %d %d %d' % (
        e, sum(x in s for x in FN), e, e, py_print(not s), t, t, t)


DICTOPS = [('s first at: K%d put: %d' % (k, k), d_put(k, k)) for k in (1, 2, 3)] + \
    [('s first removeKey: K%d' % k, d_remove(k)) for k in (1, 2, 3)] + [
    ('s first at: K2 put: 1', d_put(2, 1)),
    ('Fill keysAndValuesDo: [ :i :f | s first at: f put: i ]. nil', d_fill),
    ('Fill do: [ :f | s first removeKey: f ifAbsent: [ ] ]. nil', s_empty),
    ('s at: 1 put: s first copy. (s at: 2) notNil ifTrue: [ (s at: 2) at: K1 put: 7; removeKey: K2 ifAbsent: [ ] ]. s at: 2 put: s first copy. nil', lambda s: None),
    ('s first rehash. nil', lambda s: None),
    ('s first at: K2', d_get),
    ('s first at: K1 put: (s first at: K1 ifAbsent: [ 4 ]) + 1', d_inc),
    ('s first at: K3 ifAbsent: [ s first at: K3 put: 6 ]', d_ifput),
]

LAYOUTS = [(7, 7, 7), (6, 7, 7), (7, 7, 0), (6, 7, 0), (15, 7, 8), (6, 6, 7), (7, 0, 0), (14, 15, 15), (15, 15, 0), (3, 9, 5)]


VALUES = """1 | 1.0 | 1.0e0 | 1.0q0 | (Fraction numerator: 1 denominator: 1) | 1.00s2 | 1.0s4 | 2 | -1 | 0 | 0.0 | -0.0 | 0.5 | 1/2 | 0.5s2 | (2 raisedTo: 62) | (2 raisedTo: 62) negated
(2 raisedTo: 64) | (2 raisedTo: 64) asFloatD | (2 raisedTo: 61) | (2 raisedTo: 61) asFloatD | (10 raisedTo: 30) | 1e30 asFloatD | (1/3) | 1/3 + 1 - 1 | 0.1 | 1/10 | 0.1s1 | 0.25 | 0.25e0 | 0.25q0
(1/4) | 3.75s2 | 15/4 | 3.75 | 16r7FFFFFFF | 16r7FFFFFFF asFloatD | 1d100 asExactFraction | 1d100
'abc' copy | 'abc' asSymbol | 'abc' asByteArray | 'ABC' copy | #(97 98 99) copy | #($a $b $c) copy | 'abc' asOrderedCollection | 'abc' asBag | 'abc' asSet | '' copy | #() copy | #[] copy | (1 to: 0)
$a | $b | (Character value: 97) | nil | true | false | Object | Object class | #+ | #+ copy | #at:put: | 'at:put:' asSymbol | 'at:put:' copy
#(1 2 3) copy | {1.0. 2. 3} | (1 to: 3) | (1 to: 3 by: 1) | (1/1 to: 3) | (1.0 to: 3.0) | (OrderedCollection new add: 1; add: 2; add: 3; yourself) | (OrderedCollection new: 50) addAll: #(1 2 3); yourself | #[1 2 3] copy | (3 to: 1 by: -1) | (1 to: 5 by: 2) | (1 to: 6 by: 2)
(1->2) | (1->3) | (2->2) | (1.0->2) | (1@2) | (1.0@2.0) | (2@1) | (1@2 corner: 3@4) | (1@2 extent: 2@2) | (0@0 corner: 1@1)
#(1 2 3) asSet | #(3 2 1) asSet | #(1 2 3) asBag | #(1 3 2) asBag | #(1 1 2) asBag | (IdentitySet withAll: #(1 2 3)) | (Set new: 100) addAll: #(1 2 3); yourself
(Dictionary new at: 1 put: 2; yourself) | (Dictionary new: 64) at: 1 put: 2; yourself | (LookupTable new at: 1 put: 2; yourself) | (IdentityDictionary new at: 1 put: 2; yourself) | (Dictionary new at: 1 put: 3; yourself) | (Dictionary new at: 1.0 put: 2; yourself)
(Date newDay: 1 monthIndex: 2 year: 2003) | (Date newDay: 1 monthIndex: 2 year: 2003) | (Date newDay: 2 monthIndex: 1 year: 2003) | (Time fromSeconds: 3600) | (Time fromSeconds: 3600) | (Time fromSeconds: 3601)
(DateTime year: 2003 month: 2 day: 1 hour: 10 minute: 0 second: 0) | (DateTime year: 2003 month: 2 day: 1 hour: 12 minute: 0 second: 0 offset: (Duration hours: 2)) | (Duration hours: 1) | (Duration minutes: 60) | (Duration seconds: 3600)
(#(3 1 2) asSortedCollection) | (#(1 2 3) asSortedCollection) | (#(1 2 3) asSortedCollection: [ :a :b|a >= b ]) | (1 to: 3) asArray | #(#(1) 2) copy | {#(1) copy. 2} | {(1 to: 1). 2} | 1000000000000 | 1000000000000.0 | 1e12 asInteger | 100 factorial | (99 factorial * 100)""".replace('\n', ' | ').split(' | ')


def equality(c):
    code = """
 v := OrderedCollection new. w := OrderedCollection new.
%s
%s
 1 to: v size do: [ :i | i - 1 \\\\ n = shard ifTrue: [ 1 to: w size do: [ :j | | a b |
    a := v at: i. b := w at: j.
    out print: i; space; print: j; nextPutAll: ((a = b) == (b = a) ifTrue: [ ' ok' ] ifFalse: [ ' asymmetric' ]).
    (a = b and: [ a hash ~= b hash ]) ifTrue: [ out nextPutAll: ' hash' ].
    (a = b) == (a ~= b) ifTrue: [ out nextPutAll: ' ~=' ].
    (i = j and: [ (a = a) not ]) ifTrue: [ out nextPutAll: ' irreflexive' ].
    (a notNil and: [ a = b and: [ ((Set with: a) includes: b) not ] ]) ifTrue: [ out nextPutAll: ' lost' ].
    1 to: v size do: [ :k | (a = b and: [ b = (v at: k) ]) ifTrue: [ a = (v at: k) ifFalse: [ out nextPutAll: ' intransitive'; print: k ] ] ].
    out nl ] ] ]
""" % ('\n'.join(' v add: ([ %s ] value).' % x for x in VALUES), '\n'.join(' w add: ([ %s ] value).' % x for x in VALUES))

    def exp(shard, n):
        for i in range(len(VALUES)):
            if i % n == shard:
                for j in range(len(VALUES)):
                    yield '%s = %s' % (VALUES[i], VALUES[j]), '%d %d ok' % (i + 1, j + 1)
    seq.table(c, 'equality and hash', code, exp, temps='v w', weight=len(VALUES))


def main():
    with Check('C16') as c:
        equality(c)
        if os.environ.get('MC_ONLY') == 'eq':
            return
        kinds = [('Set', SETOPS, s_show, 'set', 'int'), ('Set', SETOPS, s_show, 'set', 'key'), ('IdentitySet', SETOPS, s_show, 'set', 'int'),
                 ('Bag', BAGOPS, b_show, 'set', 'int'),
                 ('Dictionary', DICTOPS, d_show, 'dict', 'int'), ('Dictionary', DICTOPS, d_show, 'dict', 'key'),
                 ('LookupTable', DICTOPS, d_show, 'dict', 'int'), ('LookupTable', DICTOPS, d_show, 'dict', 'key'),
                 ('IdentityDictionary', DICTOPS, d_show, 'dict', 'int'),
                 ('IdentitySet', SETOPS, s_show, 'set', 'same'), ('IdentityDictionary', DICTOPS, d_show, 'dict', 'same'),
                 ('WeakSet', SETOPS, s_show, 'set', 'key'), ('WeakIdentitySet', SETOPS, s_show, 'set', 'same'),
                 ('WeakKeyDictionary', DICTOPS, d_show, 'dict', 'key'), ('WeakKeyIdentityDictionary', DICTOPS, d_show, 'dict', 'same'),
                 ('WeakValueLookupTable', DICTOPS, d_show, 'dict', 'key'), ('WeakValueIdentityDictionary', DICTOPS, d_show, 'dict', 'same')]
        only = os.environ.get('MC_ONLY')
        for cls, ops, show, kind, keys in kinds:
            if only and only not in cls + keys:
                continue
            rare = keys == 'same' or cls[:4] == 'Weak'
            for i, lay in enumerate(LAYOUTS if THOROUGH else LAYOUTS[:1 if rare else 5]):
                d = 4 if i < (10 if THOROUGH else 1) and not rare else 3
                # full sequences, then sequences of the adding and removing operations only
                pre = PRE + setup(lay, keys)
                if keys == 'same':
                    pre = pre.replace(' x = K1', ' x == K1')
                seq.sequences(c, '%s of %ss %s' % (cls, keys, lay), '{ %s new. nil }' % cls, ops, 'Show %s: s first' % kind,
                              dict, show, d, clone=dict, pre=pre)
            for i, lay in enumerate(LAYOUTS if THOROUGH else LAYOUTS[:1 if rare else 5]):
                if keys == 'key' and not THOROUGH:
                    continue
                d = 7 if THOROUGH else 5
                pre = PRE + setup(lay, keys)
                if keys == 'same':
                    pre = pre.replace(' x = K1', ' x == K1')
                seq.sequences(c, '%s of %ss %s, adding and removing' % (cls, keys, lay), '{ %s new. nil }' % cls, ops[:7], 'Show %s: s first' % kind,
                              dict, show, d, lo=d, clone=dict, pre=pre)


if __name__ == '__main__':
    main()
