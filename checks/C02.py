#!/usr/bin/env python3
"""C02: weak references, ephemerons and finalization follow reachability."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq
from seq import Err, py_print
MCST = os.path.join(HARNESS, 'MC.st')

# ------------------------------------------------------ graphs of weak objects
# K1 K2: one slot; E1 E2: ephemerons with key and value; W: a weak object that refers to the four.
# slot, value: nil K1 K2 E1 E2; key: nil K1 K2 E1 E2 5.  Roots: pairs R1 > R2 of subsets of {K1 K2 E1 E2}.

PRE = r'''
Object subclass: MPlain [ | s | s: x [ s := x ] ]
Object subclass: MEph [ | key val id |
  key: k val: v [ key := k. val := v ] id: i [ id := i ]
  mourn [ MEph log: id ]
  MEph class [ | marks | ]
  MEph class >> marks: n [ marks := ByteArray new: n ]
  MEph class >> marks [ ^marks ]
  MEph class >> log: i [ marks at: i put: (marks at: i) + 1 ]
]
Object subclass: MWeak [ | a b c d id |
  a: x b: y c: z d: w id: i [ a := x. b := y. c := z. d := w. id := i ]
  mourn [ MEph log: id ]
  alive [ ^(a isNil ifTrue: [ 0 ] ifFalse: [ 1 ]) + (b isNil ifTrue: [ 0 ] ifFalse: [ 2 ]) + (c isNil ifTrue: [ 0 ] ifFalse: [ 4 ]) + (d isNil ifTrue: [ 0 ] ifFalse: [ 8 ]) ]
]
Object subclass: MGraphs [ | roots weak n tenure order gcs |
  n: k tenure: t order: o gcs: g [
    n := k. tenure := t. order := o. gcs := g ]
  build: i code: code roots: r [
    | k1 k2 e1 e2 w c v |
    c := code.
    k1 := MPlain new. k2 := MPlain new. e1 := MEph new. e2 := MEph new. w := MWeak new.
    v := [ :m | | d | d := c \\ m. c := c // m. d = 0 ifTrue: [ nil ] ifFalse: [ d = 1 ifTrue: [ k1 ] ifFalse: [ d = 2 ifTrue: [ k2 ] ifFalse: [ d = 3 ifTrue: [ e1 ] ifFalse: [ d = 4 ifTrue: [ e2 ] ifFalse: [ 5 ] ] ] ] ] ].
    order < 2 ifTrue: [ self tenure: k1 k: k2 e: e1 e: e2 w: w ].
    order = 1 ifTrue: [ e1 makeEphemeron. e2 makeEphemeron. w makeWeak ].
    k1 s: (v value: 5). k2 s: (v value: 5).
    e1 key: (v value: 6) val: (v value: 5).
    e2 key: (v value: 6) val: (v value: 5).
    w a: k1 b: k2 c: e1 d: e2 id: i * 3.
    e1 id: i * 3 - 2. e2 id: i * 3 - 1.
    order = 2 ifTrue: [ self tenure: k1 k: k2 e: e1 e: e2 w: w ].
    order = 1 ifFalse: [ e1 makeEphemeron. e2 makeEphemeron. w makeWeak ].
    weak at: i put: w.
    (r bitAnd: 1) = 0 ifFalse: [ (roots at: i) at: 1 put: k1 ].
    (r bitAnd: 2) = 0 ifFalse: [ (roots at: i) at: 2 put: k2 ].
    (r bitAnd: 4) = 0 ifFalse: [ (roots at: i) at: 3 put: e1 ].
    (r bitAnd: 8) = 0 ifFalse: [ (roots at: i) at: 4 put: e2 ] ]
  tenure: k1 k: k2 e: e1 e: e2 w: w [
    (tenure bitAnd: 1) = 0 ifFalse: [ k1 tenure ].
    (tenure bitAnd: 2) = 0 ifFalse: [ k2 tenure ].
    (tenure bitAnd: 4) = 0 ifFalse: [ e1 tenure ].
    (tenure bitAnd: 8) = 0 ifFalse: [ e2 tenure ].
    (tenure bitAnd: 16) = 0 ifFalse: [ w tenure ] ]
  gc [ gcs do: [ :g | g = 0 ifTrue: [ self churn ] ifFalse: [ MC gcNow: g ] ]. 1 to: 3 do: [ :k | Processor yield ] ]
  churn [ | x | 1 to: 100 do: [ :k | x := Array new: 20. x at: 1 put: k printString. x at: 2 put: Object new ] ]
  root: i to: r [ 1 to: 4 do: [ :k | (r bitAt: k) = 0 ifTrue: [ (roots at: i) at: k put: nil ] ] ]
  show: i on: out [
    | m | m := MEph marks.
    out nextPut: (Character digitValue: (weak at: i) alive); nextPut: (Character digitValue: (m at: i * 3 - 2)); nextPut: (Character digitValue: (m at: i * 3 - 1)); nextPut: (Character digitValue: (m at: i * 3)) ]
  collections [ | m | m := ObjectMemory current. ^m numScavenges + m numGlobalGCs + m numCompactions ]
  codes: codes roots: rs on: out [
    "Try again if memory fills up in the meanwhile"
    | res n1 n2 n3 n4 n5 |
    1 to: 10 do: [ :try |
    roots := weak := nil. MC gcNow: 3. Processor yield. MC gcNow: 3. Processor yield.
    MEph marks: n * 3. roots := (1 to: n) collect: [ :i | Array new: 4 ]. weak := Array new: n. MC gcNow: 1. Processor yield; yield; yield. MEph marks: n * 3.
    n1 := self collections.
    codes doWithIndex: [ :c :i | self build: i code: c roots: (rs at: i) // 16 ].
    n2 := self collections.
    self gc.
    n3 := self collections.
    res := (1 to: n) collect: [ :i | | s | s := WriteStream on: (String new: 10). self show: i on: s. s ].
    1 to: n do: [ :i | self root: i to: (rs at: i) \\ 16 ].
    n4 := self collections.
    self gc.
    n5 := self collections.
    1 to: n do: [ :i | self show: i on: (res at: i) ].
    (n1 = n2 and: [ n3 = n4 and: [ n5 = self collections and: [ gcs first ~= 1 or: [ n3 - n2 = (n5 - n4) and: [ n3 - n2 = (gcs asBag occurrencesOf: 1) ] ] ] ] ]) ifTrue: [
      1 to: n do: [ :i | out nextPutAll: (res at: i) contents; nl ].
      ^self ].
    Smalltalk at: #MRetries put: (Smalltalk at: #MRetries ifAbsent: [ 0 ]) + 1 ].
    out nextPutAll: 'memory fills up'; nl ]
]
'''
NG = 5 * 5 * 6 * 5 * 6 * 5
PAIRS = [(r1, r2) for r1 in range(16) for r2 in range(16) if r2 & r1 == r2]


def graph(code):
    """Object -> fields; 0 stands for nil, 5 for an integer."""
    d = []
    for m in (5, 5, 6, 5, 6, 5):
        d.append(code % m)
        code //= m
    return d


def collect(g, roots):
    """(alive, mourned, strong) after a full collection, as bit masks over K1 K2 E1 E2;
    strong are the objects that are reachable without ephemerons whose key is not."""
    k1, k2, e1k, e1v, e2k, e2v = g
    fields = {1: (k1,), 2: (k2,), 3: (e1k, e1v), 4: (e2k, e2v)}
    key = {3: e1k, 4: e2k}
    seen, scanned, mourned, strong = set(), set(), 0, None
    todo = [k for k in (1, 2, 3, 4) if roots >> (k - 1) & 1]
    while True:
        while todo:
            o = todo.pop()
            if o in (0, 5) or o in seen:
                continue
            seen.add(o)
            if o < 3:
                todo.extend(fields[o])
                scanned.add(o)
        ready = [o for o in seen if o not in scanned and (key[o] in (0, 5) or key[o] in seen)]
        if not ready:
            ready = [o for o in seen if o not in scanned]
            if strong is None:
                strong = set(seen)
            for o in ready:
                mourned |= 1 << (o - 1)
        if not ready:
            break
        for o in ready:
            scanned.add(o)
            todo.extend(fields[o])
    return sum(1 << (o - 1) for o in seen), mourned, sum(1 << (o - 1) for o in strong)


def expected(exact, pairs, codes, times=1):
    """Yields (key, line or judge)."""
    memo = {}
    for code in codes:
        g = graph(code)
        live = [collect(g, r) for r in range(16)]
        for r1, r2 in pairs:
            (a1, m1, s1), (a2, m2, s2) = live[r1], live[r2]
            k = (a1, m1, a2, m2, s1, s2, g[2], g[4])
            if k not in memo:
                c = [(m1 >> 2 & 1), (m1 >> 3 & 1), 1 if a1 != 15 else 0]
                one = '%X%d%d%d' % (a1, c[0], c[1], c[2])
                c[0] += m2 >> 2 & 1
                c[1] += m2 >> 3 & 1
                c[2] += 1 if a2 != a1 else 0
                want = one + '%X%d%d%d' % (a2, c[0], c[1], c[2])
                memo[k] = want if exact == 2 else judge(want, times, k)
            yield (g, r1, r2), memo[k]


def judge(want, times, k):
    """A collection of the new objects only may keep more, but nothing that is reachable may be lost."""
    a1, m1, a2, m2, s1, s2, key1, key2 = k

    def f(got):
        try:
            g = [int(x, 16) for x in got]
        except ValueError:
            return want
        if len(g) != 8 or g[0] & a1 != a1 or g[4] & a2 != a2 or g[4] & ~g[0]:
            return want
        for i, key in ((1, key1), (2, key2)):
            # mourned once each time, and only if nothing refers to the key
            for m, s in ((g[i], s1), (g[i + 4] - g[i], s2)):
                if m < 0 or m > times or m and (key in (0, 5) or s >> (key - 1) & 1):
                    return want
        if g[3] != (g[0] != 15) or g[7] != g[3] + (g[4] != g[0]):
            return want
        return got
    return f


def graphs(c):
    #  collections (1: scavenge, 3: compact, 5: step of an incremental one, 6: end it, 7: start one)  exact?  order (0 tenure first, 1 also weak first, 2 tenure last)  tenured
    full = [('compaction', '#(3)', 2), ('global collection', '#(7 6)', 2), ('incremental collection', '#(7 5 0 5 0 0 6)', 2)]
    mixes = [0, 31, 12, 19, 5, 26, 16, 15]
    runs = []
    for nm, g, e in full:
        for t in (range(32) if THOROUGH else mixes if nm == 'compaction' else [0, 31, 12, 19]):
            runs.append((nm, g, e, t, t % 3))
    runs += [('scavenges', '#(1)', 0, 0, 0), ('scavenges', '#(1)', 0, 0, 1)]
    for t in (range(1, 32) if THOROUGH else mixes[1:]):
        runs += [('scavenges', '#(1)', 0, t, t % 3), ('scavenges', '#(1 0 1)', 0, t, (t + 1) % 3)]
    if THOROUGH:
        runs += [(nm, g, e, t, o) for nm, g, e in full for t in mixes for o in range(3) if o != t % 3]
    quick = [(15, r) for r in range(16)] + [(r, 0) for r in range(15)]
    for nm, g, e, t, o in runs:
        pairs = PAIRS if THOROUGH or (t == 12 and e == 2) else quick
        step = 1 if THOROUGH or t in (12, 0) else 3
        per = max(1, (1000 if e == 2 else 200) // len(pairs))

        def exp(shard, n, e=e, pairs=pairs, step=step, g=g):
            return expected(e, pairs, range(shard * step, NG, n * step), g.count('1'))
        code = '''
 | m pairs per codes rs i |
 pairs := #(%s). per := %d. i := shard * %d.
 [ i < %d ] whileTrue: [
   codes := OrderedCollection new. rs := OrderedCollection new.
   [ codes size < (per * pairs size) and: [ i < %d ] ] whileTrue: [ pairs do: [ :p | codes add: i. rs add: p ]. i := i + (n * %d) ].
   m := MGraphs new. m n: codes size tenure: %d order: %d gcs: %s. m codes: codes roots: rs on: out ]
''' % (' '.join(str(a * 16 + b) for a, b in pairs), per, step, NG, NG, step, t, o, g)
        seq.table(c, 'graphs, %s, tenured %d, order %d' % (nm, t, o), code, exp, pre=PRE, files=[MCST], weight=2,
                  describe=lambda k: 'K1=%s K2=%s E1=%s->%s E2=%s->%s' % tuple('nil K1 K2 E1 E2 5'.split()[x] for x in k[0]) + ', roots %d then %d' % k[1:])


# ------------------------------------------------------ histories of finalization

FIN = r'''
Object subclass: Fin [ | id link world | id [ ^id ] id: x world: w [ id := x. world := w ] link: x [ link := x ]
  finalize [ world finalized: self ] ]
Fin subclass: FinEqual [ = x [ ^self class == x class ] hash [ ^17 ] ]
Object subclass: FinWorld [ | a n log keep saved cls weak fids |
  cls: c [ cls := c. n := 0. log := OrderedCollection new. saved := OrderedCollection new. keep := false. a := Array new: 2. weak := OrderedCollection new. self make: 1. self make: 2 ]
  make: i [ | w o | n := n + 1. o := cls new id: n world: self; yourself. a at: i put: o.
     w := (Array new: 1) makeWeak; yourself. w at: 1 put: o. weak add: w ]
  reg: i [ (a at: i) isNil ifFalse: [ (a at: i) addToBeFinalized ] ]
  unreg: i [ (a at: i) isNil ifFalse: [ (a at: i) removeToBeFinalized ] ]
  drop: i [ a at: i put: nil ]
  link: i to: j [ (a at: i) isNil ifFalse: [ (a at: i) link: (a at: j) ] ]
  keep [ keep := true ]
  forget [ saved := OrderedCollection new ]
  finalized: x [ log add: x id. keep ifTrue: [ saved add: x ] ]
  gc [ MC gcNow: 3. 1 to: 4 do: [ :k | Processor yield ] ]
  alive [ | s | s := WriteStream on: String new. weak do: [ :w | s nextPut: ((w at: 1) isNil ifTrue: [ $0 ] ifFalse: [ $1 ]) ]. ^s contents ]
  show [ | s | s := WriteStream on: String new. s nextPutAll: self alive; space. self gc.
     log asSortedCollection do: [ :x | s print: x; space ]. s nextPutAll: self alive. self gc. s space; print: log size; space; nextPutAll: self alive.
     1 to: 2 do: [ :i | (a at: i) isNil ifFalse: [ (a at: i) removeToBeFinalized ] ]. ^s contents ]
]
'''


class FinObj:
    def __init__(self, id):
        self.id, self.link, self.reg = id, None, False


class FinWorld:
    def __init__(self):
        self.a, self.log, self.saved, self.keeping, self.all = [None, None, None], [], [], False, []
        self.make(1)
        self.make(2)

    def make(self, i):
        self.a[i] = FinObj(len(self.all) + 1)
        self.all.append(self.a[i])

    def reg(self, i, v=True):
        if self.a[i]:
            self.a[i].reg = v

    def drop(self, i):
        self.a[i] = None

    def link(self, i, j):
        if self.a[i]:
            self.a[i].link = self.a[j]

    def keep(self):
        self.keeping = True

    def forget(self):
        self.saved = []

    def closure(self, roots):
        seen = []
        for o in roots:
            while o is not None and not any(o is x for x in seen):
                seen.append(o)
                o = o.link
        return seen

    def gc(self):
        live = self.closure(self.a + self.saved)
        dead = [o for o in self.all if o and o.reg and not any(o is x for x in live)]
        live = self.closure(self.a + self.saved + dead)
        self.all = [o if any(o is x for x in live) else None for o in self.all]
        for o in dead:
            o.reg = False
            self.log.append(o.id)
            if self.keeping:
                self.saved.append(o)

    def alive(self):
        return ''.join('0' if o is None else '1' for o in self.all)

    def show(self):
        s = self.alive() + ' '
        self.gc()
        s += ''.join('%d ' % x for x in sorted(self.log)) + self.alive()
        self.gc()
        return s + ' %d %s' % (len(self.log), self.alive())


def finalization(c):
    ops = [('s gc', lambda s: s.gc()), ('s reg: 1', lambda s: s.reg(1)), ('s reg: 2', lambda s: s.reg(2)), ('s unreg: 1', lambda s: s.reg(1, False)),
           ('s drop: 1', lambda s: s.drop(1)), ('s drop: 2', lambda s: s.drop(2)), ('s link: 1 to: 2', lambda s: s.link(1, 2)), ('s link: 2 to: 1', lambda s: s.link(2, 1)),
           ('s keep', lambda s: s.keep())]
    more = [('s forget', lambda s: s.forget()), ('s make: 1', lambda s: s.make(1)), ('s unreg: 2', lambda s: s.reg(2, False))]
    ret = [(a + '. 0', lambda s, b=b: b(s) or 0) for a, b in ops + more]
    for cls in ('Fin', 'FinEqual'):
        seq.sequences(c, 'finalization of ' + cls, 'FinWorld new cls: %s; yourself' % cls, ret if THOROUGH else ret[:9], 's show', FinWorld, lambda s: s.show(),
                      depth=5 if THOROUGH else 4, pre=FIN, files=[MCST])
        seq.sequences(c, 'finalization of ' + cls + ', longer', 'FinWorld new cls: %s; yourself' % cls, [ret[i] for i in ((0, 1, 4, 8, 9, 10) if not THOROUGH else (0, 1, 3, 4, 6, 8, 9, 10))],
                      's show', FinWorld, lambda s: s.show(), depth=5, lo=5, pre=FIN, files=[MCST])


# ------------------------------------------------------ histories of weak collections

WEAK = r'''
Object subclass: WKey [ | id | id [ ^id ] id: x [ id := x ] printOn: s [ s print: id ] ]
WKey subclass: WEqual [ = x [ ^(x isKindOf: WEqual) and: [ id \\ 10 = (x id \\ 10) ] ] hash [ ^id \\ 10 ] ]
Object subclass: WWorld [ | a c n kind cls |
  kind: k coll: x cls: y [ kind := k. c := x. cls := y. a := Array new: 2. n := 0. self make: 1. self make: 2 ]
  make: i [ n := n + 1. a at: i put: (cls new id: n * 10 + (cls == WEqual ifTrue: [ 1 ] ifFalse: [ i ]); yourself) ]
  add: i [ | o | o := a at: i. o isNil ifTrue: [ ^self ].
     kind = 0 ifTrue: [ ^c add: o ]. kind = 1 ifTrue: [ ^c at: o put: o id * 2 ]. kind = 2 ifTrue: [ ^c at: i put: o ] ]
  remove: i [ | o | o := a at: i. 
     kind = 2 ifTrue: [ ^c removeKey: i ifAbsent: [] ].
     o isNil ifTrue: [ ^self ]. kind = 0 ifTrue: [ ^c remove: o ifAbsent: [] ]. c removeKey: o ifAbsent: [] ]
  drop: i [ a at: i put: nil ]
  gc [ MC gcNow: 3. 1 to: 4 do: [ :k | Processor yield ] ]
  fill [ | t | t := OrderedCollection new. 1 to: 40 do: [ :k | | o | o := WKey new id: 1000 + k; yourself. t add: o.
     kind = 0 ifTrue: [ c add: o ] ifFalse: [ kind = 1 ifTrue: [ c at: o put: 0 ] ifFalse: [ c at: k + 5 put: o ] ] ] ]
  copy [ c := c copy ]
  state: s [ | l |
     l := SortedCollection new.
     kind = 0 ifTrue: [ c do: [ :x | l add: x id ] ].
     kind = 1 ifTrue: [ c keysAndValuesDo: [ :x :v | l add: x id. (v = (x id * 2)) ifFalse: [ l add: v ] ] ].
     kind = 2 ifTrue: [ c keysAndValuesDo: [ :k :x | x isNil ifFalse: [ l add: x id ] ] ].
     l do: [ :x | s print: x; space ].
     1 to: 2 do: [ :i | | o | o := a at: i. s nextPut: (o isNil ifTrue: [ $- ] ifFalse: [
       (kind = 0 ifTrue: [ c includes: o ] ifFalse: [ kind = 1 ifTrue: [ c includesKey: o ] ifFalse: [ (c at: i ifAbsent: [ nil ]) == o ] ]) ifTrue: [ $1 ] ifFalse: [ $0 ] ]) ] ]
  show [ | s | s := WriteStream on: String new. self gc. self state: s. ^s contents ]
]
'''


class WWorld:
    def __init__(self, kind, equal, ident):
        self.kind, self.equal, self.ident, self.n = kind, equal, ident, 0
        self.a, self.c = [None, None, None], {}
        self.make(1)
        self.make(2)

    def make(self, i):
        self.n += 1
        self.a[i] = self.n * 10 + (1 if self.equal else i)

    def key(self, x):
        return x if self.ident or not self.equal else x % 10

    def add(self, i):
        x = self.a[i]
        if x is None:
            return
        if self.kind == 2:
            self.c[i] = (x, 0)
        elif self.kind == 0:
            self.c.setdefault(self.key(x), (x, 0))
        elif self.key(x) in self.c:
            self.c[self.key(x)] = (self.c[self.key(x)][0], x * 2)
        else:
            self.c[self.key(x)] = (x, x * 2)

    def remove(self, i):
        if self.kind == 2:
            self.c.pop(i, None)
        elif self.a[i] is not None:
            self.c.pop(self.key(self.a[i]), None)

    def drop(self, i):
        self.a[i] = None

    def gc(self):
        self.c = {k: v for k, v in self.c.items() if v[0] in self.a}

    def state(self):
        l = []
        for k, (x, v) in self.c.items():
            l.append(x)
            if self.kind == 1 and v != x * 2:
                l.append(v)
        s = ''.join('%d ' % x for x in sorted(l))
        for i in (1, 2):
            x = self.a[i]
            s += '-' if x is None else '1' if (self.c.get(i, (None,))[0] == x if self.kind == 2 else self.key(x) in self.c) else '0'
        return s

    def show(self):
        self.gc()
        return self.state()


def collections(c):
    classes = [('WeakSet', 0, False), ('WeakIdentitySet', 0, True), ('WeakKeyDictionary', 1, False), ('WeakKeyIdentityDictionary', 1, True),
               ('WeakValueLookupTable', 2, False), ('WeakValueIdentityDictionary', 2, True)]

    def clear(s):
        s.c = {k: v for k, v in s.c.items() if v[0] in s.a}
    ops = [('s gc. 0', lambda s: s.gc() or 0), ('s add: 1. 0', lambda s: s.add(1) or 0), ('s add: 2. 0', lambda s: s.add(2) or 0),
           ('s remove: 1. 0', lambda s: s.remove(1) or 0), ('s drop: 1. 0', lambda s: s.drop(1) or 0), ('s drop: 2. 0', lambda s: s.drop(2) or 0),
           ('s fill. s gc. 0', lambda s: clear(s) or 0), ('s make: 1. 0', lambda s: s.make(1) or 0), ('s copy. 0', lambda s: 0)]
    for cn, kind, ident in classes:
        for cls, eq in (('WKey', False), ('WEqual', True)):
            if eq and kind == 2:
                continue
            o = list(ops)
            if kind == 2:
                o[6] = ('s gc. 0', lambda s: s.gc() or 0)
            seq.sequences(c, '%s of %s' % (cn, cls), 'WWorld new kind: %d coll: %s new cls: %s; yourself' % (kind, cn, cls), o, 's show',
                          lambda kind=kind, eq=eq, ident=ident: WWorld(kind, eq, ident), lambda s: s.show(), depth=5 if THOROUGH else 4, pre=WEAK, files=[MCST])


def main():
    with Check('C02') as c:
        parts = [('graphs', graphs), ('finalization', finalization), ('collections', collections)]
        only = os.environ.get('MC_ONLY', '').split()
        for n, f in parts:
            if not only or n in only:
                f(c)


if __name__ == '__main__':
    main()
