#!/usr/bin/env python3
"""C30: a name in a method means the variable that the documented search finds."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq

# ------------------------------------------------------------------ search order
# Namespaces: Smalltalk > NA > NB, Smalltalk > NX > NY; P a plain dictionary.
# Classes: Object > S > C.  The variables V0 .. V255: bit k of the number says whether place k defines it.
PLACES = ['C', 'S', 'A', 'B', 'X', 'Y', 'P', 'T']          # class pools of C and S, namespaces, pool, Smalltalk
SUP = {'P': None, 'A': 'T', 'B': 'A', 'X': 'T', 'Y': 'X', 'T': None}


def supers(ns):
    r = []
    while ns:
        r.append(ns)
        ns = SUP[ns]
    return r


def combine(pools, white):
    """Topological order, dependent before prerequisite, left to right, without those in WHITE."""
    white, out = set(white), []

    def visit(p):
        if p in white:
            return
        if SUP[p]:
            visit(SUP[p])
        white.add(p)
        out.insert(0, p)
    for p in reversed(pools):
        visit(p)
    return out


def linearize(classes, imports):
    """CLASSES: (class pool, environment, shared pools) from the class up to Object.  The comment in sym.c, steps 1 and 2."""
    out = []
    for i, (pool, env, pools) in enumerate(classes):
        if pool:
            out.append(pool)
        out += combine(pools, supers(env))
        stop = supers(classes[i + 1][1]) if i + 1 < len(classes) else []
        for ns in supers(env):
            if ns in stop:
                break
            out.append(ns)
            out += combine(imports.get(ns, []), supers(ns))
    return out


def order_configs():
    nss = 'TABXY'
    cp = [()] + [(x,) for x in 'ABXYP'] + [p for p in itertools.permutations('ABXYP', 2)]
    if THOROUGH:
        cp += [p for p in itertools.permutations('ABXYP', 3)]
    sp = [()] + [(x,) for x in 'ABXYP']
    ai = [(), ('X',), ('Y',), ('P',), ('B',), ('Y', 'P'), ('P', 'X'), ('X', 'Y')]
    xi = [(), ('B',), ('P',)]
    for a in ai:
        for x in xi:
            if x and not (THOROUGH or len(a) < 2):
                continue
            for s in nss:
                for c in nss:
                    for p in cp:
                        for q in sp:
                            if not THOROUGH and len(p) > 1 and len(q) and (a or x):
                                continue
                            yield a, x, s, c, p, q


ORDER = r'''
Eval [
  Smalltalk addSubspace: #NA; addSubspace: #NX. NA addSubspace: #NB. NX addSubspace: #NY.
  Smalltalk at: #NP put: Dictionary new ]
Object subclass: Order [ | places spaces s c envs cur |
  Order class >> new [ ^super new init ]
  bit: k in: d [ 1 to: 255 do: [ :i | (i bitAt: k) = 1 ifTrue: [ d at: ('V', i printString) asSymbol put: k ] ] ]
  init [ | v |
    spaces := LookupTable new. spaces at: $T put: Smalltalk; at: $A put: NA; at: $B put: NA.NB; at: $X put: NX; at: $Y put: NX.NY; at: $P put: NP.
    self bit: 3 in: NA; bit: 4 in: NA.NB; bit: 5 in: NX; bit: 6 in: NX.NY; bit: 7 in: NP; bit: 8 in: Smalltalk.
    envs := LookupTable new.
    v := WriteStream on: String new. v nextPutAll: 'all [ ^{'. 0 to: 255 do: [ :i | v nextPutAll: 'V', i printString, '. ' ]. v nextPutAll: '} ]'. cur := v contents ]
  space: a imports: l [ (spaces at: a) sharedPoolDictionaries copy do: [ :p | (spaces at: a) removeSharedPool: p ].
    l do: [ :x | (spaces at: a) addSharedPool: (spaces at: x) ] ]
  pair: k [ | s c | ^envs at: k ifAbsentPut: [ 
     s := self sub: Object named: ('S', k) asSymbol bit: 2 in: (spaces at: (k at: 1)).
     c := self sub: s named: ('C', k) asSymbol bit: 1 in: (spaces at: (k at: 2)). {s. c} ] ]
  sub: sup named: nm bit: b in: ns [ | c |
     Namespace current: ns.
     c := sup subclass: nm instanceVariableNames: '' classVariableNames: '' poolDictionaries: '' category: 'x'.
     Namespace current: Smalltalk.
     1 to: 255 do: [ :i | (i bitAt: b) = 1 ifTrue: [ c addClassVarName: 'V', i printString value: [ b ] ] ]. ^c ]
  pools: l of: cl [ cl sharedPoolDictionaries copy do: [ :p | cl removeSharedPool: p ]. l do: [ :x | cl addSharedPool: (spaces at: x) ] ]
  run: f on: out [ | p |
     self space: $A imports: (f at: 1); space: $X imports: (f at: 2).
     p := self pair: (f at: 3), (f at: 4).
     self pools: (f at: 5) of: (p at: 2); pools: (f at: 6) of: (p at: 1).
     (p at: 2) compile: cur. (p at: 2) class compile: cur. (p at: 1) compile: cur.
     self show: (p at: 2) new all on: out. out space. self show: (p at: 2) all on: out. out space. self show: (p at: 1) new all on: out. out nl ]
  assign: f on: out [ | p o w |
     self space: $A imports: (f at: 1); space: $X imports: (f at: 2).
     p := self pair: (f at: 3), (f at: 4).
     self pools: (f at: 5) of: (p at: 2); pools: (f at: 6) of: (p at: 1).
     w := WriteStream on: String new. w nextPutAll: 'setAll [ '. 1 to: 255 do: [ :i | w nextPutAll: 'V', i printString, ' := 100. ' ]. w nextPutAll: '] '.
     (p at: 2) compile: w contents. (p at: 2) new setAll.
     1 to: 255 do: [ :i | | r v | r := 0. v := ('V', i printString) asSymbol.
       {(p at: 2) classPool. (p at: 1) classPool. NA. NA.NB. NX. NX.NY. NP. Smalltalk} doWithIndex: [ :d :k |
         (i bitAt: k) = 1 ifTrue: [
           (d associationAt: v) value = 100 ifTrue: [ r := r * 10 + k. (d associationAt: v) value: k ] ] ].
       r = 0 ifTrue: [ out nextPut: $- ] ifFalse: [ out print: r ] ].
     out nl ]
  dotted: path for: f on: out [ | v p k |
     self space: $A imports: (f at: 1); space: $X imports: (f at: 2).
     v := WriteStream on: String new. v nextPutAll: 'dots [ ^{'. k := f at: 8. 
     1 to: 255 do: [ :i | (k anySatisfy: [ :d | (i bitAt: d digitValue) = 1 ]) ifTrue: [ v nextPutAll: path, '.V', i printString, '. ' ] ]. v nextPutAll: '} ]'.
     p := self pair: (f at: 3), (f at: 4).
     (p at: 2) compile: v contents. 
     self show: (p at: 2) new dots on: out. out nl ]
  doits: ns for: f on: out [ | v |
     self space: $A imports: (f at: 1); space: $X imports: (f at: 2).
     v := WriteStream on: String new. v nextPutAll: 'Eval [ Smalltalk at: #RES put: {'. 0 to: 255 do: [ :i | v nextPutAll: 'V', i printString, '. ' ]. v nextPutAll: '} ]'.
     Namespace current: (spaces at: ns).
     (ReadStream on: v contents) fileIn. Namespace current: Smalltalk.
     self show: (Smalltalk at: #RES) on: out. out nl ]
  show: a on: out [ a do: [ :x | out nextPutAll: (x isNil ifTrue: [ '-' ] ifFalse: [ x printString ]) ] ]
]
'''


def values(lin):
    pos = [PLACES.index(p) for p in lin]
    return ''.join(next((str(k + 1) for k in pos if i >> k & 1), '-') for i in range(256))


def order(c):
    cfg = list(order_configs())
    d = os.path.join(c.b.work, 'c30')
    os.makedirs(d, exist_ok=True)
    for s in range(seq.NCPU):
        with open('%s/%d' % (d, s), 'w') as f:
            for x in cfg[s::seq.NCPU]:
                f.write(','.join(''.join(y) for y in x) + '\n')

    def exp(shard, n):
        memo = {}
        for x in cfg[shard::n]:
            a, xi, s, cc, p, q = x
            imp = {'A': a, 'X': xi}
            S = ('S', s, q)
            L = [linearize([('C', cc, p), S, (None, 'T', ())], imp)] * 2 + [linearize([S, (None, 'T', ())], imp)]
            out = []
            for l in L:
                l = tuple(l)
                if l not in memo:
                    memo[l] = values(l)
                out.append(memo[l])
            yield x, ' '.join(out)
    seq.table(c, 'search order', r'''| o f | o := Order new. f := FileStream open: '%s/', shard printString.
 [ f atEnd ] whileFalse: [ | l p k | l := f nextLine. p := OrderedCollection new. k := 1.
   1 to: 6 do: [ :i | | e | e := i = 6 ifTrue: [ l size + 1 ] ifFalse: [ (k to: l size) detect: [ :j | (l at: j) = $, ] ]. p add: (l copyFrom: k to: e - 1). k := e + 1 ].
   o run: p on: out ]''' % d, exp, pre=ORDER, weight=768,
              describe=lambda x: 'NA imports %s, NX imports %s; S in %s with pools %s; C in %s with pools %s' % (x[0], x[1], x[2], x[5], x[3], x[4]))


def table(c, name, cfg, body, expect, describe):
    """One line of out per configuration."""
    d = os.path.join(c.b.work, 'c30-' + name.replace(' ', '-'))
    os.makedirs(d, exist_ok=True)
    for s in range(seq.NCPU):
        with open('%s/%d' % (d, s), 'w') as f:
            for x in cfg[s::seq.NCPU]:
                f.write(','.join(''.join(y) for y in x) + '\n')
    seq.table(c, name, r'''| o f | o := Order new. f := FileStream open: '%s/', shard printString.
 [ f atEnd ] whileFalse: [ | l p k | l := f nextLine. p := OrderedCollection new. k := 1.
   1 to: %d do: [ :i | | e | e := i = %d ifTrue: [ l size + 1 ] ifFalse: [ (k to: l size) detect: [ :j | (l at: j) = $, ] ]. p add: (l copyFrom: k to: e - 1). k := e + 1 ].
   %s ]''' % (d, len(cfg[0]), len(cfg[0]), body), lambda shard, n: [(x, expect(x)) for x in cfg[shard::n]], pre=ORDER, weight=255, describe=describe)


def first(lin, lo=1):
    return values(lin)[lo:]


def assigns(c):
    cfg = [x for x in order_configs() if len(x[4]) + len(x[5]) <= (3 if THOROUGH else 1) or not x[0] + x[1] and len(x[4]) < 2]

    def expect(x):
        a, xi, s, cc, p, q = x
        return first(linearize([('C', cc, p), ('S', s, q), (None, 'T', ())], {'A': a, 'X': xi}))
    table(c, 'assignments', cfg, 'o assign: p on: out', expect,
          lambda x: 'NA imports %s, NX imports %s; S in %s with pools %s; C in %s with pools %s' % (x[0], x[1], x[2], x[5], x[3], x[4]))


def dotted(c):
    PATH = {'Smalltalk': 'T', 'NA': 'A', 'NA.NB': 'B', 'NX': 'X', 'NX.NY': 'Y', 'NP': 'P', 'Smalltalk.NA': 'A', 'Smalltalk.NA.NB': 'B', 'Smalltalk.NX.NY': 'Y',
            'Smalltalk.NA.NB.NX.NY': 'Y', 'NA.NB.Smalltalk': 'T', 'NB': 'B', 'NY': 'Y', 'NB.NA': 'A'}
    def imports():
        for a in [(), ('X',), ('Y',), ('P',), ('B',)]:
            for x in [(), ('B',), ('P',)]:
                yield a, x
    cfg = [(a, x, (s,), (cc,), (), (), (path,), ''.join(str(PLACES.index(k) + 1) for k in supers(PATH[path]) or 'P')) for a, x in imports() for s in 'TABXY' for cc in 'TABXY' for path in PATH]
    SEE = {'NB': 'A', 'NY': 'X'}

    def expect(x):
        a, xi, s, cc, p, q, (path,), _ = x
        lin = linearize([('C', cc[0], ()), ('S', s[0], ()), (None, 'T', ())], {'A': a, 'X': xi})
        head = path.split('.')[0]
        if head in SEE and SEE[head] not in lin:
            return 'rejected'
        return values(supers(PATH[path])).replace('-', '')
    cfg = [x for x in cfg if expect(x) != 'rejected']
    # a name that no dictionary on the path defines makes the whole method an error: those are read one by one
    table(c, 'dotted names', cfg, "o dotted: (p at: 7) for: p on: out", expect,
          lambda x: '%s.Vn; NA imports %s, NX imports %s; S in %s; C in %s' % (x[6] + x[:4]))


def doits(c):
    cfg = [(a, x, (ns,)) for a in [(), ('X',), ('Y',), ('P',), ('B',), ('Y', 'P'), ('P', 'X'), ('X', 'Y'), ('B', 'P')] for x in [(), ('B',), ('P',), ('A',), ('B', 'P')] for ns in 'TABXY']
    table(c, 'statements', cfg, 'o doits: (p at: 3) first for: p on: out', lambda x: values(linearize([(None, x[2][0], ()), (None, x[2][0], ())], {'A': x[0], 'X': x[1]})),
          lambda x: 'statement in %s; NA imports %s, NX imports %s' % (x[2], x[0], x[1]))


# ------------------------------------------------------------------ local names
# The name v is, or is not: a class variable, an instance variable of the superclass and of the class, an argument,
# a temporary, an argument or temporary of a block, of a block in it.  Read or assigned at three places.
LOCAL = ['super', 'inst', 'arg', 'temp', 'barg', 'btemp', 'iarg', 'itemp']
LOCALS = r'''
Object subclass: LocalMaker [
  LocalMaker class >> new: bits [ | s c |
    s := Object subclass: ('LS', bits printString) asSymbol instanceVariableNames: ((bits bitAt: 1) = 1 ifTrue: [ 'p v' ] ifFalse: [ 'p q' ]) classVariableNames: '' poolDictionaries: '' category: 'x'.
    c := s subclass: ('LC', bits printString) asSymbol instanceVariableNames: ((bits bitAt: 2) = 1 ifTrue: [ 'r v' ] ifFalse: [ 'r t' ]) classVariableNames: 'V' poolDictionaries: '' category: 'x'.
    ^c ]
]
'''


def locals_(c):
    def text(bits, place, write):
        b = lambda k: bits >> LOCAL.index(k) & 1
        acc = ['', '', '']
        acc[place] = 'v := 99. ' if write else 'res := v. '
        s = '%s: %s [ | %s z res | ' % ('m', 'v' if b('arg') else 'u', 'v' if b('temp') else 'w')
        if b('temp'):
            s += 'v := 4. '
        else:
            s += 'w := 4. '
        s += acc[0]
        s += '[ :%s | | %s | ' % ('v' if b('barg') else 'ba', 'v' if b('btemp') else 'bt')
        s += '%s := 6. ' % ('v' if b('btemp') else 'bt') + acc[1]
        s += '[ :%s | | %s | ' % ('v' if b('iarg') else 'ia', 'v' if b('itemp') else 'it')
        s += '%s := 8. ' % ('v' if b('itemp') else 'it') + acc[2]
        if write:
            s += 'res := {res. %s. %s} ' % ('v' if b('iarg') else 'ia', 'v' if b('itemp') else 'it')
        s += '] value: 7. '
        if write:
            s += 'res := {res. %s. %s} ' % ('v' if b('barg') else 'ba', 'v' if b('btemp') else 'bt')
        s += '] value: 5. '
        if write:
            s += 'res := {res. %s. %s}. ' % ('v' if b('arg') else 'u', 'v' if b('temp') else 'w')
        return s + '^res ]'

    def find(bits, place):
        b = lambda k: bits >> LOCAL.index(k) & 1
        sc = []
        if place > 1:
            sc += ['iarg', 'itemp']
        if place > 0:
            sc += ['barg', 'btemp']
        sc += ['arg', 'temp', 'inst', 'super']
        return next((k for k in sc if b(k)), None)

    def valid(bits):
        b = lambda k: bits >> LOCAL.index(k) & 1
        return not (b('arg') and b('temp') or b('barg') and b('btemp') or b('iarg') and b('itemp'))

    def expect(bits, place, write):
        if not valid(bits):
            return 'rejected'
        k = find(bits, place)
        V = dict(super=1, inst=2, arg=3, temp=4, barg=5, btemp=6, iarg=7, itemp=8)
        if k is None or write and 'arg' in k:
            return 'rejected'
        if not write:
            return str(V[k])
        V[k] = 99
        return '%s %s' % ('(((nil %d %d ) %d %d ) %d %d )' % tuple(V[x] for x in ('iarg', 'itemp', 'barg', 'btemp', 'arg', 'temp')), '%d %d' % (V['super'], V['inst']))
    cases = [(bits, place, w) for bits in range(256) for place in range(3) for w in (False, True)]
    code = ['| cls o mth | cls := LookupTable new.']

    def quote(s):
        return "'" + s.replace("'", "''") + "'"
    f = os.path.join(c.b.work, 'c30-locals.st')
    code = r'''| cls l |
 cls := (0 to: 3) collect: [ :b | LocalMaker new: b ].
 (FileStream open: '%s') linesDo: [ :ln | | k p |
   k := ln indexOf: $ . p := (ln copyFrom: 1 to: k - 1) asNumber. 
   p \\ n = shard ifTrue: [ | cl o p0 |
     p0 := p. p := p // 6 \\ 4. cl := cls at: p + 1.
     [ cl compile: (ln copyFrom: k + 1) ] on: Error do: [ :e | e return: nil ].
     (cl includesSelector: #m:) ifFalse: [ out nextPutAll: 'rejected' ] ifTrue: [
       o := cl new. o instVarAt: 2 put: 1. o instVarAt: 4 put: 2.
       out nextPutAll: (o m: 3) printString. 
       (p0 \\ 2 = 1) ifTrue: [ out space; print: (o instVarAt: 2); space; print: (o instVarAt: 4) ].
       cl removeSelector: #m: ].
     out nl ] ]''' % f
    with open(f, 'w') as h:
        for i, x in enumerate(cases):
            h.write('%d %s\n' % (i, text(*x)))
    seq.table(c, 'local names', code, lambda shard, n: [(x, expect(*x)) for i, x in enumerate(cases) if i % n == shard], pre=LOCALS, quiet=True,
              describe=lambda x: 'v is %s, %s at depth %d' % ([k for i, k in enumerate(LOCAL) if x[0] >> i & 1], 'assigned' if x[2] else 'read', x[1]))


def main():
    with Check('C30') as c:
        parts = [('order', order), ('assigns', assigns), ('doits', doits), ('dotted', dotted), ('locals', locals_)]
        only = os.environ.get('MC_ONLY', '').split()
        for n, f in parts:
            if not only or n in only:
                f(c)


if __name__ == '__main__':
    main()
