"""C05: a send runs the method that lookup finds at that moment."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq
from seq import Sym, Err

PRE = r"""
Object subclass: #A5 instanceVariableNames: 'v w' classVariableNames: '' poolDictionaries: '' category: 'x'.
A5 subclass: #B5 instanceVariableNames: '' classVariableNames: '' poolDictionaries: '' category: 'x'.
B5 subclass: #C5 instanceVariableNames: '' classVariableNames: '' poolDictionaries: '' category: 'x'.
A5 subclass: #D5 instanceVariableNames: '' classVariableNames: '' poolDictionaries: '' category: 'x'.
A5 extend [ v: x [ v := x ] w: x [ w := x ] ].
Object subclass: Probe5 [
  | obj a b d |
  Probe5 class >> guard: aBlock [ ^[ aBlock value ] on: SystemExceptions.WrongArgumentCount, Error do: [ :e | e return: (e class == MessageNotUnderstood ifTrue: [ 'dnu', e message selector ] ifFalse: [ e class name ]) ] ]
  obj [ ^obj ] a [ ^a ] b [ ^b ] d [ ^d ]
  setUp [ obj := C5 new v: #v; w: #w; yourself. a := A5 new v: #v; w: #w; yourself. b := B5 new v: #v; w: #w; yourself. d := D5 new v: #v; w: #w; yourself ]
  fmt: x [ x == obj ifTrue: [ ^'self' ]. x == a ifTrue: [ ^'self' ]. x == b ifTrue: [ ^'self' ]. x == d ifTrue: [ ^'self' ]. ^self str: x ]
  str: x [ ^x isSymbol ifTrue: [ x asString ] ifFalse: [ x displayString ] ]
  Probe5 class >> str: x [ ^self new str: x ]
  send: o [ ^o m ]
  send: o with: x [ ^o m: x ]
  site1 [ ^self fmt: (Probe5 guard: [ obj m ]) ]
  perf [ ^self fmt: (Probe5 guard: [ obj perform: #m ]) ]
  arg [ ^self fmt: (Probe5 guard: [ obj m: #x ]) ]
  multi [ "one call site, four receivers"
    | s | s := WriteStream on: String new.
    {a. b. obj. d} do: [ :o | s nextPutAll: (self fmt: (Probe5 guard: [ self send: o ])); nextPut: $, ].
    {obj. d. a} do: [ :o | s nextPutAll: (self fmt: (Probe5 guard: [ self send: o with: #y ])); nextPut: $, ].
    ^s contents ]
  responds [ ^(({a. b. obj. d} inject: 0 into: [ :x :o | x * 2 + ((o respondsTo: #m) ifTrue: [ 1 ] ifFalse: [ 0 ]) ]) * 2
      + ((C5 inheritsFrom: B5) ifTrue: [ 1 ] ifFalse: [ 0 ])) printString ]
  meta [ ^(self str: (Probe5 guard: [ C5 cm ])), (self str: (Probe5 guard: [ D5 cm ])) ]
  all [ | s | s := WriteStream on: String new.
    s nextPutAll: self site1; space; nextPutAll: self perf; space; nextPutAll: self arg; space; nextPutAll: self multi; space; nextPutAll: self responds; space; nextPutAll: self meta.
    ^s contents ]
]
Object subclass: Reset5 [
  Reset5 class [ | pool | ]
  Reset5 class >> make: aClass [
    | k |
    k := aClass name first asString.
    #(#m #m:) do: [ :sel | | h | h := sel = #m ifTrue: [ 'm' ] ifFalse: [ 'm: x' ].
      { 'L' -> ('^#', k, 'L'). 'S' -> '^self'. 'I' -> '^v'. 'N' -> ('^(w, #', k, ') asSymbol'). 'U' -> ('^(Probe5 str: (super ', h, ')), ''', k, '''') } do: [ :p |
        aClass compile: h, ' [ ', p value, ' ]'.
        pool at: k, p key, sel put: aClass >> sel ] ].
    #(#m #m:) do: [ :sel | aClass removeSelector: sel ].
    #('1' '2') do: [ :q |
      aClass class compile: 'cm [ ^#', k, q, ' ]'. pool at: k, q put: aClass class >> #cm. aClass class removeSelector: #cm ].
    aClass compile: 'doesNotUnderstand: msg [ ^(msg selector, #', k, ') asSymbol ]'. pool at: k, 'dnu' put: aClass >> #doesNotUnderstand:. aClass removeSelector: #doesNotUnderstand: ]
  Reset5 class >> setUp [ pool := LookupTable new. {A5. B5. C5. D5} do: [ :c | self make: c ] ]
  Reset5 class >> make [
    {A5. B5. C5. D5} do: [ :c |
      #(#m #m: #doesNotUnderstand:) do: [ :s | (c includesSelector: s) ifTrue: [ c removeSelector: s ] ].
      (c class includesSelector: #cm) ifTrue: [ c class removeSelector: #cm ] ].
    C5 superclass == B5 ifFalse: [ C5 superclass: B5 ].
    ^Probe5 new setUp; all; yourself ]
  Reset5 class >> def: aClass sel: sel kind: k [ aClass addSelector: sel withMethod: (pool at: aClass name first asString, k, sel) ]
  Reset5 class >> cdef: aClass kind: k [ aClass class addSelector: #cm withMethod: (pool at: aClass name first asString, k) ]
  Reset5 class >> ddef: aClass [ aClass addSelector: #doesNotUnderstand: withMethod: (pool at: aClass name first asString, 'dnu') ]
]
Eval [ Reset5 setUp ]
"""


class M:
    def __init__(self):
        self.sup = dict(A='O', B='A', C='B', D='A')
        self.meth = {}           # (class, sel) -> kind
        self.obj = dict(obj='C', a='A', b='B', d='D')   # class of the object

    def clone(self):
        m = M.__new__(M)
        m.sup, m.meth, m.obj = dict(self.sup), dict(self.meth), dict(self.obj)
        return m

    def find(self, c, sel):
        while c != 'O':
            if (c, sel) in self.meth:
                return c
            c = self.sup[c]
        return None

    def send(self, c, sel, start=None):
        k = self.find(start or c, sel)
        if k is None:
            q = self.find(start or c, 'dnu')
            if q is None:
                return 'dnu' + sel
            return sel + q
        kind = self.meth[k, sel]
        if kind == 'L':
            return k + 'L'
        if kind == 'S':
            return 'self'
        if kind == 'I':
            return 'v'
        if kind == 'N':
            return 'w' + k
        s = dict(A='O', B='A', C='B', D='A')[k]     # bound when the method is compiled
        r = self.send(c, sel, s) if s != 'O' else self.root(sel)
        if r.startswith('dnu'):
            return r
        if r == 'self':
            r = {'A': 'an A5', 'B': 'a B5', 'C': 'a C5', 'D': 'a D5'}[c]
        return r + k

    def root(self, sel):
        return 'dnu' + sel

    def all(self):
        o = self.obj
        f = []
        f.append(self.send(o['obj'], 'm'))
        f.append(self.send(o['obj'], 'm'))
        f.append(self.send(o['obj'], 'm:'))
        f.append(''.join(self.send(o[x], 'm') + ',' for x in ('a', 'b', 'obj', 'd')) + ''.join(self.send(o[x], 'm:') + ',' for x in ('obj', 'd', 'a')))
        n = 0
        for x in ('a', 'b', 'obj', 'd'):
            n = n * 2 + (self.find(o[x], 'm') is not None)
        f.append(str(n * 2 + (self.sup['C'] == 'B')))
        f.append(''.join('dnucm' if self.cfind(k) is None else self.cfind(k) + self.meth[self.cfind(k), 'cm'] for k in 'CD'))
        return ' '.join(f)

    def cfind(self, c):
        # superclass: leaves the metaclass alone
        while c != 'O':
            if (c, 'cm') in self.meth:
                return c
            c = dict(A='O', B='A', C='B', D='A')[c]
        return None


NOP = 'None|'


def op(f):
    def g(m):
        f(m)
        return m.all()
    return g


class Raw(str):
    pass


def build_ops():
    ops = []

    def add(st, f):
        ops.append(('%s. s all' % st, op(f)))

    def setm(c, sel, k):
        def f(m):
            m.meth[c, sel] = k
        return f

    def delm(c, sel):
        def f(m):
            if (c, sel) not in m.meth:
                raise Err
            del m.meth[c, sel]
        return f
    for c, sel, k in (('A', 'm', 'L'), ('A', 'm', 'N'), ('A', 'm:', 'S'), ('B', 'm', 'U'), ('B', 'm:', 'U'), ('B', 'm', 'I'), ('C', 'm', 'S'), ('C', 'm', 'U'), ('D', 'm', 'L'), ('C', 'm:', 'N')):
        add('Reset5 def: %s5 sel: #%s kind: \'%s\'' % (c, sel, k), setm(c, sel, k))
    for c, sel in (('A', 'm'), ('B', 'm'), ('C', 'm'), ('D', 'm'), ('B', 'm:')):
        add('%s5 removeSelector: #%s' % (c, sel), delm(c, sel))

    def sup(x):
        def f(m):
            m.sup['C'] = x
        return f
    add('C5 superclass: A5', sup('A'))
    add('C5 superclass: B5', sup('B'))
    add('C5 superclass: D5', sup('D'))

    def chg(o, x):
        def f(m):
            m.obj[o] = x
        return f
    add('s obj changeClassTo: D5', chg('obj', 'D'))
    add('s obj changeClassTo: B5', chg('obj', 'B'))
    add('s a changeClassTo: C5', chg('a', 'C'))

    def bec(m):
        m.obj['obj'], m.obj['b'] = m.obj['b'], m.obj['obj']
    add('s obj become: s b', bec)

    def dnu(c):
        def f(m):
            m.meth[c, 'dnu'] = 1
        return f
    add('Reset5 ddef: A5', dnu('A'))
    add('Reset5 ddef: C5', dnu('C'))
    for c, k in (('A', '1'), ('D', '2'), ('C', '1')):
        add("Reset5 cdef: %s5 kind: '%s'" % (c, k), setm(c, 'cm', k))
    add('A5 class removeSelector: #cm', delm('A', 'cm'))
    add('Behavior flushCache', lambda m: None)
    add('ObjectMemory scavenge', lambda m: None)
    return ops


def lookup(c):
    ops = build_ops()
    depth = 4 if THOROUGH else 3
    # the state is warmed by "s all" after each operation
    seq.sequences(c, 'changes and sends', 'Reset5 make', ops, "''", M, lambda m: '', depth, lo=1, pre=PRE,
                  pyfmt=lambda x: x, fmt='r == #ERR ifTrue: [ $! asString ] ifFalse: [ r ]', clone=lambda m: m.clone())


SPRE = r"""
Object subclass: #A5 instanceVariableNames: '' classVariableNames: '' poolDictionaries: '' category: 'x'.
A5 class extend [ mk [ ^(self new: 3) bAt: 1 put: #i; bAt: 2 put: #j; bAt: 3 put: #k; yourself ] ].
A5 extend [ bAt: i put: x [ <primitive: VMpr_Object_basicAtPut> ] ].
Object subclass: Special5 [
  | x y z u |
  x [ ^x ] y [ ^y ]
  mk [ x := A5 mk. y := B5 mk. z := Array with: #p with: #q. u := [ #blk ] ]
  cls: o [ ^o class ] siz: o [ ^o size ] at: o i: i [ ^o at: i ] put: o i: i x: v [ ^o at: i put: v ]
  val: o [ ^o value ] val: o with: e [ ^o value: e ] plus: o [ ^o + 1 ] less: o [ ^o < 1 ] eq: o [ ^o = 1 ] mod: o [ ^o \\ 2 ] band: o [ ^o bitAnd: 3 ]
  try: aBlock on: s [ s nextPutAll: ([ | r | r := aBlock value. r isSymbol ifTrue: [ r asString ] ifFalse: [ r displayString ] ] on: Error do: [ :e | e return: '!' ]); nextPut: $, ]
  all [ | s | s := WriteStream on: String new.
    {x. y. z. 'ab'. x. y} do: [ :o |
      self try: [ self cls: o ] on: s. self try: [ self siz: o ] on: s. self try: [ self at: o i: 1 ] on: s.
      self try: [ self put: o i: 2 x: $! ] on: s. self try: [ self at: o i: 2 ] on: s. self try: [ self at: o i: 9 ] on: s.
      self try: [ self put: o i: 9 x: 3 ] on: s. s nextPut: $; ].
    {x. u. y. u} do: [ :o | self try: [ self val: o ] on: s. self try: [ self val: o with: 3 ] on: s. s nextPut: $; ].
    {x. 0. y. 0} do: [ :o | self try: [ self plus: o ] on: s. self try: [ self less: o ] on: s. self try: [ self eq: o ] on: s. self try: [ self mod: o ] on: s. self try: [ self band: o ] on: s. s nextPut: $; ].
    ^s contents ]
]
Object subclass: Reset5 [
  Reset5 class [ | pool | ]
  Reset5 class >> setUp [ pool := LookupTable new.
    {A5. B5} do: [ :c |
     { #class -> 'class'. #size -> 'size'. #at: -> 'at: i'. #at:put: -> 'at: i put: e'. #value -> 'value'. #value: -> 'value: e'. #+ -> '+ e'. #< -> '< e'. #= -> '= e'. #\\ -> '\\ e'. #bitAnd: -> 'bitAnd: e' } do: [ :p |
       c compile: p value, ' [ ^#''', (c name first: 1), p key, ''' ]' ifError: [ :f :l :e | Transcript showCr: e ]. 
       pool at: (c name first: 1), p key put: c >> p key. c removeSelector: p key ] ] ]
  Reset5 class >> make [
    {A5. B5} do: [ :c | c selectors do: [ :s | s = #bAt:put: ifFalse: [ c removeSelector: s ] ] ].
    ^Special5 new mk; all; yourself ]
  Reset5 class >> def: aClass sel: sel [ aClass addSelector: sel withMethod: (pool at: (aClass name first: 1), sel) ]
]
Eval [ A5 subclass: #B5 instanceVariableNames: '' classVariableNames: '' poolDictionaries: '' category: 'x'. A5 setInstanceSpec: #pointer instVars: 0. B5 setInstanceSpec: #pointer instVars: 0. Reset5 setUp ]
"""
SPRE = SPRE.replace("Object subclass: #A5 instanceVariableNames: '' classVariableNames: '' poolDictionaries: '' category: 'x'.", "Object variableSubclass: #A5 instanceVariableNames: '' classVariableNames: '' poolDictionaries: '' category: 'x'.").replace(
    "A5 setInstanceSpec: #pointer instVars: 0. B5 setInstanceSpec: #pointer instVars: 0. ", "").replace("Eval [ A5 subclass: #B5 instanceVariableNames: '' classVariableNames: '' poolDictionaries: '' category: 'x'. ", "Eval [ ").replace(
    "A5 class extend", "A5 variableSubclass: #B5 instanceVariableNames: '' classVariableNames: '' poolDictionaries: '' category: 'x'.\nA5 class extend")

SELS = ['class', 'size', 'at:', 'at:put:', 'value', 'value:', '+', '<', '=', '\\\\', 'bitAnd:']


class SM:
    def __init__(self):
        self.meth = {}
        self.x, self.y = 'A', 'B'
        self.cx = {'x': ['i', 'j', 'k'], 'y': ['i', 'j', 'k']}
        self.z = ['p', 'q']
        self.s = ['a', 'b']
        self.all()

    def clone(self):
        m = SM.__new__(SM)
        m.meth, m.x, m.y, m.cx, m.z, m.s = dict(self.meth), self.x, self.y, {k: list(v) for k, v in self.cx.items()}, list(self.z), list(self.s)
        return m

    def find(self, c, sel):
        if c == 'B' and ('B', sel) in self.meth:
            return 'B' + sel
        if c in 'AB' and ('A', sel) in self.meth:
            return 'A' + sel
        return None

    def all(self):
        out = []
        lit = ['a', 'b']
        for o in ('x', 'y', 'z', 's', 'x', 'y'):
            if o in ('x', 'y'):
                c = getattr(self, o)
                a = self.cx[o]
            else:
                c = '-'
                a = self.z if o == 'z' else lit
            f = [self.find(c, q) for q in ('class', 'size', 'at:', 'at:put:')]
            name = {'x': c + '5', 'y': c + '5', 'z': 'Array', 's': 'String'}[o]
            out.append(f[0] or name)
            out.append(f[1] or str(len(a)))
            out.append(f[2] or a[0])
            if f[3]:
                out.append(f[3])
            else:
                a[1] = '!'
                out.append('!')
            out.append(f[2] or a[1])
            out.append(f[2] or '!')
            out.append(f[3] or '!')
            out[-7:] = [','.join(out[-7:]) + ',;']
        for o in ('x', 'u', 'y', 'u'):
            c = getattr(self, o) if o != 'u' else '-'
            out.append((self.find(c, 'value') or ('blk' if o == 'u' else '!')) + ',' + (self.find(c, 'value:') or '!') + ',;')
        for o in ('x', '0', 'y', '0'):
            if o == '0':
                out.append('1,true,false,0,0,;')
                continue
            c = getattr(self, o)
            out.append(','.join((self.find(c, q) or ('false' if q == '=' else '!')) for q in SELS[6:]) + ',;')
        return ''.join(out)


def special(c):
    ops = []

    def setm(k, q):
        def f(m):
            m.meth[k, q] = 1
        return f

    def delm(k, q):
        def f(m):
            if (k, q) not in m.meth:
                raise Err
            del m.meth[k, q]
        return f
    for k in 'AB':
        for q in SELS:
            ops.append(('Reset5 def: %s5 sel: #%s. s all' % (k, q.replace('\\\\', '\\\\')), setm(k, q)))
    for k, q in (('A', 'size'), ('A', 'at:'), ('B', 'class'), ('B', 'at:put:'), ('A', '+'), ('B', 'value')):
        ops.append(('%s5 removeSelector: #%s. s all' % (k, q), delm(k, q)))

    def chg(o, x):
        def f(m):
            setattr(m, o, x)
        return f
    ops.append(('s x changeClassTo: B5. s all', chg('x', 'B')))
    ops.append(('s y changeClassTo: A5. s all', chg('y', 'A')))

    def bec(m):
        m.x, m.y = m.y, m.x
        m.cx['x'], m.cx['y'] = m.cx['y'], m.cx['x']
    ops.append(('s x become: s y. s all', bec))

    def wrap(f):
        def g(m):
            f(m)
            return m.all()
        return g
    ops = [(a, wrap(f)) for a, f in ops]
    seq.sequences(c, 'special selectors', 'Reset5 make', ops, "''", SM, lambda m: '', 3 if THOROUGH else 2, lo=1, pre=SPRE, pyfmt=lambda x: x, fmt='r == #ERR ifTrue: [ $! asString ] ifFalse: [ r ]', clone=lambda m: m.clone())


def collisions(c):
    """More (class, selector) pairs than the method cache has entries."""
    NC, NS = (60, 120) if THOROUGH else (40, 90)
    defs = [[(ci * 7 + si * 11 + ci * si) % 3 == 0 or ci == 0 for si in range(NS)] for ci in range(NC)]
    par = [None] + [(i - 1) // 2 if i % 3 else i - 1 for i in range(1, NC)]
    pre = []
    for i in range(NC):
        pre.append("%s subclass: #K%dC5 instanceVariableNames: '' classVariableNames: '' poolDictionaries: '' category: 'x'." % ('Object' if par[i] is None else 'K%dC5' % par[i], i))
    for i in range(NC):
        for j in range(NS):
            if defs[i][j]:
                # constants, and methods that compute
                pre.append("K%dC5 compile: 'q%d [ ^%s%d ]'." % (i, j, '' if (i + j) % 2 else '0 + ', i * NS + j))
    strides = [1, 3, 7, 11, 13, 17, 101, 257, 997, 1023, 1789]
    import math
    strides = [x for x in strides if math.gcd(x, NC * NS) == 1]
    code = r"""
 | objs sels k |
 objs := (0 to: %d) collect: [ :i | (Smalltalk at: ('K', i printString, 'C5') asSymbol) new ].
 sels := (0 to: %d) collect: [ :i | ('q', i printString) asSymbol ].
 k := 0.
 #(%s) do: [ :st | | h p i |
   k \\ n = shard ifTrue: [
     h := 0. p := 0.
     0 to: %d do: [ :q |
       h := h * 31 + ((objs at: p // %d + 1) perform: (sels at: p \\ %d + 1)) bitAnd: 16rFFFFFFF.
       p := p + st \\ %d ].
     out print: h; nl ].
   k := k + 1 ].
 "toggle each method, and look at the class, its neighbours and the selector on every class"
 0 to: %d do: [ :ci | 0 to: %d do: [ :si |
   k \\ n = shard ifTrue: [ | cl sel old h |
     cl := (objs at: ci + 1) class. sel := sels at: si + 1. h := 0.
     objs do: [ :o | h := h * 31 + ((o perform: sel) isNil ifTrue: [ 1 ] ifFalse: [ 2 ]) bitAnd: 16rFFFFFFF ].
     (cl includesSelector: sel)
       ifTrue: [ ci = 0 ifFalse: [ old := cl >> sel. cl removeSelector: sel ] ]
       ifFalse: [ cl addSelector: sel withMethod: (objs first class >> sel) ].
     h := 0.
     objs do: [ :o | h := h * 31 + (o perform: sel) bitAnd: 16rFFFFFFF ].
     out print: h; space.
     old isNil ifTrue: [ ci = 0 ifFalse: [ cl removeSelector: sel ] ] ifFalse: [ cl addSelector: sel withMethod: old ].
     h := 0.
     objs do: [ :o | h := h * 31 + (o perform: sel) bitAnd: 16rFFFFFFF ].
     out print: h; nl ].
   k := k + 1 ] ]
""" % (NC - 1, NS - 1, ' '.join(map(str, strides)), NC * NS - 1, NS, NS, NC * NS, NC - 1, NS - 1)

    def find(ci, si, tog=None):
        i = ci
        while True:
            d = defs[i][si]
            if tog == i and i:
                if not d:
                    return si           # the method of class 0
                d = False
            if d:
                return i * NS + si
            i = par[i]

    def exp(shard, n):
        k = 0
        for st in strides:
            if k % n == shard:
                h = p = 0
                for q in range(NC * NS):
                    h = h * 31 + find(p // NS, p % NS) & 0xFFFFFFF
                    p = (p + st) % (NC * NS)
                yield 'all pairs by steps of %d' % st, str(h)
            k += 1
        for ci in range(NC):
            for si in range(NS):
                if k % n == shard:
                    r = []
                    for tog in (ci, None):
                        h = 0
                        for o in range(NC):
                            h = h * 31 + find(o, si, tog) & 0xFFFFFFF
                        r.append(str(h))
                    yield 'toggling q%d of class %d' % (si, ci), ' '.join(r)
                k += 1
    seq.table(c, 'more methods than the cache holds', code, exp, pre='\n'.join(pre) + '\n', weight=NC)


def arguments(c):
    """The arguments of sends, performs, and messages that are not understood."""
    N = 16
    pre = ["Object subclass: #R5 instanceVariableNames: 'iv' classVariableNames: '' poolDictionaries: '' category: 'x'."]
    for i in range(N + 1):
        for q in 'pr':           # understood, primitive that fails
            h = 'p%s0' % q if i == 0 else ' '.join('%s%d: a%d' % (q if j == 1 else 'k', i if j == 1 else j, j) for j in range(1, i + 1))
            pre.append("R5 compile: '%s [ %s ^{%s} ]'." % (h, '<primitive: VMpr_Object_basicAtPut>' if q == 'r' and i == 2 else '', '. '.join('a%d' % j for j in range(1, i + 1))))
        for q in 'pru':
            h = 'p%s0' % q if i == 0 else ' '.join('%s%d: %d' % (q if j == 1 else 'k', i if j == 1 else j, j * 10) for j in range(1, i + 1))
            pre.append("R5 class compile: 's%s%d: o [ ^o %s ]'." % (q, i, h))
    pre.append("R5 compile: 'doesNotUnderstand: m [ ^{m selector. m arguments} ]'.")
    code = r"""
 | k args sel |
 k := 0. args := (1 to: %d) collect: [ :i | i * 10 ].
 0 to: %d do: [ :i | 'pru' do: [ :q | -1 to: %d do: [ :cnt |
   k \\ n = shard ifTrue: [ | sel o f |
     o := R5 new.
     sel := i = 0 ifTrue: [ 'p', (String with: q), '0' ] ifFalse: [ (2 to: i) inject: (String with: q), i printString, ':' into: [ :a :b | a, 'k', b printString, ':' ] ].
     sel := sel asSymbol.
     f := [ :blk | [ blk value printString ] on: Error do: [ :e | e return: e class name asString ] ].
     cnt = -1
       ifTrue: [ out nextPutAll: (f value: [ R5 perform: ('s', (String with: q), i printString, ':') asSymbol with: o ]) ]
       ifFalse: [ | as |
         as := args copyFrom: 1 to: cnt.
         out nextPutAll: (f value: [ o perform: sel withArguments: as ]).
         cnt = 0 ifTrue: [ out nextPutAll: (f value: [ o perform: sel ]) ].
         cnt = 1 ifTrue: [ out nextPutAll: (f value: [ o perform: sel with: 10 ]) ].
         cnt = 2 ifTrue: [ out nextPutAll: (f value: [ o perform: sel with: 10 with: 20 ]) ].
         cnt = 3 ifTrue: [ out nextPutAll: (f value: [ o perform: sel with: 10 with: 20 with: 30 ]) ].
         cnt = 4 ifTrue: [ out nextPutAll: (f value: [ o perform: sel with: 10 with: 20 with: 30 with: 40 ]) ].
         (R5 includesSelector: sel) ifTrue: [ out nextPutAll: (f value: [ o perform: R5 >> sel withArguments: as ]) ] ].
     out nl ].
   k := k + 1 ] ] ]
""" % (N + 2, N, N + 1)

    def exp(shard, n):
        k = 0
        for i in range(N + 1):
            for q in 'pru':
                for cnt in range(-1, N + 2):
                    if k % n == shard:
                        sel = 'p%s0' % q if i == 0 else '%s%d:' % (q, i) + ''.join('k%d:' % j for j in range(2, i + 1))
                        m = i if cnt == -1 else cnt
                        lst = '(' + ''.join('%d ' % (j * 10) for j in range(1, m + 1)) + ')'
                        if m != i:
                            r = 'WrongArgumentCount'
                        elif q == 'u' :
                            r = '(#%s %s )' % (sel, lst)
                        else:
                            r = lst
                        if q == 'u' and m != i:
                            r = '(#%s %s )' % (sel, lst)
                        reps = 1 if cnt == -1 else 1 + (cnt <= 4) + (q != 'u')
                        yield '%s with %d arguments' % (sel, m), r * reps
                    k += 1
    seq.table(c, 'arguments', code, exp, pre='\n'.join(pre) + '\n')


def main():
    with Check('C05') as c:
        only = os.environ.get('MC_ONLY', 'lookup special collisions arguments').split()
        for n, f in (('lookup', lookup), ('special', special), ('collisions', collisions), ('arguments', arguments)):
            if n in only:
                f(c)


if __name__ == '__main__':
    main()
