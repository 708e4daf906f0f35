"""C01: garbage collection is invisible, wherever it happens."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq
from seq import Err, py_print
from scen import scen, bad_end
MCST = os.path.join(HARNESS, 'MC.st')

# ------------------------------------------------------- sequences of heap operations
PRE = r'''
Object subclass: Node [ | id a b | id [ ^id ] id: x [ id := x ] a [ ^a ] a: x [ a := x ] b [ ^b ] b: x [ b := x ] ]
Object subclass: Heap [
  | r n seen churn |
  init [ r := Array new: 3. n := 0. seen := IdentitySet new ]
  node [ n := n + 1. ^Node new id: n; yourself ]
  new: i [ r at: i put: self node ]
  link: i to: j [ (r at: i) isNil ifFalse: [ (r at: i) a: (r at: j) ] ]
  fresh: i [ (r at: i) isNil ifFalse: [ (r at: i) b: self node ] ]
  bytes: i [ (r at: i) isNil ifFalse: [ n := n + 1. (r at: i) b: 'str', n printString ] ]
  move: i to: j [ r at: j put: (r at: i) ]
  pop: i [ (r at: i) isNil ifFalse: [ r at: i put: ((r at: i) a) ] ]
  drop: i [ r at: i put: nil ]
  tenure: i [ (r at: i) isNil ifFalse: [ (r at: i) tenure ] ]
  fix: i [ (r at: i) isNil ifFalse: [ (r at: i) makeFixed ] ]
  become: i with: j [ ((r at: i) isNil or: [ (r at: j) isNil ]) ifFalse: [ (r at: i) become: (r at: j) ] ]
  copy: i to: j [ (r at: i) isNil ifFalse: [ r at: j put: (r at: i) shallowCopy ] ]
  big: i ref: j [ (r at: i) isNil ifFalse: [ | x | x := Array new: 6000. x at: 5000 put: (r at: j); at: 6000 put: self node. (r at: i) b: x ] ]
  see: i [ (r at: i) isNil ifFalse: [ seen add: (r at: i) ] ]
  tenureRoots [ r tenure ]
  churn [ | x |
    1 to: 300 do: [ :k | x := Array new: 20. x at: 1 put: k printString. x at: 2 put: Object new. k \\ 10 = 0 ifTrue: [ churn := x ] ] ]
  churnBig [ 1 to: 5 do: [ :k | | x | x := Array new: 6000. x at: 1 put: k ] ]
  show [ | ids s |
    self churn. MC gcNow: 1. self churn. MC gcNow: 2. MC gcNow: 6. self churnBig. self churn.
    ids := OrderedCollection new. s := WriteStream on: String new.
    r do: [ :x | self show: x ids: ids on: s. s space ].
    s print: seen size. seen do: [ :x | (seen includes: x) ifFalse: [ s nextPutAll: ' LOST' ]. (x isMemberOf: Node) ifFalse: [ s nextPutAll: ' BADSEEN' ] ].
    ^s contents ]
  show: x ids: ids on: s [ | k |
    x isNil ifTrue: [ ^s nextPut: $- ].
    (x isMemberOf: Array) ifTrue: [ x size = 6000 ifFalse: [ s nextPutAll: 'BADSIZE' ]. s nextPut: $[. self show: (x at: 5000) ids: ids on: s. self show: (x at: 6000) ids: ids on: s. (x at: 4999) isNil ifFalse: [ s nextPutAll: 'BADBIG' ]. ^s nextPut: $] ].
    (x isMemberOf: String) ifTrue: [ ^s nextPutAll: x ].
    (x isMemberOf: Node) ifFalse: [ ^s nextPutAll: 'BAD', x class printString ].
    k := ids identityIndexOf: x.
    k > 0 ifTrue: [ ^s nextPut: $#; print: k ].
    ids add: x.
    s nextPut: $(; print: x id; nextPut: $,. self show: x a ids: ids on: s. s nextPut: $,. self show: x b ids: ids on: s. s nextPut: $) ]
]
OrderedCollection extend [ identityIndexOf: x [ self keysAndValuesDo: [ :i :e | e == x ifTrue: [ ^i ] ]. ^0 ] ]
'''


class Node:
    def __init__(self, id):
        self.id, self.a, self.b = id, None, None


class Heap:
    def __init__(self):
        self.r, self.n, self.seen = [None, None, None, None], 0, []

    def node(self):
        self.n += 1
        return Node(self.n)

    def new(self, i):
        self.r[i] = self.node()

    def link(self, i, j):
        if self.r[i] is not None and isinstance(self.r[i], Node):
            self.r[i].a = self.r[j]

    def fresh(self, i):
        if self.r[i] is not None:
            self.r[i].b = self.node()

    def bytes(self, i):
        if self.r[i] is not None:
            self.n += 1
            self.r[i].b = 'str%d' % self.n

    def move(self, i, j):
        self.r[j] = self.r[i]

    def pop(self, i):
        if self.r[i] is not None:
            self.r[i] = self.r[i].a

    def drop(self, i):
        self.r[i] = None

    def become(self, i, j):
        x, y = self.r[i], self.r[j]
        if x is None or y is None or x is y:
            return
        x.__dict__, y.__dict__ = y.__dict__, x.__dict__

    def copy(self, i, j):
        x = self.r[i]
        if x is not None:
            y = Node(x.id)
            y.a, y.b = x.a, x.b
            self.r[j] = y

    def big(self, i, j):
        if self.r[i] is not None:
            self.r[i].b = [self.r[j], self.node()]

    def see(self, i):
        if self.r[i] is not None and not any(x is self.r[i] for x in self.seen):
            self.seen.append(self.r[i])

    def show(self):
        ids = []

        def sh(x):
            if x is None:
                return '-'
            if isinstance(x, list):
                return '[%s%s]' % (sh(x[0]), sh(x[1]))
            if isinstance(x, str):
                return x
            for k, y in enumerate(ids):
                if x is y:
                    return '#%d' % (k + 1)
            ids.append(x)
            return '(%d,%s,%s)' % (x.id, sh(x.a), sh(x.b))
        return ''.join(sh(x) + ' ' for x in self.r[1:]) + str(len(self.seen))


def nop(s):
    pass


def op(st, f=nop):
    return ('s ' + st + '. nil' if st[0] != '!' else st[1:] + '. nil', lambda s: f(s) and None)


CORE = [op('new: 1', lambda s: s.new(1)), op('new: 2', lambda s: s.new(2)), op('link: 1 to: 2', lambda s: s.link(1, 2)),
        op('link: 2 to: 1', lambda s: s.link(2, 1)), op('fresh: 1', lambda s: s.fresh(1)), op('pop: 1', lambda s: s.pop(1)),
        op('drop: 2', lambda s: s.drop(2)), op('tenure: 1')]
GCS = [op('!MC gcNow: 1'), op('!MC gcNow: 2'), op('!MC gcNow: 3'), op('churn')]
MORE = [op('new: 1', lambda s: s.new(1)), op('copy: 1 to: 2', lambda s: s.copy(1, 2)), op('become: 1 with: 2', lambda s: s.become(1, 2)),
        op('big: 1 ref: 2', lambda s: s.big(1, 2)), op('fresh: 2', lambda s: s.fresh(2)), op('link: 1 to: 2', lambda s: s.link(1, 2)),
        op('fix: 1'), op('see: 1', lambda s: s.see(1)), op('drop: 1', lambda s: s.drop(1)), op('bytes: 1', lambda s: s.bytes(1))]
GC2 = [op('!MC gcNow: 1'), op('!MC gcNow: 2'), op('!MC gcNow: 3')]
INCR = [op('new: 1', lambda s: s.new(1)), op('fresh: 1', lambda s: s.fresh(1)), op('link: 2 to: 1', lambda s: s.link(2, 1)), op('move: 1 to: 2', lambda s: s.move(1, 2)),
        op('drop: 1', lambda s: s.drop(1)), op('tenure: 1'), op('tenureRoots'),
        op('!MC gcNow: 7'), op('!MC gcNow: 5'), op('!MC gcNow: 6'), op('!MC gcNow: 8'), op('churnBig'), op('!MC gcNow: 1')]

# -------------------------------------------- collections at each allocation of a program
# name, code (answers a string), classes it needs, expected
W = []


def w(name, code, expected, pre=''):
    W.append((name, code, expected, pre))


w('large integers', "(20 factorial * 25 factorial) printString, ' ', (30 factorial // 17 factorial gcd: (2 raisedTo: 70)) printString, ' ', (((1 bitShift: 90) - 1) printString: 16)",
  '37737254063669622951147441236213760000000000 2048 3FFFFFFFFFFFFFFFFFFFFFF', pre='Object subclass: Dummy1 []')
w('strings', "| s | s := ('ab', 'cd') reverse asUppercase. (s , s asSymbol size printString), ('hello world' replaceAll: $o with: $0), (('a b c' substrings: ' ') inject: '' into: [ :x :y | y, x ]), ('x%1y' bindWith: 42)",
  'DCBA4hell0 w0rldcbax42y')
w('symbols', "| r | r := 0. 1 to: 12 do: [ :i | (('zork', i printString) asSymbol == ('zork', i printString) asSymbol) ifTrue: [ r := r + 1 ] ]. r printString, #foo:bar: numArgs printString", '122')
w('growth', "| o d i l s | o := OrderedCollection new: 1. d := Dictionary new: 1. i := IdentityDictionary new: 1. l := LookupTable new: 1. s := Set new: 1. 1 to: 9 do: [ :k | o addFirst: k printString. d at: k printString put: k. i at: k put: k printString. l at: k put: o first. s add: k printString ]. (o inject: 0 into: [ :a :b | a + b asInteger ]) printString, ((1 to: 9) allSatisfy: [ :k | (d at: k printString) = k and: [ (i at: k) = k printString and: [ (l at: k) == (o at: 10 - k) and: [ s includes: k printString ] ] ] ]) printString",
  '45true')
w('sorting', "((1 to: 12) asArray collect: [ :k | (k * 7 \\\\ 13) printString ]) asSortedCollection asArray printString, (#(3 1 2) asSortedCollection: [ :a :b | a > b ]) asOrderedCollection printString",
  "('1' '10' '11' '12' '2' '3' '4' '5' '6' '7' '8' '9' )OrderedCollection (3 2 1 )")
w('exceptions', "| r | r := WriteStream on: String new. r print: ([ [ Error new signal: 'a'. 3 ] ensure: [ r nextPutAll: 'e' ] ] on: Error do: [ :e | r nextPutAll: e messageText. e return: 5 ]). r print: ([ Warning signal: 'b'. 7 ] on: Warning do: [ :e | e resume: 5 ]). r print: ([ 1 / 0 ] on: ZeroDivide do: [ :e | e retryUsing: [ 9 ] ]). r print: ([ nil foo: 1 bar: 2 ] on: MessageNotUnderstood do: [ :e | e return: e message arguments ]). r contents",
  'ae579(1 2 )')
w('contexts', "| f g | f := nil. f := [ :n | n = 0 ifTrue: [ 0 ] ifFalse: [ 1 + (f value: n - 1) ] ]. g := [ :x | [ :y | [ :z | x + y + z ] ] ]. (f value: 120) printString, ((((g value: 1) value: 2) value: 3) printString), (Fib new fib: 9) printString, (Fib new find: 4) printString",
  '1206344', pre='Object subclass: Fib [ fib: n [ ^n < 2 ifTrue: [ n ] ifFalse: [ (self fib: n - 1) + (self fib: n - 2) ] ] find: x [ #(1 2 4 8) do: [ :e | [ e = x ifTrue: [ ^e ] ] value ]. ^nil ] ]')
w('reified contexts', "| c d r | r := 0. c := [ :x | | k | k := thisContext. r := r + k numArgs. k parentContext ] value: 1. d := [ thisContext parentContext method selector ] value. r printString, c isNil printString, (Ctx new one) printString",
  "1false(#two #one )", pre="Object subclass: Ctx [ one [ ^self two ] two [ | c | c := thisContext. ^{ c selector. c parentContext selector } ] ]")
w('compiler', "| r | r := WriteStream on: String new. Cmp compile: 'foo [ ^#(1 $a #abc ''str'' (2 3)) size + (#[1 2] at: 1) ]'. r print: Cmp new foo. Cmp compile: 'bar: x [ | t | t := [:a | a + x]. ^t value: 2 ]'. r print: (Cmp new bar: 40). r print: (Behavior evaluate: '3 + 4 * 2'). r print: (Behavior evaluate: '{1. #a. 2r101. 1.5e0}'). r print: (Cmp includesSelector: #foo). r contents",
  '64214(1 #a 5 1.5 )true', pre='Object subclass: Cmp [ ]')
w('classes', "| c x | c := Object subclass: #GcTmp instanceVariableNames: 'a b' classVariableNames: 'V' poolDictionaries: '' category: 'x'. x := c new. x instVarAt: 2 put: 'two'. c addInstVarName: 'z'. (x instVarAt: 2), x class instVarNames printString, (x instVarAt: 3) printString, c class printString, (c subclasses isEmpty) printString",
  'two(#a #b #z )nilGcTmp classtrue')
w('processes', "| r s t u p | r := WriteStream on: String new. s := Semaphore new. t := Semaphore new. u := Semaphore new. p := [ r nextPut: $a. s wait. r nextPut: $b. t signal. u wait. r nextPut: $c. t signal ] fork. [ s signal. u signal ] fork. t wait. t wait. p := [ [ t signal. Semaphore new wait ] ensure: [ r nextPut: $f. t signal ] ] fork. t wait. p terminate. t wait. r contents",
  'abcf')
w('identity', "| a b r | r := WriteStream on: String new. a := Array with: 1 with: 'x'. b := 'str' copy. a become: b. r print: a; print: b. r print: (a deepCopy) ; print: b copy. a := 3 -> (4 -> 'five'). r print: a shallowCopy value key; print: a deepCopy = a. r contents",
  "'str'(1 'x' )'str'(1 'x' )4true")
w('sends', "| r | r := WriteStream on: String new. r print: (3 perform: #+ with: 4). r print: (3 perform: #between:and: withArguments: #(1 5)). r print: ([ 3 perform: #foo: with: 1 ] on: Error do: [ :e | e return: e class name ]). r print: ([ :x | x ] numArgs). r print: ([ [ :x | x ] value ] on: Error do: [ :e | e return: e class name ]). r print: (Dnu new zork: 5). r contents",
  "7true#MessageNotUnderstood1#WrongArgumentCount(#zork: (5 ) )", pre="Object subclass: Dnu [ doesNotUnderstand: m [ ^{ m selector. m arguments } ] ]")
w('floats', "| r | r := WriteStream on: String new. r print: 0.1d0 + 0.2d0; space; print: 1/3 + (2/3); space; print: 1d15 truncated; space; print: 3.14s2 * 2; space; print: 1.5e0 asExactFraction. r contents",
  '0.30000000000000004 1 1000000000000000 6.28s2 3/2')
w('streams', "| r | r := ReadWriteStream on: String new. r << 'abc' << 12; nl; tab. r reset. r := (r upTo: $1), (r upToEnd) size printString. r, (('one two' readStream collect: [ :c | c asUppercase ]) contents), ((#(1 2 3) readStream select: [ :x | x odd ]) upToEnd printString), (ReadStream on: (1 to: 10)) upToEnd size printString",
  'abc3ONE TWO(1 3 )10')
w('C memory', "| c s | c := CIntType new: 4. c at: 2 put: 77. s := 'hello' asCData. (c at: 2) printString, (s at: 1) printString, (s asString: 3), (String fromCData: s size: 2)",
  "77$ehelhe")
w('regex', "| r | r := 'foo123bar' =~ '([a-z]+)([0-9]+)'. (r at: 1), (r at: 2), ('a1b22c' replacingAllRegex: '([0-9]+)' with: '<%1>'), (('a,b;c' tokenize: '[,;]') printString), ('hello' ~ 'l+') printString, ('xyyz' copyReplacingRegex: 'y+' with: '-')",
  "foo123a<1>b<22>c('a' 'b' 'c' )truex-z")
w('system', "| r | r := WriteStream on: String new. r print: (Smalltalk getenv: 'LC_ALL'). r print: (File name: '/nonexistent/x') exists. r print: (File name: '/etc') isDirectory. r print: (File fullNameFor: '/a/../b'). r print: (File name: 'x/y.z') extension. r contents",
  "'C'falsetrue'/b''.z'")
w('dates', "| d | d := DateTime year: 2001 month: 2 day: 28 hour: 23 minute: 59 second: 59. (d + (Duration days: 1 hours: 0 minutes: 0 seconds: 1)) printString, (d subtractDays: 59) dayOfYear printString, (Date newDay: 60 year: 2000) printString, (Time fromSeconds: 3661) printString",
  ' 2001-03-02T00:00:00+00:0036629-Feb-20001:01:01')
w('big objects', "| a b | a := Array new: 9000. 1 to: 9000 by: 1000 do: [ :i | a at: i put: i printString ]. b := a copy. b replaceFrom: 2 to: 9000 with: a startingAt: 1. a := String new: 50000 withAll: $z. a := a, 'end'. (b at: 2), (b at: 8002), (b at: 3) printString, (a copyFrom: 49999 to: 50003)",
  '18001nilzzend')
w('unicode', "| u | u := UnicodeString new: 3. u at: 1 put: $a; at: 2 put: (Character codePoint: 955); at: 3 put: $b. u asArray printString, (u copyWith: $c) size printString, u reverse hash printString size printString isString printString",
  "($a $<16r03BB> $b )4true")
w('memory queries', "| a k | a := GcQ new. k := GcQ new. (GcQ allInstances size >= 2) printString, (GcQ allInstances includes: k) printString, (a allOwners isEmpty) printString, (a identityHash = a identityHash) printString",
  None, pre='Object subclass: GcQ [ ]')
w('generators', "| g | g := Generator on: [ :x | 1 to: 4 do: [ :k | x yield: k * k ] ]. (g next + g next) printString, g upToEnd printString, ((Continuation currentDo: [ :c | 5 + (c value: 3) ]) printString)",
  '5(9 16 )3')
w('literals', "{ 3. $a. #sym. 'str'. 1.5e0. #(1 #(2)). #[1 2]. 3/4. 1->2. (1 to: 3). (2 raisedTo: 70). nil. true. 3 @ 4. Object } storeString",
  None)
w('copying', "| d s b | d := Dictionary new. d at: 'k' put: (OrderedCollection with: 1 with: 'v'). s := d deepCopy. (d at: 'k') add: 3. b := Bag new. b add: 'x'; add: 'x'; add: 'y'. (s at: 'k') size printString, (d copy at: 'k') size printString, (b occurrencesOf: 'x') printString, b asSet size printString, (b copy remove: 'x'; yourself) size printString",
  None)
W = [x for x in W]
FIX = {'memory queries': None}


def sweep(chk):
    """The incremental sweep, for every number of dead objects modulo the size of its step, with
    0 to 3 allocations between the steps: what is alive stays intact."""
    code = """
 0 to: %d do: [ :k | k \\\\ n = shard ifTrue: [ 0 to: 3 do: [ :j | | v live ok |
    MC gcNow: 8. MC gcNow: 2. MC gcNow: 6.
    v := (1 to: 500) collect: [ :i | Node new id: i; yourself ]. v := v asArray.
    v tenure. v do: [ :x | x tenure ].
    1 to: k do: [ :i | v at: i * 2 put: nil ].
    MC gcNow: 7.
    1 to: 500 do: [ :i | MC gcNow: 5. j timesRepeat: [ Object new ] ].
    live := Array new: 600. 1 to: 600 do: [ :i | live at: i put: (Node new id: i; yourself) ].
    ok := true.
    1 to: 500 do: [ :i | | x | x := v at: i. (i even and: [ i // 2 <= k ]) ifTrue: [ x isNil ifFalse: [ ok := false ] ] ifFalse: [ ((x isMemberOf: Node) and: [ x id = i ]) ifFalse: [ ok := false ] ] ].
    1 to: 600 do: [ :i | (live at: i) id = i ifFalse: [ ok := false ] ].
    out print: k; space; print: j; space; print: ok; nl ] ] ]""" % (220 if THOROUGH else 120)
    seq.table(chk, 'sweep steps', code, lambda shard, n: [('%d dead objects, %d allocations' % (k, j), '%d %d true' % (k, j)) for k in range(221 if THOROUGH else 121)
                                                           if k % n == shard for j in range(4)], pre=PRE, files=(MCST,))


def main():
    with Check('C01') as chk:
        T = THOROUGH
        only = os.environ.get('MC_ONLY')
        if not only and not os.environ.get("MC_NOSEQ"):
            key = lambda s: s
            for name, ops, dq, dt in (('links, tenure and collections', CORE + GCS, 4, 5), ('become, big, fixed and hashed objects', MORE + GC2, 4, 5),
                                      ('incremental sweep and growth', INCR, 4, 5)):
                seq.sequences(chk, name, make='Heap new init; yourself', ops=ops, show='s show', pymake=Heap, pyshow=lambda s: s.show(),
                              depth=dt if T else dq, pre=PRE, files=(MCST,), fmt="''", pyfmt=lambda r: '')
        if not only or only == 'sweep':
            sweep(chk)
        for name, code, expected, pre in W:
            if only and only != name:
                continue
            m = re.match(r'\s*\|([\w\s]*)\|', code)
            temps, body = ('', code) if not m else (m.group(1), code[m.end():])
            text = PRE0 + pre + '''
Object subclass: Work [ run [ | %s | %s ] ]
Eval [ | k w r |
 w := Work new. r := w run. 
 MC begin: %%BOUND%% mode: 0 gc: 5.
 k := MC choose: 17 cost: 1.
 k > 0 ifTrue: [ MC gcPattern: (k - 1) // 4 + 1 period: (#(61 89 127 211) at: (k - 1) \\\\ 4 + 1) phase: (#(0 17 60 3) at: (k - 1) \\\\ 4 + 1) ].
 r := [ w run ] on: Error do: [ :e | e return: '<ERR:', e messageText displayString, '>' ].
 MC gcPattern: 0 period: 1 phase: 0. MC gcMode: 0.
 MC log: r.
 MC end: '.' ]
''' % (temps, returning(body))
            first = []

            def judge(o):
                r = bad_end(o)
                if r:
                    return r
                if expected is not None and o != expected + '.':
                    return 'expected %r' % expected
                return None
            outs = chk.explore(name, text, judge, bound=1, secs=400)
            if expected is None and len(outs) != 1:
                chk.violation(name, '%s: the result depends on when collections happen: %r' % (name, sorted(outs)[:3]), {})
        chk.assumptions = ['collections happen only at allocations (as in the interpreter); spaces vacated by a scavenge are overwritten at once']


PRE0 = '''Object extend [ primError: msg [ MC log: '<ERR:', msg displayString, '>' ] ].
'''


def returning(body):
    """Return the value of the last statement."""
    depth, last, instr = 0, 0, False
    i = 0
    while i < len(body):
        c = body[i]
        if instr:
            instr = c != "'"
        elif c == "'":
            instr = True
        elif c == '$':
            i += 1
        elif c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '.' and depth == 0 and i + 1 < len(body) and body[i + 1] == ' ':
            last = i + 1
        i += 1
    return body[:last] + ' ^' + body[last:].lstrip()


main()
