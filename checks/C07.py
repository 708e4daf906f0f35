"""C07: exceptions, unwinding and non-local returns against a reference interpreter."""
import os, sys, functools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq
sys.setrecursionlimit(5000)

# ---------------------------------------------------------------- the language
# Programs are prefix strings of one-character tokens, read by an interpreter written
# in Smalltalk with the constructs under test, and by a model in Python.
#   v            a value (numbered)         ^   return the value from the method
#   A B R D Z N W  signal an exception      t   terminate the process
#   p<c>be       [ b ] on: <c> do: [ :e | e ]
#   q b e f      [ b ] on: A do: [ e ] on: R do: [ f ]
#   e b          [ b ] ensure: [ log ]      c b  [ b ] ifCurtailed: [ log ]
#   E b          [ b ] ensure: [ log; a signal handled within ]
#   m b          call of a method that executes b
#   ; a b        a. b
#   s<j> y<j> o<j> g<j> u<j>  retry (once), pass, outer, return: value, resume: value
#   U<j> b       retryUsing: [ b ] (once)   f<j>  return (without a value)
#   j is 0 for the innermost handler around, 1 for the next one
PRE = r'''
Error subclass: XA [ ]
XA subclass: XB [ ]
Exception subclass: XR [ ]
Exception subclass: XD [ defaultAction [ Transcript nextPutAll: 'd'. ^77 ] ]
Error subclass: XW [ isResumable [ ^true ] ]
Object subclass: Prog [
  | src pos n counts log |
  Prog class >> src: s [ ^self new setSrc: s ]
  setSrc: s [ src := s. n := 0. counts := 0 ]
  log: x [ Transcript nextPutAll: x; space ]
  next [ pos := pos + 1. ^src at: pos ]
  "Parse into closures, so that executing an element means executing the real construct."
  parse [ | c |
    c := self next.
    c = $v ifTrue: [ | k | n := n + 1. k := n. ^[ :r :h | self log: k printString. k ] ].
    c = $^ ifTrue: [ | k | n := n + 1. k := n. ^[ :r :h | self log: '^'. r value: k ] ].
    c = $t ifTrue: [ ^[ :r :h | self log: 't'. Processor activeProcess terminate ] ].
    c = $A ifTrue: [ ^[ :r :h | self sig: XA new ] ].
    c = $B ifTrue: [ ^[ :r :h | self sig: XB new ] ].
    c = $R ifTrue: [ ^[ :r :h | self sig: XR new ] ].
    c = $D ifTrue: [ ^[ :r :h | self sig: XD new ] ].
    c = $W ifTrue: [ ^[ :r :h | self sig: XW new ] ].
    c = $Z ifTrue: [ ^[ :r :h | | x | self log: 'Z'. x := 1 / 0. self show: x. x ] ].
    c = $N ifTrue: [ ^[ :r :h | | x | self log: 'N'. x := nil zork. self show: x. x ] ].
    c = $p ifTrue: [ | x b e |
      x := self class: self next. b := self parse. e := self parse.
      ^[ :r :h | [ b value: r value: h ] on: x do: [ :s | self handle: s. e value: r value: (Array with: s with: h) ] ] ].
    c = $q ifTrue: [ | b e f |
      b := self parse. e := self parse. f := self parse.
      ^[ :r :h | [ b value: r value: h ] on: XA do: [ :s | self handle: s. e value: r value: (Array with: s with: h) ]
                   on: XR do: [ :s | self handle: s. f value: r value: (Array with: s with: h) ] ] ].
    c = $e ifTrue: [ | b k | n := n + 1. k := n. b := self parse.
      ^[ :r :h | [ b value: r value: h ] ensure: [ self log: 'e', k printString ] ] ].
    c = $E ifTrue: [ | b k | n := n + 1. k := n. b := self parse.
      ^[ :r :h | [ b value: r value: h ] ensure: [ self log: 'E', k printString. [ XR signal. 0 ] on: XR do: [ :s | self log: 'i'. s return: 1 ] ] ] ].
    c = $c ifTrue: [ | b k | n := n + 1. k := n. b := self parse.
      ^[ :r :h | [ b value: r value: h ] ifCurtailed: [ self log: 'c', k printString ] ] ].
    c = $m ifTrue: [ | b | b := self parse. ^[ :r :h | | x | x := self call: b. self log: 'm', x printString. x ] ].
    c = $; ifTrue: [ | a b | a := self parse. b := self parse. ^[ :r :h | a value: r value: h. b value: r value: h ] ].
    c = $s ifTrue: [ | j k | j := self next digitValue. n := n + 1. k := n.
      ^[ :r :h | (self once: k) ifTrue: [ (self at: j in: h) retry ] ifFalse: [ k ] ] ].
    c = $y ifTrue: [ | j | j := self next digitValue. ^[ :r :h | | x | self log: 'y'. x := (self at: j in: h) pass. self log: '?'. x ] ].
    c = $o ifTrue: [ | j | j := self next digitValue. ^[ :r :h | | x | self log: 'o'. x := (self at: j in: h) outer. self show: x. x ] ].
    c = $g ifTrue: [ | j k | j := self next digitValue. n := n + 1. k := n. ^[ :r :h | (self at: j in: h) return: k ] ].
    c = $f ifTrue: [ | j | j := self next digitValue. ^[ :r :h | (self at: j in: h) return ] ].
    c = $u ifTrue: [ | j k | j := self next digitValue. n := n + 1. k := n. ^[ :r :h | (self at: j in: h) resume: k ] ].
    c = $U ifTrue: [ | j b k | j := self next digitValue. n := n + 1. k := n. b := self parse.
      ^[ :r :h | (self once: k) ifTrue: [ (self at: j in: h) retryUsing: [ b value: r value: h last ] ] ifFalse: [ k ] ] ].
    ^self error: 'bad token ', c printString ]
  class: c [
    c = $A ifTrue: [ ^XA ]. c = $B ifTrue: [ ^XB ]. c = $R ifTrue: [ ^XR ]. c = $D ifTrue: [ ^XD ]. c = $W ifTrue: [ ^XW ].
    c = $Z ifTrue: [ ^ZeroDivide ]. c = $N ifTrue: [ ^SystemExceptions.NotYetImplemented, MessageNotUnderstood ]. c = $S ifTrue: [ ^XB, XR ].
    c = $X ifTrue: [ ^Error ]. c = $Y ifTrue: [ ^Exception ] ]
  sig: x [ | y | self log: (x class name copyFrom: 2). y := x signal. self show: y. ^y ]
  show: x [ self log: '=', (x isString ifTrue: [ 'str' ] ifFalse: [ (x isNil or: [ x isNumber ]) ifTrue: [ x printString ] ifFalse: [ 'obj' ] ]) ]
  handle: s [ self log: 'h', ((s class = ZeroDivide) ifTrue: [ 'Z' ] ifFalse: [ (s class name at: 1) = $X ifTrue: [ s class name copyFrom: 2 ] ifFalse: [ 'N' ] ]) ]
  at: j in: h [ ^j = 0 ifTrue: [ h first ] ifFalse: [ h last first ] ]
  once: k [ (counts bitAt: k) = 1 ifTrue: [ self log: 'again'. ^false ]. counts := counts bitOr: (1 bitShift: k - 1). self log: 'once'. ^true ]
  call: b [ ^b value: [ :v | ^v ] value: nil ]
  run [ | main sem |
    pos := 0. main := self parse.
    (src includes: $t) ifFalse: [ ^self main: main ].
    sem := Semaphore new.
    [ [ self main: main ] ensure: [ sem signal ] ] fork.
    sem wait ]
  main: main [ | x |
    x := [ self call: main ] on: Error, XR do: [ :s | self log: '!'. s return: nil ].
    self log: '->', x printString ]
]
'''

PARENT = dict(A='X', B='A', W='X', Z='X', N='X', R='Y', D='Y', X='Y', Y=None)
RESUMABLE = set('RDWZN')


def isa(x, c):
    if c == 'S':
        return isa(x, 'B') or isa(x, 'R')
    while x is not None:
        if x == c:
            return True
        x = PARENT[x]
    return False


class Ambiguous(Exception):
    pass


class Unwind(Exception):
    def __init__(self, target, value, again=None):
        self.target, self.value, self.again = target, value, again


class Frame:
    def __init__(self, clauses):
        self.clauses, self.busy = clauses, set()


class Sig:
    pass


class Model:
    """A direct reading of the documentation.  INNER: are the handlers between the point of
    signal and a running handler visible to what the handler signals?  The result is used
    only if it does not depend on that."""
    def __init__(self, src, inner, reset):
        self.src, self.inner, self.reset = src, inner, reset
        self.pos = self.n = 0
        self.out, self.done, self.frames = [], set(), []
        self.steps = 0

    def log(self, x):
        self.out.append(x)
        self.steps += 1
        if self.steps > 400:
            raise Ambiguous()

    def num(self):
        self.n += 1
        return self.n

    def parse(self):
        c = self.src[self.pos]
        self.pos += 1
        if c in 'v':
            return (c, self.num())
        if c == '^':
            return (c, self.num())
        if c in 'tABRDWZN':
            return (c,)
        if c == 'p':
            x = self.src[self.pos]
            self.pos += 1
            b = self.parse()
            return ('p', [x], b, [self.parse()])
        if c == 'q':
            b = self.parse()
            e = self.parse()
            return ('p', ['A', 'R'], b, [e, self.parse()])
        if c in 'eEc':
            k = self.num()
            return (c, k, self.parse())
        if c == 'm':
            return (c, self.parse())
        if c == ';':
            a = self.parse()
            return (c, a, self.parse())
        j = int(self.src[self.pos])
        self.pos += 1
        if c in 'yof':
            return (c, j)
        k = self.num()
        if c in 'sgu':
            return (c, j, k)
        if c == 'U':
            return (c, j, k, self.parse())
        raise ValueError(c)

    # dynamic state: self.frames, innermost last; each run extends and restores it
    def signal(self, cls, resumable=None):
        s = Sig()
        s.cls = cls
        s.frames = list(self.frames)
        return self.activate(s, s.frames)

    def activate(self, s, visible):
        """Find and run a handler; answer the value that the signal answers."""
        for i in range(len(visible) - 1, -1, -1):
            fr = visible[i]
            for k, x in enumerate(fr.clauses):
                if k not in fr.busy and isa(s.cls, x):
                    break
            else:
                continue
            return self.handler(s, fr, k, visible[:i])
        # default action
        if s.cls == 'D':
            self.log('d+')
            return 77
        raise AssertionError('unhandled')

    def handler(self, s, fr, k, outside):
        h = Sig()
        h.__dict__.update(cls=s.cls, fr=fr, outside=outside, sig=object())
        saved = self.frames
        self.frames = list(saved) if self.inner else list(outside)
        fr.busy.add(k)
        try:
            v = fr.run(k, h)
            raise Unwind(fr, v)
        except Unwind as u:
            if u.target is h.sig:
                return u.value
            raise
        finally:
            fr.busy.discard(k)
            self.frames = saved

    def resume(self, h, v):
        raise Unwind(h.sig, v)

    def run(self, t, ret, hs):
        c = t[0]
        if c == 'v':
            self.log(str(t[1]))
            return t[1]
        if c == '^':
            self.log('^')
            raise Unwind(ret, t[1])
        if c == 't':
            self.log('t')
            raise Unwind('process', None)
        if c in 'ABRDWZN':
            self.log(c)
            v = self.signal(c)
            self.show(v)
            return v
        if c == ';':
            self.run(t[1], ret, hs)
            return self.run(t[2], ret, hs)
        if c == 'm':
            me = object()
            try:
                v = self.run(t[1], me, None)
            except Unwind as u:
                if u.target is not me:
                    raise
                v = u.value
            self.log('m' + self.p(v))
            return v
        if c in 'eEc':
            def after():
                self.log('%s%d' % (c, t[1]))
                if c == 'E':
                    self.log('i')
            try:
                v = self.run(t[2], ret, hs)
            except Unwind as u:
                after()
                raise
            if c != 'c':
                after()
            return v
        if c == 'p':
            fr = Frame(t[1])

            def handle(k, h):
                self.log('h' + h.cls)
                return self.run(t[3][k], ret, (h, hs))
            fr.run = handle
            body = lambda: self.run(t[2], ret, hs)
            while True:
                saved = self.frames
                self.frames = saved + [fr]
                try:
                    return body()
                except Unwind as u:
                    if u.target is not fr:
                        raise
                    if u.again is None:
                        return u.value
                    body = u.again if u.again != 'same' else body
                    fr.busy = set()
                finally:
                    self.frames = saved
        # actions on the exception
        h = hs[0] if t[1] == 0 else hs[1][0]
        if c == 'g':
            raise Unwind(h.fr, t[2])
        if c == 'f':
            raise Unwind(h.fr, None)
        if c == 'u':
            if h.cls not in RESUMABLE:
                raise Ambiguous()
            raise Unwind(h.sig, t[2])
        if c in 'sU':
            if t[2] in self.done:
                self.log('again')
                return t[2]
            self.done.add(t[2])
            self.log('once')
            if self.reset:
                for f in self.frames:
                    f.busy = set()
            if c == 's':
                raise Unwind(h.fr, None, 'same')
            inner = hs[1]
            raise Unwind(h.fr, None, lambda: self.run(t[3], ret, inner))
        if c in 'yo':
            self.log(c)
            s = Sig()
            s.cls = h.cls
            if not any(k not in f.busy and isa(h.cls, x) for f in h.outside for k, x in enumerate(f.clauses)):
                # the default action is the outer one
                self.log('d+')
                if c == 'o':
                    self.show(77)
                    return 77
                raise Unwind(h.sig, 77)
            v = self.activate(s, h.outside)
            if c == 'y' or h.cls not in RESUMABLE:
                raise Unwind(h.sig, v)
            self.show(v)
            return v
        raise ValueError(t)

    def p(self, v):
        return 'nil' if v is None else str(v)

    def show(self, v):
        self.log('=' + self.p(v))

    def go(self):
        main = self.parse()
        assert self.pos == len(self.src)
        top = Frame(['X', 'R'])

        def handle(k, h):
            self.log('!')
            raise Unwind(top, None)
        top.run = handle
        self.frames = [top]
        me = object()
        try:
            v = self.run(main, me, None)
        except Unwind as u:
            if u.target == 'process':
                return ' '.join(self.out) + ' '
            assert u.target in (top, me)
            v = u.value
        self.log('->' + self.p(v))
        return (' '.join(self.out) + ' ').replace('d+ ', 'd')


def model(src):
    """The expected line, or None when the documentation leaves the outcome open."""
    r = set()
    for inner in (True, False):
        for reset in (True, False):
            try:
                r.add(Model(src, inner, reset).go().replace('d+ ', 'd'))
            except Ambiguous:
                return None
    return r.pop() if len(r) == 1 else None


# ---------------------------------------------------------------- enumeration
SIGS, PROTS, NACT = 'ARD', 'AYS', 'sgyou'


def generate(sigs, prots, acts, unary, extra=''):
    """gen(size, scope): all programs of exactly SIZE tokens with SCOPE exceptions in scope."""
    @functools.lru_cache(None)
    def gen(size, scope, top=False):
        out = []
        if size == 1:
            out.append('v')
            out += list(sigs)
            out.append('^')
            out += list(extra)
            for j in range(min(scope, 2)):
                out += [a + str(j) for a in acts if a != 'U']
            return tuple(out)
        for u in unary:
            if u == 'm':
                out += [u + b for b in gen(size - 1, 0) if '^' in b or len(b) > 1]
            else:
                out += [u + b for b in gen(size - 1, scope) if b != 'v']
        if 'U' in acts:
            for j in range(min(scope, 2)):
                out += ['U%d' % j + b for b in gen(size - 1, scope - 1 - j if j == 0 else scope - 1) if j == 0]
        for k in range(1, size - 1):
            right = None
            for a in gen(k, scope):
                if a == 'v' or a == '^' or a == 't':
                    continue
                if a[0] == ';':
                    continue
                if right is None:
                    right = gen(size - 1 - k, scope)
                out += [';' + a + b for b in right]
            for a in gen(k, scope):
                if a in ('v', '^') or not any(x in a for x in 'ABRDWZN'):
                    continue
                for x in prots:
                    out += ['p' + x + a + b for b in gen(size - 1 - k, min(scope + 1, 2))]
        return tuple(out)
    return gen


def clauses(gen, size):
    """[ a ] on: A do: [ b ] on: R do: [ c ]"""
    for k in range(1, size - 2):
        for a in gen(k, 0):
            if not any(x in a for x in 'ABRD'):
                continue
            for l in range(1, size - 1 - k):
                for b in gen(l, 1):
                    for c in gen(size - 1 - k - l, 1):
                        yield 'q' + a + b + c


def relevant(p):
    return any(x in p for x in 'p^qt') and any(x in p for x in 'ABRDWZN^t')


def main():
    with Check('C07') as chk:
        def part(name, progs):
            progs = [p for p in progs if relevant(p)]
            good = []
            n = seq.NCPU
            # the model runs in the shards; the list of programs is cut the same way
            fn = os.path.join(chk.b.work, 'c07-%s' % re.sub(r'\W', '_', name))
            res = seq.run_shards(lambda s: dict(v=[(p, model(p)) for p in progs[s::n]]), n)
            skipped = 0
            for s in range(n):
                with open('%s.%d' % (fn, s), 'w') as f:
                    good.append([(p, w) for p, w in res[s]['v'] if w is not None])
                    skipped += len(res[s]['v']) - len(good[-1])
                    f.writelines(p + '\n' for p, w in good[-1])
            seq.table(chk, name, '''(FileStream open: '%s.', shard printString mode: FileStream read) linesDo: [ :l |
               [ (Prog src: l) run ] on: Error do: [ :e | out nextPutAll: 'ERROR '; nextPutAll: e messageText displayString. e return ].
               out nl ]''' % fn, lambda shard, n: iter(good[shard]), pre=PRE, nsh=n, weight=4, describe=lambda k: 'program "%s"' % k)
            chk.part(name + ': left open by the documentation', programs=skipped)
            chk.samples.append(dict(part=name, programs=[g[0] for s in good for g in s[-2:]][:6]))

        T = THOROUGH
        g = generate('ARD', 'AYS', 'sgyou', 'ecm')
        part('programs of up to %d elements' % (7 if T else 6), [p for k in range(1, 8 if T else 7) for p in g(k, 0)])
        g = generate('ABWZN', 'AXZN', 'gyuf', 'E')
        part('classes of exceptions', [p for k in range(1, 7 if T else 6) for p in g(k, 0)])
        g = generate('RA', 'RA', 'ysgo', 'ecm', 't')
        part('termination', [p for k in range(1, 8 if T else 7) for p in g(k, 0) if 't' in p])
        g = generate('AR', 'A', 'sUyg', 'eE')
        part('retryUsing:', [p for k in range(1, 8 if T else 7) for p in g(k, 0) if 'U' in p])
        g = generate('ARD', 'A', 'gyosu', 'e')
        part('several clauses', [p for k in range(4, 8 if T else 7) for p in clauses(g, k)])
        g = generate('R', 'R', 'yougs', 'e')
        part('nested handlers', [p for k in range(7, 10 if T else 9) for p in g(k, 0)])
        g = generate('AR', 'A', 'yg', 'emc')
        part('nested unwinding', [p for k in range(7, 10 if T else 9) for p in g(k, 0)])
        chk.assumptions = ['handlers between the point of signal and a running handler, and what retry does to handlers around the '
                           'running one, are left open: programs whose outcome depends on them are not compared']


main()
