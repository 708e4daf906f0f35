"""C08: compiled code does what the source says."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq

# ------------------------------------------------------------------ programs
# Syntax trees are tuples; the first element says the kind.  TEXT gives the source, RUN the
# meaning (a direct interpreter of the tree).


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Self:
    pass


class Sym(str):
    pass


class Env:
    def __init__(self):
        self.v = dict(t=None, u=None, n=0, i=None, b=None)
        self.log = []
        self.fuel = 40


def show(v):
    if v is None:
        return 'nil'
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if isinstance(v, Self):
        return 'self'
    if isinstance(v, list):
        return '(' + ''.join(show(x) + ' ' for x in v) + ')'
    if callable(v):
        return 'block'
    return str(v)


def same(a, b):
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, list) or isinstance(b, list) or callable(a) or callable(b):
        return a is b
    return a == b


def stmts(ss, env):
    """Value of the last statement, nil if there is none."""
    r = None
    for s in ss:
        r = run(s, env)
    return r


def run(e, env):
    k = e[0]
    if k == 'lit':
        return e[1]
    if k == 'var':
        return env.v[e[1]]
    if k == 'set':
        v = run(e[2], env)
        env.v[e[1]] = v
        return v
    if k == 'log':                      # self p / self q
        env.log.append(e[1])
        return e[1] == 'p'
    if k == 'say':                      # self a: E
        v = run(e[1], env)
        env.log.append('a' + show(v))
        return v
    if k == 'two':                      # self x: E y: E
        v = run(e[1], env)
        w = run(e[2], env)
        env.log.append('x%sy%s' % (show(v), show(w)))
        return w
    if k == 'casc':                     # self a: E; a: F; p
        v = run(e[1], env)
        env.log.append('a' + show(v))
        w = run(e[2], env)
        env.log.append('a' + show(w))
        env.log.append('p')
        return True
    if k == 'eq':
        v = run(e[1], env)
        w = run(e[2], env)
        return same(v, w)
    if k == 'isnil':
        return run(e[1], env) is None
    if k == 'not':
        return not run(e[1], env)
    if k == 'arr':
        return [run(x, env) for x in e[1:]]
    if k == 'and':
        return run(e[2], env) if run(e[1], env) else False
    if k == 'or':
        return True if run(e[1], env) else run(e[2], env)
    if k == 'if':                       # form, cond, true stmts, false stmts
        if run(e[2], env):
            return stmts(e[3], env) if e[3] is not None else None
        return stmts(e[4], env) if e[4] is not None else None
    if k == 'ifnil':                    # form, E, nil stmts, notnil stmts
        v = run(e[2], env)
        if v is None:
            return stmts(e[3], env) if e[3] is not None else None
        if e[4] is None:
            return v
        old = env.v.get('x')
        env.v['x'] = v
        try:
            return stmts(e[4], env)
        finally:
            env.v['x'] = old
    if k == 'blk':                      # [S] value
        return stmts(e[1], env)
    if k == 'blk1':                     # [:x | S] value: E
        v = run(e[2], env)
        old = env.v.get('x')
        env.v['x'] = v
        try:
            return stmts(e[1], env)
        finally:
            env.v['x'] = old
    if k == 'setb':
        env.v['b'] = lambda: stmts(e[1], env)
        return env.v['b']
    if k == 'callb':
        env.fuel -= 1
        if env.fuel < 0:
            raise OverflowError
        b = env.v['b']
        return b() if b else None
    if k == 'ret':
        raise Ret(run(e[1], env))
    if k == 'todo':
        for i in (1, 2):
            old = env.v.get('k')
            env.v['k'] = i
            stmts(e[1], env)
            env.v['k'] = old
        return None
    if k == 'todoz':                    # a temporary of the loop body is nil at each iteration
        for i in (3, 1):
            old = env.v.get('k')
            env.v['k'] = i
            env.log.append('anil')
            stmts(e[1], env)
            env.v['k'] = old
        return None
    if k == 'while':                    # [n := n + 1. n < 3] whileTrue: [S]
        while True:
            env.v['n'] += 1
            if not env.v['n'] < 3:
                return None
            stmts(e[1], env)
    if k == 'until':                    # [S. n := n + 1. n >= 3] whileFalse
        while True:
            stmts(e[1], env)
            env.v['n'] += 1
            if env.v['n'] >= 3:
                return None
    if k == 'wcond':                    # [n := n + 1. (n < 3) and: [B]] whileTrue: [S]
        while True:
            env.v['n'] += 1
            if not (env.v['n'] < 3 and run(e[1], env)):
                return None
            stmts(e[2], env)
    if k == 'repeat':                   # [n := n + 1. n > 2 ifTrue: [^E]. S] repeat
        while True:
            env.v['n'] += 1
            if env.v['n'] > 2:
                raise Ret(run(e[1], env))
            stmts(e[2], env)
    if k == 'times':
        for i in range(2):
            stmts(e[1], env)
        return None
    raise AssertionError(e)


IFS = {'TF': 'ifTrue: [%(t)s] ifFalse: [%(f)s]', 'FT': 'ifFalse: [%(f)s] ifTrue: [%(t)s]', 'T': 'ifTrue: [%(t)s]', 'F': 'ifFalse: [%(f)s]'}
NILS = {'NX': 'ifNil: [%(t)s] ifNotNil: [:x | %(f)s]', 'XN': 'ifNotNil: [:x | %(f)s] ifNil: [%(t)s]', 'N': 'ifNil: [%(t)s]', 'X': 'ifNotNil: [:x | %(f)s]'}


def text(e):
    k = e[0]
    if k == 'lit':
        return show(e[1])
    if k == 'var':
        return e[1]
    if k == 'set':
        return '(%s := %s)' % (e[1], text(e[2]))
    if k == 'log':
        return '(self %s)' % e[1]
    if k == 'say':
        return '(self a: %s)' % text(e[1])
    if k == 'two':
        return '(self x: %s y: %s)' % (text(e[1]), text(e[2]))
    if k == 'casc':
        return '(self a: %s; a: %s; p)' % (text(e[1]), text(e[2]))
    if k == 'eq':
        return '(%s == %s)' % (text(e[1]), text(e[2]))
    if k == 'isnil':
        return '%s isNil' % text(e[1])
    if k == 'not':
        return '(%s) not' % text(e[1])
    if k == 'arr':
        return '{%s}' % '. '.join(text(x) for x in e[1:])
    if k == 'and':
        return '(%s and: [%s])' % (text(e[1]), text(e[2]))
    if k == 'or':
        return '(%s or: [%s])' % (text(e[1]), text(e[2]))
    if k == 'if':
        return '((%s) %s)' % (text(e[2]), IFS[e[1]] % dict(t=body(e[3]), f=body(e[4])))
    if k == 'ifnil':
        return '((%s) %s)' % (text(e[2]), NILS[e[1]] % dict(t=body(e[3]), f=body(e[4])))
    if k == 'blk':
        return '[%s] value' % body(e[1])
    if k == 'blk1':
        return '([:x | %s] value: %s)' % (body(e[1]), text(e[2]))
    if k == 'setb':
        return '(b := [%s])' % body(e[1])
    if k == 'callb':
        return 'b value'
    if k == 'ret':
        return '^%s' % text(e[1])
    if k == 'todo':
        return '1 to: 2 do: [:k | %s]' % body(e[1])
    if k == 'todoz':
        return '3 to: 1 by: -2 do: [:k | | z | self a: z. z := k. %s]' % body(e[1])
    if k == 'while':
        return '[n := n + 1. n < 3] whileTrue: [%s]' % body(e[1])
    if k == 'until':
        return '[%s. n := n + 1. n >= 3] whileFalse' % body(e[1])
    if k == 'wcond':
        return '[n := n + 1. n < 3 and: [%s]] whileTrue: [%s]' % (text(e[1]), body(e[2]))
    if k == 'repeat':
        return '[n := n + 1. n > 2 ifTrue: [^%s]. %s] repeat' % (text(e[1]), body(e[2]))
    if k == 'times':
        return '2 timesRepeat: [%s]' % body(e[1])
    raise AssertionError(e)


def body(ss):
    return '. '.join(text(s) for s in ss or ())


class Gen:
    """Enumerates trees by size.  FULL: use every construct; otherwise a smaller set that
    goes deeper.  The scope says which of x (argument of a block) and k (loop counter) are
    visible."""
    def __init__(self, full):
        self.full = full
        self.c = {}

    def memo(self, f, *a):
        r = self.c.get((f, a))
        if r is None:
            r = self.c[f, a] = list(getattr(self, f)(*a))
        return r

    def E(self, n, sc):
        return self.memo('_E', n, sc)

    def B(self, n, sc):
        return self.memo('_B', n, sc)

    def S(self, n, sc):
        return self.memo('_S', n, sc)

    def L(self, n, sc, empty=True):
        return self.memo('_L', n, sc)

    def _E(self, n, sc):
        full = self.full
        if n == 1:
            yield ('lit', 1)
            yield ('var', 't')
            if full:
                yield ('lit', None)
                yield ('var', 'i')
                yield ('var', 'n')
            for v in sc:
                yield ('var', v)
            yield ('callb',)
        if n >= 2:
            for x in self.E(n - 1, sc):
                yield ('set', 't', x)
                if full:
                    yield ('set', 'i', x)
                yield ('say', x)
            for x in self.L(n - 1, sc):
                yield ('blk', x)
                if full:
                    yield ('setb', x)
            if not full:
                for x in self.L(n - 1, tuple(v for v in sc if v != 'k')):
                    yield ('setb', x)
        for i in range(1, n - 1):
            for x in self.E(i, sc):
                for y in self.E(n - 1 - i, sc):
                    yield ('two', x, y)
                    if full:
                        yield ('casc', x, y)
                        yield ('arr', x, y)
                for y in self.L(n - 1 - i, tuple(sorted(set(sc) | {'x'}))):
                    yield ('blk1', y, x)
                    yield ('ifnil', 'X', x, None, y)
                for y in self.L(n - 1 - i, sc):
                    if full:
                        yield ('ifnil', 'N', x, y, None)
            for x in self.B(i, sc):
                for y in self.L(n - 1 - i, sc):
                    yield ('if', 'T', x, y, None)
                    if full:
                        yield ('if', 'F', x, None, y)
        for i in range(1, n - 2):
            for j in range(1, n - 1 - i):
                for y in self.L(j, sc):
                    for z in self.L(n - 1 - i - j, sc):
                        for x in self.B(i, sc):
                            yield ('if', 'TF', x, y, z)
                            if full:
                                yield ('if', 'FT', x, y, z)
                    if full:
                        for z in self.L(n - 1 - i - j, tuple(sorted(set(sc) | {'x'}))):
                            for x in self.E(i, sc):
                                yield ('ifnil', 'NX', x, y, z)
                                yield ('ifnil', 'XN', x, y, z)

    def _B(self, n, sc):
        if n == 1:
            yield ('log', 'p')
            yield ('log', 'q')
            if self.full:
                yield ('lit', True)
                yield ('lit', False)
        if n >= 2:
            for x in self.E(n - 1, sc):
                yield ('isnil', x)
            if self.full:
                for x in self.B(n - 1, sc):
                    yield ('not', x)
        for i in range(1, n - 1):
            for x in self.B(i, sc):
                for y in self.B(n - 1 - i, sc):
                    yield ('and', x, y)
                    yield ('or', x, y)
            if self.full:
                for x in self.E(i, sc):
                    for y in self.E(n - 1 - i, sc):
                        yield ('eq', x, y)

    def _S(self, n, sc):
        """Statements."""
        for x in self.E(n, sc):
            if x[0] not in ('lit', 'var'):
                yield x
            elif n == 1 and x[0] == 'var':
                yield x
        if n >= 2:
            for x in self.E(n - 1, sc):
                yield ('ret', x)
            if n >= 2:
                for x in self.L(n - 1, tuple(sorted(set(sc) | {'k'}))):
                    yield ('todo', x)
                    if self.full:
                        yield ('todoz', x)
                for x in self.L(n - 1, sc):
                    yield ('while', x)
                    if self.full:
                        if x[-1][0] != 'ret':
                            yield ('until', x)
                        yield ('times', x)
        for i in range(1, n - 1):
            for y in self.L(n - 1 - i, sc):
                if self.full:
                    for x in self.B(i, sc):
                        yield ('wcond', x, y)
                for x in self.E(i, sc):
                    yield ('repeat', x, y)

    def _L(self, n, sc):
        """Bodies of blocks: one statement, or two; a return comes last."""
        for x in self.S(n, sc):
            yield (x,)
        if n == 1:
            yield (('lit', 2),)
        for i in range(1, n):
            for x in self.S(i, sc):
                if x[0] in ('ret', 'var', 'repeat'):
                    continue
                for y in self.S(n - i, sc):
                    yield (x, y)


def bad(e):
    """A counter of an inlined loop that is captured by a block which is kept: not specified."""
    if e[0] == 'setb':
        return mentions(e, 'k') or mentions(e, 'x')
    return any(isinstance(x, tuple) and bad(x) for x in e)


def mentions(e, v):
    if isinstance(e, tuple) and len(e) == 2 and e[0] == 'var' and e[1] == v:
        return True
    return isinstance(e, tuple) and any(mentions(x, v) for x in e if isinstance(x, tuple))


def last_value(ss):
    """Loops used for their value are not specified."""
    return any(loopval(s, False) for s in ss[:-1]) or loopval(ss[-1], True)


LOOPS = ('todo', 'todoz', 'times', 'while', 'until', 'wcond')


def loopval(e, used):
    """Does E use the value of a loop?"""
    if not isinstance(e, tuple) or not e or not isinstance(e[0], str):
        return False
    if e[0] in LOOPS and used:
        return True
    if e[0] in LOOPS or e[0] == 'repeat':
        return any(seqval(x, False) if x and isinstance(x[0], tuple) else loopval(x, True) for x in e[1:] if isinstance(x, tuple))
    r = False
    for x in e[1:]:
        if isinstance(x, tuple) and x:
            if isinstance(x[0], tuple):
                r = r or seqval(x, used or e[0] == 'setb')
            else:
                r = r or loopval(x, True)
    return r


def seqval(ss, used):
    return any(loopval(s, False) for s in ss[:-1]) or loopval(ss[-1], used)


def programs(full, n):
    g = Gen(full)
    for k in range(1, n + 1):
        for p in g.L(k, ()):
            if any(bad(s) for s in p) or seqval(p, True):
                continue
            try:
                yield p, meaning(p, True), meaning(p, False)
            except OverflowError:       # endless recursion
                pass


def meaning(p, method):
    env = Env()
    try:
        v = stmts(p, env)
        if method:
            v = Self()
    except Ret as r:
        v = r.v
    return '%s %s i=%s' % (' '.join(env.log), show(v), show(env.v['i']))


PRE = r'''
Object subclass: Subject [ | i log |
  init [ log := WriteStream on: String new. i := nil ]
  p [ log nextPutAll: 'p '. ^true ]
  q [ log nextPutAll: 'q '. ^false ]
  a: x [ log nextPut: $a; nextPutAll: (self show: x); space. ^x ]
  x: x y: y [ log nextPut: $x; nextPutAll: (self show: x); nextPut: $y; nextPutAll: (self show: y); space. ^y ]
  show: x [ x == self ifTrue: [ ^'self' ]. x class == BlockClosure ifTrue: [ ^'block' ].
     x class == Array ifTrue: [ ^(x inject: '(' into: [ :s :e | s, (self show: e), ' ' ]), ')' ].
     ^x printString ]
  go: sel [ | r | self init. r := [ self perform: sel ] on: Error do: [ :e | e return: e messageText asSymbol ].
     log isEmpty ifTrue: [ log space ].
     ^log contents, (self show: r), ' i=', (self show: i) ]
]
'''
FORMS = [
    # name, template of the method, is the value of the body discarded?
    ('method', 'go [ | t u n b | n := 0. b := [nil]. %s ]', True),
    ('block', 'go [ | t u n b | n := 0. b := [nil]. ^[%s] value ]', False),
    ('block2', 'go [ | t b | b := [nil]. ^[ | n u | n := 0. [[%s] value] value ] value ]', False),
]


def progs(c, name, full, depth):
    ps = list(programs(full, depth))
    f = os.path.join(c.b.work, 'c08-%s.txt' % name)
    with open(f, 'w') as h:
        for p in ps:
            h.write(body(p[0]) + '\n')
    for fname, tmpl, method in FORMS:
        a, b = tmpl.split('%s')
        code = r'''
 | f k sub b |
 f := FileStream open: '%s' mode: FileStream read.
 k := 0.
 sub := Subject new.
 [ f atEnd ] whileFalse: [ | line |
   line := f nextLine.
   k \\ n = shard ifTrue: [
     Subject compile: '%s', line, '%s'.
     out nextPutAll: (sub go: #go); nl ].
   k := k + 1 ]
''' % (f, a, b)

        def exp(shard, n):
            for i in range(shard, len(ps), n):
                p, m, v = ps[i]
                yield '%s: %s' % (fname, body(p)), m if method else v
        seq.table(c, 'programs %s %s' % (name, fname), code, exp, pre=PRE)



# ------------------------------------------------------------------ sizes
def sizes(name, method, thorough):
    """Yields (title, source of go, expected, [other methods], may the compiler refuse it)."""
    dense = list(range(0, 300 if thorough else 140))
    small = list(range(0, 100 if thorough else 70))
    mid = list(range(0, 300))
    R = lambda a, b: range(a, b + 1)

    def seqsum(names):
        return ' + '.join(names) if names else '0'

    for n in R(0, 100):
        ts = ['t%d' % i for i in R(1, n)]
        decl = '| %s |' % ' '.join(ts) if ts else ''
        sets = ' '.join('t%d := %d.' % (i, i) for i in R(1, n))
        total = n * (n + 1) // 2
        yield '%d temporaries' % n, 'go [ %s %s ^%s ]' % (decl, sets, seqsum(ts)), total, [], n > 60
        yield '%d temporaries are nil' % n, 'go [ %s ^{%s} inject: 0 into: [:a :b | b isNil ifTrue: [a + 1] ifFalse: [a]] ]' % (decl, '. '.join(ts)), n, [], n > 60
        yield '%d temporaries of a block' % n, 'go [ ^[ %s %s [%s] value ] value ]' % (decl, sets, seqsum(ts)), total, [], n > 30
        yield '%d outer temporaries' % n, 'go [ %s [ | x | [ | y | y := 1. [ | z | z := 2. %s ] value ] value ] value. ^[[[%s] value] value] value ]' % (
            decl, sets, seqsum(ts)), total, [], n > 60
        yield '%d block arguments' % n, 'go [ ^[ %s %s] valueWithArguments: %s ]' % (
            ''.join(':%s ' % t for t in ts), ('| ' + seqsum(ts)) if ts else '0', '(1 to: %d) asArray' % n), total, [], n > 30
        if n:
            yield '%d arguments' % n, 'go [ ^self %s ]' % ' '.join('k%d: %d' % (i, i) for i in R(1, n)), total, [
                '%s [ ^%s ]' % (' '.join('k%d: t%d' % (i, i) for i in R(1, n)), seqsum(ts))], n > 30
            yield '%d arguments seen by a block, and a temporary' % n, 'go [ ^self %s ]' % ' '.join('k%d: %d' % (i, i) for i in R(1, n)), total + 5, [
                '%s [ | x | x := 5. ^[[%s + x] value] value ]' % (' '.join('k%d: t%d' % (i, i) for i in R(1, n)), seqsum(ts))], n > 30
            yield 'keyword of %d characters' % (n * 3), 'go [ ^self %s: 3 ]' % ('abc' * n), 3, ['%s: x [ ^x ]' % ('abc' * n)], False

    # expression stack
    for n in R(0, 300):
        may = n > 180
        yield 'expression of depth %d' % n, 'go [ ^%s0%s ]' % ('1 + (' * n, ')' * n), n, [], may
        yield 'expression of depth %d in a block' % n, 'go [ | t | t := 1. ^[%s0%s] value ]' % ('t + (' * n, ')' * n), n, [], may
        if n < 150:
            yield 'expression of depth %d, method with temporaries and arguments' % n, 'go [ ^self a: 1 b: 2 ]', n + 3 + 78, [
                'a: a b: b [ | %s | %s ^%s0%s + a + b + %s ]' % (' '.join('t%d' % i for i in R(1, 12)), ' '.join('t%d := %d.' % (i, i) for i in R(1, 12)),
                                                                     '(1 + ' * n, ')' * n, ' + '.join('t%d' % i for i in R(1, 12)))], may
        if n <= 30:
            yield 'keyword message with %d pending arguments' % n, 'go [ ^self %s ]' % ' '.join('m%d: (3 - 2)' % i for i in R(0, n)), n + 1, [
                '%s [ ^%s ]' % (' '.join('m%d: a%d' % (i, i) for i in R(0, n)), ' + '.join('a%d' % i for i in R(0, n)))], False
        yield 'cascade of %d messages' % n, 'go [ ^(OrderedCollection new) %s yourself; size ]' % ''.join('add: %d; ' % i for i in range(n)), n, [], False
        yield 'array of %d expressions' % n, 'go [ ^{%s} inject: 0 into: [:a :b | a * 7 + b \\ 1009] ]' % '. '.join(str(i) for i in range(n)), fold(range(n)), [], False
        yield 'literal array of %d' % n, 'go [ ^#(%s) inject: 0 into: [:a :b | a * 7 + b \\ 1009] ]' % ' '.join(str(i) for i in range(n)), fold(range(n)), [], False
        yield 'byte array of %d' % n, 'go [ ^#[%s] inject: 0 into: [:a :b | a * 7 + b \\ 1009] ]' % ' '.join(str(i % 256) for i in range(n)), fold(i % 256 for i in range(n)), [], False
        yield 'string of %d' % n, "go [ ^'%s' inject: 0 into: [:a :b | a * 7 + b value \\ 1009] ]" % ''.join(chr(97 + i % 26) for i in range(n)), fold(97 + i % 26 for i in range(n)), [], False
        yield '%d literals' % n, 'go [ | t | t := 0. %s ^t ]' % ''.join('t := t * 7 + %d \\ 1009. ' % (10**9 * 5 + i) for i in range(n)), fold(10**9 * 5 + i for i in range(n)), [], False
        yield '%d literals of a block' % n, 'go [ | t | t := 0. [%s] value. ^t ]' % ''.join('t := t * 7 + %d \\ 1009. ' % (10**9 * 5 + i) for i in range(n)), fold(10**9 * 5 + i for i in range(n)), [], False
        yield 'a message, a block and a global after %d literals' % n, "go [ | t | t := #(%s) size. t := (Array with: 'a' with: 'bcd') %s. ^(t inject: 0 into: [:a :b | a + b size]) + (self foo: Smalltalk size) + (self bar: self)]" % (
            n, ''.join(", #('%d')" % i for i in range(n))), 1 + 3 + sum(len(str(i)) for i in range(n)) + 7 + 4, ['foo: x [ ^7 ]', 'bar: x [ ^4 ]'], False
        yield '%d levels of parentheses' % n, 'go [ ^%s3%s ]' % ('(' * n, ')' * n), 3, [], False
        yield 'literal arrays nested %d deep' % n, 'go [ | a k | k := 0. a := %s#(5)%s. [a size = 1 and: [a first isArray]] whileTrue: [k := k + 1. a := a first]. ^k * 10 + a first]' % (
            '#(' * n, ')' * n), n * 10 + 5, [], False
    for n in R(0, 70):
        yield 'blocks nested %d deep' % n, 'go [ | t | t := 3. %s t := t + 1. %st%s ]' % ('^[ ' + '[ ' * (n - 1) if n else '', '' if n else '^', '] value' * n), 4, [], False
        yield 'blocks nested %d deep, a variable in each' % n, 'go [ | t0 | t0 := 1. ^%s %s%s ]' % (
            ''.join('[ | t%d | t%d := t%d + 1. ' % (i, i, i - 1) for i in R(1, n)), ' + '.join('t%d' % i for i in R(0, n)), '] value' * n), sum(R(1, n + 1)), [], False
        yield 'blocks nested %d deep, return' % n, 'go [ %s %s3%s. ^4 ]' % ('[ ' * n, '^' if n else '', '] value. 5' * n), 3 if n else 4, [], False
        if n:
            yield 'conditionals nested %d deep' % n, 'go [ | t | t := 0. %s t := t + 100 %s. ^t ]' % ('true ifTrue: [t := t + 1. ' * n, '. t := t + 1] ifFalse: [t := t - 1]' * n), 2 * n + 100, [], False
            yield 'values of conditionals nested %d deep' % n, 'go [ ^%s 100 %s ]' % ('1 + (self isNil ifTrue: [7] ifFalse: [' * n, '])' * n), n + 100, [], False
            yield 'and: nested %d deep' % n, 'go [ | t | t := 0. ^(%s t = %d %s) & (t = %d) ]' % ('(t := t + 1) > 0 and: [' * n, n, ']' * n, n), True, [], False
            yield 'or: of %d' % n, 'go [ | t | t := 0. ^(%s or: [t = %d]) & (t = %d) ]' % (' '.join((['((t := t + 1) > %d)' % n] + ['or: [(t := t + 1) > %d]' % n] * (n - 1))).replace(') or:', ') or:') if n == 1 else
                 '(' * (n - 1) + '((t := t + 1) > %d)' % n + (' or: [(t := t + 1) > %d])' % n) * (n - 1), n, n), True, [], False
        if 0 < n < 12:
            yield 'loops nested %d deep' % n, 'go [ | t | t := 0. %s t := t + 1%s. ^t ]' % (''.join('1 to: 2 do: [:i%d | ' % i for i in R(1, n)), ']' * n), 2 ** n, [], False
            yield 'while loops nested %d deep' % n, 'go [ | t %s | t := 0. %s t := t + 1%s. ^t ]' % (
                ' '.join('i%d' % i for i in R(1, n)), ''.join('i%d := 0. [(i%d := i%d + 1) <= 2] whileTrue: [' % (i, i, i) for i in R(1, n)), ']' * n), 2 ** n, [], False

    # lengths of jumps
    T = 't := t + 1. '
    lens = list(R(0, 60)) + ([] if not thorough else list(R(5440, 5475)) + list(R(6530, 6560)) + list(R(8170, 8200)) + list(R(9340, 9370)) + list(R(10900, 10930)))
    for n in lens:
        for pad in ('', 'self. ', 'u. ', '6 foo. ', 'u := t. '):
            b = pad.replace('6 foo', 'self yourself') + T * n
            yield 'ifTrue: with %d+%s' % (n, pad), 'go [ | t u | t := 0. true ifTrue: [%s]. ^t ]' % b, n, [], False
            yield 'ifTrue: not taken %d+%s' % (n, pad), 'go [ | t u | t := 0. self isNil ifTrue: [%s]. ^t ]' % b, 0, [], False
            if n > 300:                 # (methods over 200K crash the optimizer, which uses the C stack)
                yield 'whileTrue: %d+%s' % (n, pad), 'go [ | t u i | i := t := 0. [(i := i + 1) < 4] whileTrue: [%s]. ^t ]' % b, 3 * n, [], False
                yield 'to:do: %d+%s' % (n, pad), 'go [ | t u | t := 0. 1 to: 3 do: [:i | %s]. ^t ]' % b, 3 * n, [], False
                yield 'to:by:do: %d+%s' % (n, pad), 'go [ | t u | t := 0. 5 to: 1 by: -2 do: [:i | %s]. ^t ]' % b, 3 * n, [], False
                yield 'timesRepeat: %d+%s' % (n, pad), 'go [ | t u | t := 0. 3 timesRepeat: [%s]. ^t ]' % b, 3 * n, [], False
                yield 'ifTrue:ifFalse: %d+%s' % (n, pad), 'go [ | t u | t := 0. self isNil ifTrue: [^0] ifFalse: [%s]. self isNil ifFalse: [] ifTrue: [^5]. ^t ]' % b, n, [], False
                yield 'and: %d+%s' % (n, pad), 'go [ | t u | t := 0. ^(self isNil not and: [%s t = %d]) ]' % (b, n), True, [], False
                continue
            yield 'ifTrue:ifFalse: %d+%s' % (n, pad), 'go [ | t u | t := 0. self isNil ifTrue: [%s] ifFalse: [%s]. self isNil ifFalse: [%s] ifTrue: [%s]. ^t ]' % (b, b, b, b), 2 * n, [], False
            yield 'value of ifTrue:ifFalse: %d+%s' % (n, pad), 'go [ | t u | t := 0. ^(self isNil ifTrue: [%st * 2] ifFalse: [%st * 5]) + (self isNil ifFalse: [%st * 7] ifTrue: [%st * 11]) ]' % (b, b, b, b), 5 * n + 7 * 2 * n, [], False
            yield 'and: or: %d+%s' % (n, pad), 'go [ | t u | t := 0. ^(self isNil not and: [%s t = %d]) & (self isNil or: [%s t = %d]) & ((self isNil and: [%s t foo]) not) & (self isNil not or: [%s t foo]) ]' % (
                b, n, b, 2 * n, b, b), True, [], False
            yield 'whileTrue: %d+%s' % (n, pad), 'go [ | t u i | i := t := 0. [(i := i + 1) < 4] whileTrue: [%s]. ^t ]' % b, 3 * n, [], False
            yield 'whileFalse %d+%s' % (n, pad), 'go [ | t u i | i := t := 0. [%s (i := i + 1) >= 4] whileFalse. ^t ]' % b, 4 * n, [], False
            yield 'whileTrue: both %d+%s' % (n, pad), 'go [ | t u i | i := t := 0. [%s (i := i + 1) < 4] whileTrue: [%s]. ^t ]' % (b, b), 7 * n, [], False
            yield 'repeat %d+%s' % (n, pad), 'go [ | t u i | i := t := 0. [%s (i := i + 1) = 3 ifTrue: [^t]. %s] repeat ]' % (b, b), 5 * n, [], False
            yield 'to:do: %d+%s' % (n, pad), 'go [ | t u | t := 0. 1 to: 3 do: [:i | %s]. 5 to: 1 by: -2 do: [:i | %s]. 2 to: 1 do: [:i | %s]. ^t ]' % (b, b, b), 6 * n, [], False
            yield 'timesRepeat: %d+%s' % (n, pad), 'go [ | t u | t := 0. 3 timesRepeat: [%s]. 0 timesRepeat: [%s]. ^t ]' % (b, b), 3 * n, [], False
            yield 'ifNil: %d+%s' % (n, pad), 'go [ | t u | t := 0. u := self. ^(nil ifNil: [%s 3] ifNotNil: [:x | %s x foo]) + (self ifNil: [%s 4] ifNotNil: [:x | %s t * 10]) ]' % (b, b, b, b), 3 + 20 * n, [], False

    # one construct many times
    for title, src, f in SEQ:
        for n in R(1, 300 if thorough else 150):
            yield '%d times %s' % (n, title), 'go [ | t u i | t := 0. i := 0. %s ^t ]' % ((src + '. ') * n), f * n, [], 'do:' in title and n > 28
            if n % 10 == 1:
                yield '%d times %s, in a block' % (n, title), 'go [ | t u i | t := 0. i := 0. [ %s ] value. ^t ]' % ((src + '. ') * n), f * n, [], 'do:' in title and n > 28
                yield '%d times %s, in a conditional' % (n, title), 'go [ | t u i | t := 0. i := 0. self isNil ifFalse: [ %s ]. ^t ]' % ((src + '. ') * n), f * n, [], 'do:' in title and n > 28
                yield '%d times %s, in a loop' % (n, title), 'go [ | t u i | t := 0. i := 0. 1 to: 2 do: [ :k | %s ]. ^t ]' % ((src + '. ') * n), 2 * f * n, [], 'do:' in title and n > 28

    # constants
    ks = sorted(set(list(range(-300, 301)) + [s * (2 ** k) + d for k in (10, 15, 16, 17, 24, 29, 30, 31, 32, 33, 61, 62, 63, 64, 65, 100) for d in (-2, -1, 0, 1, 2) for s in (1, -1)]))
    for k in ks:
        yield 'integer %d' % k, 'go [ ^%d ]' % k, k, [], False
        yield 'integer %d in a block' % k, 'go [ ^[:x | x + %d] value: 1 ]' % k, k + 1, [], False
        yield 'integer %d twice' % k, 'go [ | t | t := %d. ^t + %d ]' % (k, k), 2 * k, [], False
        yield 'adding %d' % k, 'go [ | t | t := 1. [t := t + %d] value. ^(t - %d) + t ]' % (k, k), k + 2, [], False

    # line numbers
    for n in list(R(0, 20)) + list(R(250, 262)) + list(R(505, 520)) + (list(R(65530, 65540)) if thorough else []):
        nl = '\x01' * n
        yield '%d lines' % n, 'go [ | t | t := 0. %s t := t + 1. %s 1 to: 2 do: [:i | %s t := t + 1 ]. %s^[%s t := t + 3. %s t] value ]' % (nl, nl, nl, nl, nl, nl), 6, [], False
        yield '%d lines and conditions' % n, 'go [ | t | t := 0. %s self isNil %s ifTrue: [ %s t := 100 ] %s ifFalse: [%s t := t + 2. %s]. %s^t ]' % (nl, nl, nl, nl, nl, nl, nl), 2, [], False


SEQ = [
    ('assignment', 't := t + 1', 1),
    ('self', 'self. t := t + 1', 1),
    ('ifTrue:', 'self isNil not ifTrue: [t := t + 1]', 1),
    ('ifFalse:', 'self isNil ifFalse: [t := t + 1]', 1),
    ('ifTrue:ifFalse:', 'self isNil ifTrue: [t := 0] ifFalse: [t := t + 1]', 1),
    ('ifTrue:ifFalse: with a return', 'self isNil ifTrue: [^0] ifFalse: [t := t + 1]', 1),
    ('value of ifTrue:', 'u := self isNil ifTrue: [0]. u isNil ifTrue: [t := t + 1]', 1),
    ('value of ifTrue:ifFalse:', 't := self isNil ifTrue: [0] ifFalse: [t + 1]', 1),
    ('and:', 't = t and: [t := t + 1. t = 3]', 1),
    ('or:', 't = nil or: [t := t + 1. t = 3]', 1),
    ('value of and:', 'u := t = t and: [t := t + 1. t = t]. u ifTrue: [t := t + 2]', 3),
    ('to:do:', '1 to: 2 do: [:j | t := t + j]', 3),
    ('to:by:do:', '5 to: 1 by: -2 do: [:j | t := t + j]', 9),
    ('timesRepeat:', '3 timesRepeat: [t := t + 1]', 3),
    ('whileTrue:', 'i := 0. [(i := i + 1) < 3] whileTrue: [t := t + 1]', 2),
    ('whileFalse:', 'i := 0. [(i := i + 1) > 3] whileFalse: [t := t + 1]', 3),
    ('whileTrue', 'i := 0. [t := t + 1. (i := i + 1) < 3] whileTrue', 3),
    ('repeat', '[t := t + 1] value. self isNil ifTrue: [[t] repeat]', 1),
    ('ifNil:', 'self isNil ifTrue: [^0]. nil ifNil: [t := t + 1]', 1),
    ('ifNotNil:', 'self ifNotNil: [:x | t := t + 1]', 1),
    ('ifNil:ifNotNil:', 'nil ifNil: [t := t + 1] ifNotNil: [:x | t := 0]', 1),
    ('ifNotNil:ifNil:', 'nil ifNotNil: [:x | t := 0] ifNil: [t := t + 1]', 1),
    ('value of ifNotNil:', 'u := 3 ifNotNil: [:x | x + 1]. t := t + u', 4),
    ('cascade', 't := (Array new: 2) at: 1 put: 1; at: 2 put: t; yourself; at: 2. t := t + 1', 1),
    ('array', '{t. u}. t := {t + 1. u} first', 1),
    ('array literal', 't := #(1 2) first + t', 1),
    ('block', '[t := t + 1] value', 1),
    ('clean block', 't := t + ([:x | | y | y := x. y] value: 1)', 1),
    ('super', 'super yourself. t := t + 1', 1),
    ('nested assignment', 'u := i := t := t + 1', 1),
    ('thisContext', 'thisContext parentContext isNil ifFalse: [t := t + 1]', 1),
]


def fold(it):
    r = 0
    for x in it:
        r = (r * 7 + x) % 1009
    return r


def limits(c):
    cases = []
    for title, go, exp, others, may in sizes(None, None, THOROUGH):
        go = go.replace('\\ 1009', '\\\\ 1009')
        cases.append((title, go, show(exp), others, may))
    f = os.path.join(c.b.work, 'c08-sizes.txt')
    with open(f, 'w') as h:
        for title, go, exp, others, may in cases:
            h.write('\t'.join(['yn'[not may], exp] + others + [go]) + '\n')
    code = r"""
 | f k sub |
 f := FileStream open: '%s' mode: FileStream read.
 k := 0.
 sub := Subject new.
 [ f atEnd ] whileFalse: [ | line ok r |
   line := f nextLine.
   k \\ n = shard ifTrue: [
     line := line subStrings: (String with: Character tab).
     ok := true.
     3 to: line size do: [ :i |
        ok := ok and: [ (Subject compile: ((line at: i) asString replaceAll: (Character value: 1) with: Character nl) ifError: [ :a :b :c | ok := false ]) notNil and: [ ok ] ] ].
     r := ok ifTrue: [ [ sub go displayString ] on: Error do: [ :e | e return: e class printString, ' ', e messageText displayString ] ] ifFalse: [ 'rejected' ].
     ((line at: 1) = 'y' and: [ r = 'rejected' ]) ifTrue: [ r := line at: 2 ].
     out nextPutAll: r; nl ].
   k := k + 1 ]
""" % f

    def exp(shard, n):
        for i in range(shard, len(cases), n):
            yield '%s: %s' % (cases[i][0], cases[i][1][:80]), cases[i][2]
    seq.table(c, 'sizes', code, exp, pre=PRE)


def variables(c):
    """Every instance variable of classes of any size, by every kind of access."""
    ns = [n for n in list(range(1, 20)) + [30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258] + ([300, 400] if THOROUGH else [])]
    code = r"""
 #(%s) doWithIndex: [ :m :k | k \\ n = shard ifTrue: [ | cls names obj bad |
   names := (1 to: m) collect: [ :i | 'v', i printString ].
   cls := Subject subclass: ('Lim', m printString) asSymbol instanceVariableNames: (names inject: '' into: [ :a :b | a, ' ', b ])
      classVariableNames: (names inject: '' into: [ :a :b | a, ' C', b ]) poolDictionaries: '' category: 'none'.
   names doWithIndex: [ :v :i |
      cls compile: 's', v, ': x [ ', v, ' := x ]'.
      cls compile: 'g', v, ' [ ^', v, ' ]'.
      cls compile: 'h', v, ' [ | t | t := ', v, '. ^[ :x | { t. ', v, '. x. C', v, ' } ] value: ', i printString, ' ]'.
      cls compile: 'k', v, ': x [ | t | t := ', v, '. C', v, ' := x. [ ', v, ' := x ] value. ^t ]'.
      cls compile: 'l', v, ' [ ^#C', v, ' ]' ].
   obj := cls new.
   bad := 0.
   names doWithIndex: [ :v :i | (obj perform: ('s', v, ':') asSymbol with: i * 3) == obj ifFalse: [ bad := bad + 1 ] ].
   names doWithIndex: [ :v :i | (obj perform: ('g', v) asSymbol) = (i * 3) ifFalse: [ bad := bad + 1 ].
       (obj instVarAt: i + 2) = (i * 3) ifFalse: [ bad := bad + 1 ] ].
   names doWithIndex: [ :v :i | (obj perform: ('k', v, ':') asSymbol with: i * 5) = (i * 3) ifFalse: [ bad := bad + 1 ] ].
   names doWithIndex: [ :v :i | (obj perform: ('h', v) asSymbol) = {i * 5. i * 5. i. i * 5} ifFalse: [ bad := bad + 1 ].
       (obj perform: ('l', v) asSymbol) == ('C', v) asSymbol ifFalse: [ bad := bad + 1 ] ].
   (obj instVarAt: 1) isNil & (obj instVarAt: 2) isNil ifFalse: [ bad := bad + 1 ].
   out print: m; nextPutAll: ' variables, bad: '; print: bad; nl ] ]
""" % ' '.join(map(str, ns))

    def exp(shard, n):
        for k, m in enumerate(ns, 1):
            if k % n == shard:
                yield '%d instance variables' % m, '%d variables, bad: 0' % m
    seq.table(c, 'instance variables', code, exp, pre=PRE, weight=1)


def main():
    with Check('C08') as c:
        if not os.environ.get('MC_ONLY'):
            for name, full, q, t in (('all', True, 5, 5), ('deep', False, 5, 6)):
                progs(c, name, full, t if THOROUGH else q)
        limits(c)
        variables(c)


if __name__ == '__main__':
    main()
