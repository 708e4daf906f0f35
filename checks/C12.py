"""C12: process lifecycle and priorities, in every schedule."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
from scen import scen, bad_end
import seq

S = []


def add(name, text, judge, quick=2, thorough=3):
    S.append((name, text, judge, quick, thorough))


def want(*rx, no=()):
    def judge(o):
        r = bad_end(o)
        if r:
            return r
        for x in rx:
            if not re.search(x, o):
                return 'no match for %s' % x
        for x in no:
            if re.search(x, o):
                return 'must not match %s' % x
        return None
    return judge


KILL = '''
 kill := Semaphore new. done := Semaphore new.
 [ kill wait. MC log: 'K'. p terminate. MC log: 'k'. done signal ] forkAt: Processor highIOPriority.
'''
ENDKILL = ''' done wait. MC sched: 0. MC log: ' '. [ p isTerminated ] whileFalse: [ Processor yield ]. MC log: 't' '''

# terminated at any point: the ensure blocks of what it was executing run exactly once, innermost first
def ens(o):
    r = bad_end(o)
    if r:
        return r
    if o.count('t') != 1 or o.count('K') != 1 or o.count('k') != 1:
        return 'not terminated once'
    for n in 'ab':
        i, f = o.count(n), o.count(n.upper())
        if i != f and not (i == 0 and f == 1):
            return 'body %s entered %d times, its ensure block ran %d times' % (n, i, f)
    if 'A' in o and 'B' in o and o.index('A') < o.index('B'):
        return 'outer ensure block ran first'
    if o.count('c') and o.count('C') + o.count('x') != 1:
        return 'ifCurtailed block ran %d times for an unwound body' % o.count('C')
    return None

add('terminate-ensure', scen('kill done p', '''
 p := [ [ MC log: 'a'. [ MC log: 'b'. Processor yield. MC disarm: kill. ] ensure: [ MC log: 'B' ] ] ensure: [ MC log: 'A' ]. ] newProcess.
 MC arm: kill. [ p resume ] on: SystemExceptions.ProcessTerminated do: [ :e | e return ].
 [ MC log: '.' ] fork.
 Processor yield. Processor yield. MC sched: 0. 5 timesRepeat: [ Processor yield ]. kill signal.''' + ENDKILL, setup=KILL), ens, 1, 2)

add('terminate-curtailed', scen('kill done p', '''
 p := [ [ MC log: 'c'. Processor yield. MC disarm: kill. MC log: 'x' ] ifCurtailed: [ MC log: 'C' ] ] newProcess.
 MC arm: kill. [ p resume ] on: SystemExceptions.ProcessTerminated do: [ :e | e return ].
 Processor yield. Processor yield. MC sched: 0. 5 timesRepeat: [ Processor yield ]. kill signal.''' + ENDKILL, setup=KILL), ens, 2, 3)

# terminated while waiting on a semaphore: the wait never completes and the signal goes to somebody else
add('terminate-waiting', scen('kill done p sem q', '''
 p := [ [ MC log: 'a'. sem wait. MC disarm: kill. MC log: 'w' ] ensure: [ MC log: 'A' ] ] fork.
 MC arm: kill.
 q := [ sem signal. done signal ] fork.
 done wait. MC sched: 0. 3 timesRepeat: [ Processor yield ]. kill signal.''' + ENDKILL + '''. MC log: sem signals printString, sem size printString ''', setup=KILL + ' sem := Semaphore new'),
    lambda o: (None if re.search('wK.*t00', o) else ens(o)) or (None if re.search(r't[01]0\.$', o) else 'waiters left')
    or ('signal lost' if ('w' not in o and 'K' in o and o.endswith('00.') and o.find('a') < 0) else None), 2, 3)

# terminated at the very end of its life, at any point: nothing hangs and later processes work
add('terminate-at-end', scen('kill done p', '''
 p := [ MC arm: kill. MC log: 'b' ] newProcess. p resume.
 [ p isTerminated ] whileFalse: [ Processor yield ].
 MC sched: 0. MC disarm: kill. kill signal. done wait.
 [ MC log: 'n'. done signal ] fork. done wait. MC log: (p isTerminated ifTrue: ['t'] ifFalse: ['T'])''', setup=KILL),
    want(r'nt\.$'), 1, 2)

# terminate is idempotent, from two processes
add('terminate-twice', scen('done p s', '''
 p := [ [ MC log: 'a'. s wait ] ensure: [ MC log: 'A' ] ] fork.
 [ p terminate. done signal ] fork. [ p terminate. done signal ] fork.
 done wait. done wait. MC sched: 0. [ p isTerminated ] whileFalse: [ Processor yield ]. MC log: 't', s size printString''',
    setup=' done := Semaphore new. s := Semaphore new'), lambda o: bad_end(o) or (None if o in ('aAt0.', 't0.', 'At0.') else 'unexpected'), 1, 2)

# self termination
add('terminate-self', scen('done p', '''
 p := [ [ MC log: 'a'. Processor activeProcess terminate. MC log: '!' ] ensure: [ MC log: 'A'. done signal ] ] fork.
 done wait. MC sched: 0. [ p isTerminated ] whileFalse: [ Processor yield ]. MC log: 't' ''',
    setup=' done := Semaphore new'), lambda o: bad_end(o) or (None if o == 'aAt.' else 'unexpected'))

# resume after newProcess is never lost; a suspended process does not run until resumed
add('new-resume', scen('done p int', '''
 MC arm: int.
 p := [ MC log: 'r'. done signal ] newProcess.
 MC log: 'n'. p resume. done wait. MC log: 'd'. ''', setup='''
 done := Semaphore new. int := Semaphore new.
 [ int wait. MC log: 'i' ] forkAt: Processor highIOPriority.'''),
    lambda o: bad_end(o) or (None if o.replace('i', '') == 'nrd.' else 'unexpected'), 2, 2)

add('suspend-resume', scen('done p flag', '''
 p := [ MC log: 'a'. Processor activeProcess suspend. flag ifTrue: [ MC log: 'b' ] ifFalse: [ MC log: '!' ]. done signal ] fork.
 [ p isSuspended ] whileFalse: [ Processor yield ].
 MC log: 's'. flag := true. p resume. done wait. MC log: 'd' ''', setup='flag := false. done := Semaphore new'),
    lambda o: bad_end(o) or (None if o == 'asbd.' else 'unexpected'))

add('suspend-other', scen('done p q n', '''
 p := [ [ n := n + 1. Processor yield ] repeat ] fork.
 q := [ p suspend. MC log: (p isSuspended ifTrue: ['s'] ifFalse: ['!']). done signal ] fork.
 done wait. MC sched: 0. m := n. 3 timesRepeat: [ Processor yield ]. MC log: (m = n ifTrue: ['='] ifFalse: ['#']).
 p resume. Processor yield. Processor yield. MC log: (m < n ifTrue: ['<'] ifFalse: ['>']).
 p terminate. Processor yield. m := n. Processor yield. MC log: (m = n ifTrue: ['='] ifFalse: ['#'])'''
 .replace('m := n. 3', '| := n. 3').replace('| :=', 'm :='), setup='n := 0. done := Semaphore new').replace('| done p q n |', '| done p q n m |'),
    lambda o: bad_end(o) or (None if o == 's=<=.' else 'unexpected'))

# priorities: a ready process never runs while one of higher priority is ready, and running it takes precedence at once
PRI = '''
 run := OrderedCollection new. done := Semaphore new.
 note := [ :k | MC log: k ].
'''
add('priority-order', scen('done', '''
 [ MC log: '3'. done signal ] forkAt: 3.
 [ MC log: '2'. done signal ] forkAt: 2.
 [ MC log: '5'. done signal ] forkAt: 5.
 MC log: '4'.
 [ MC log: '3'. done signal ] forkAt: 3.
 [ MC log: '6'. done signal ] forkAt: 6.
 MC log: '4'. 5 timesRepeat: [ done wait ]''', setup=' done := Semaphore new'),
    lambda o: bad_end(o) or (None if o.startswith('5464') and sorted(o) == sorted('5464332.') else 'priority order violated'), 2, 3)

# Fork/yield of a low priority process next to yielding processes (it must not run before the others block)
add('priority-yield', scen('done', '''
 [ MC log: 'l'. done signal ] forkAt: 3.
 [ MC log: 'a'. Processor yield. MC log: 'A'. done signal ] fork.
 [ MC log: 'b'. Processor yield. MC log: 'B'. done signal ] fork.
 MC log: 'm'. done wait. done wait. done wait''', setup=' done := Semaphore new'),
    lambda o: bad_end(o) or (None if o.endswith('l.') and sorted(o) == sorted('aAbBml.') and o.index('a') < o.index('A') and o.index('b') < o.index('B')
                             else 'a lower priority process ran before higher priority ones'), 0, 0)

add('priority-change', scen('done p q', '''
 p := [ MC log: 'p'. done signal ] forkAt: 3.
 q := [ MC log: 'q'. done signal ] forkAt: 2.
 MC log: '1'. q priority: 5. MC log: '2'. p priority: 4. MC log: '3'. Processor yield. MC log: '4'.
 done wait. done wait. MC log: p priority printString, q priority printString''', setup=' done := Semaphore new'),
    lambda o: bad_end(o) or (None if re.fullmatch(r'1q2(3p4|p34|34p)45\.', o) else 'unexpected'), 2, 3)

add('priority-lower-self', scen('done q', '''
 q := [ MC log: 'q'. Processor activeProcess priority: 2. Processor yield. MC log: 'r'. done signal ] forkAt: 5.
 MC log: '1'. [ MC log: '3'. done signal ] forkAt: 3. MC log: '2'. done wait. done wait''', setup=' done := Semaphore new'),
    lambda o: bad_end(o) or (None if o == 'q123r.' else 'unexpected'), 3, 4)

add('priority-signal', scen('done s', '''
 [ s wait. MC log: 'h'. done signal ] forkAt: 6.
 [ s wait. MC log: 'l'. done signal ] forkAt: 3.
 MC log: '1'. s signal. MC log: '2'. s signal. MC log: '3'. done wait. done wait''', setup=' done := Semaphore new. s := Semaphore new'),
    lambda o: bad_end(o) or (None if o == '1h23l.' else 'unexpected'), 3, 4)

# yield is fair among processes of the same priority
add('yield-round-robin', scen('done', '''
 MC sched: 0.
 #('a' 'b' 'c') do: [ :k | [ 3 timesRepeat: [ MC log: k. Processor yield ]. done signal ] forkAt: 3 ].
 3 timesRepeat: [ done wait ]''', setup=' done := Semaphore new'),
    lambda o: bad_end(o) or (None if re.fullmatch(r'(abc){3}\.', o) else 'not round robin'), 0, 0)

# interrupts disabled: no external event is delivered, even across a voluntary switch
add('interrupts-disabled', scen('done int in', '''
 MC arm: int.
 [ Processor disableInterrupts. in := true. MC log: 'a'. Processor yield. MC log: 'b'. MC log: 'c'. in := false. Processor enableInterrupts. done signal ] fork.
 [ MC log: '1'. done signal ] fork.
 done wait. done wait. MC sched: 0. done wait.''', setup='''
 done := Semaphore new. int := Semaphore new. in := false.
 [ int wait. MC log: 'i'. done signal ] forkAt: Processor highIOPriority.'''),
    want(r'a.*bc', no=(r'bic', r'b1c')), 2, 3)
add('without-preemption', scen('done int r', '''
 MC arm: int.
 r := [ [ MC log: 'a'. MC log: 'b'. 7 ] valueWithoutPreemption. MC log: 'c'. done signal ] fork.
 [ MC log: '1'. done signal ] fork.
 done wait. done wait. MC sched: 0. done wait.''', setup='''
 done := Semaphore new. int := Semaphore new.
 [ int wait. MC log: 'i'. done signal ] forkAt: Processor highIOPriority.'''), want(r'ab', r'ab.*c'), 2, 3)
add('without-preemption-nested', scen('done int', '''
 MC arm: int.
 [ [ MC log: 'a'. [ MC log: '-' ] valueWithoutPreemption. MC log: 'b' ] valueWithoutPreemption.
   [ [ nil foo ] on: Error do: [ :e | e return: 3 ] ] valueWithoutPreemption.
   MC log: (Processor activeProcess externalInterruptsEnabled ifTrue: ['e'] ifFalse: ['!']). done signal ] fork.
 [ MC log: '1'. done signal ] fork.
 done wait. done wait. MC sched: 0. done wait.''', setup='''
 done := Semaphore new. int := Semaphore new.
 [ int wait. MC log: 'i'. done signal ] forkAt: Processor highIOPriority.'''), want(r'a-b', r'e'), 1, 2)

# queueInterrupt: runs the block exactly once in that process, and what it interrupted goes on
add('queueInterrupt', scen('done p kill me', '''
 p := [ MC log: 'a'. x := 1. x := x + 1. MC log: 'b'. MC disarm: kill. done signal ] newProcess.
 p resume. MC arm: kill. done wait. MC sched: 0. 
 3 timesRepeat: [ Processor yield ].''', setup='''
 done := Semaphore new. kill := Semaphore new.
 [ kill wait. MC log: 'K'. p queueInterrupt: [ MC log: (Processor activeProcess == p ifTrue: ['I'] ifFalse: ['!']) ]. MC log: 'k' ] forkAt: Processor highIOPriority.''').replace('x := 1. x := x + 1.', 'me := 1. me := me + 1.'),
    lambda o: bad_end(o) or (None if o == 'abK.' or re.fullmatch(r'ab\.', re.sub('[KkI]', '', o)) and o.count('I') == o.count('K') == o.count('k') and '!' not in o else 'unexpected'))
add('queueInterrupt-waiting', scen('done p s kill', '''
 p := [ MC log: 'a'. s wait. MC log: 'b'. MC disarm: kill. done signal ] newProcess.
 p resume. MC arm: kill. [ MC log: 's'. s signal ] fork. done wait. MC sched: 0.
 3 timesRepeat: [ Processor yield ]. MC log: s signals printString''', setup='''
 done := Semaphore new. kill := Semaphore new. s := Semaphore new.
 [ kill wait. MC log: 'K'. p queueInterrupt: [ MC log: 'I' ]. MC log: 'k' ] forkAt: Processor highIOPriority.'''),
    lambda o: bad_end(o) or (None if re.fullmatch('(as|sa)bK0.', o) or re.fullmatch(r'(as|sa)b0\.', re.sub('[KkI]', '', o)) and o.count('I') == o.count('K') == o.count('k') else 'unexpected'), 2, 3)
# interrupted while suspended: suspended again afterwards
add('queueInterrupt-suspended', scen('done p', '''
 p := [ MC log: 'b'. done signal ] newProcess.
 [ p queueInterrupt: [ MC log: 'I' ]. done signal ] fork. done wait. MC sched: 0. 3 timesRepeat: [ Processor yield ].
 MC log: (p isSuspended ifTrue: ['s'] ifFalse: ['!']). p resume. done wait''', setup=' done := Semaphore new'),
    lambda o: bad_end(o) or (None if o == 'Isb.' else 'unexpected'))

# process-local state and exceptions stay in their process
add('exceptions-per-process', scen('done', '''
 [ [ MC log: 'a'. 3 zork. MC log: '!' ] on: Error do: [ :e | MC log: 'A'. Processor yield. e return: 1 ]. done signal ] fork.
 [ [ MC log: 'b'. nil zork. MC log: 'r' ] on: Error do: [ :e | MC log: 'B'. e resume: 1 ]. done signal ] fork.
 done wait. done wait''', setup=' done := Semaphore new'),
    lambda o: bad_end(o) or (None if re.fullmatch('aA', re.sub('[bBr.]', '', o)) and re.fullmatch('bBr', re.sub('[aA.]', '', o)) else 'unexpected'), 1, 2)
add('environment', scen('done v', '''
 [ Processor activeProcess environment at: #x put: 1. v value: (Processor activeProcess environment at: #x). done signal ] fork.
 [ Processor activeProcess environment at: #x put: 2. v value: (Processor activeProcess environment at: #x). done signal ] fork.
 done wait. done wait''', setup=" done := Semaphore new. v := [ :k | MC log: k printString ]"),
    lambda o: bad_end(o) or (None if sorted(o) == list('.12') else 'unexpected'), 1, 2)
add('variable-per-process', scen('done v', '''
 [ v use: 1 during: [ Processor yield. MC log: v value printString ]. MC log: 'a'. done signal ] fork.
 [ v use: 2 during: [ MC log: v value printString ]. MC log: (v value isNil ifTrue: ['b'] ifFalse: ['!']). done signal ] fork.
 done wait. done wait''', setup=" done := Semaphore new. v := ProcessVariable new"),
    lambda o: bad_end(o) or (None if sorted(o) == list('.12ab') and o.index('1') < o.index('a') and o.index('2') < o.index('b') else 'unexpected'), 1, 2)
add('fork-many', scen('done', '''
 #(1 2 3 4) do: [ :i | [ MC log: i printString. done signal ] fork ].
 4 timesRepeat: [ done wait ]''', setup=' done := Semaphore new'),
    lambda o: bad_end(o) or (None if sorted(o) == list('.1234') else 'unexpected'), 1, 2)
add('generator-process', scen('done', '''
 [ [ MC log: 'a'. done signal ] newProcess resume; yourself ] fork.
 [ [ :x | MC log: x. done signal ] newProcessWith: #('b') ] value resume. 
 ([ :x | MC log: x. done signal ] newProcessWith: #('c')) resume.
 done wait. done wait. done wait''', setup=' done := Semaphore new'),
    lambda o: bad_end(o) or (None if sorted(o) == list('.abc') else 'unexpected'), 1, 2)



# ---------------------------------------------------- histories of scheduling operations
# The main process has priority 5; process I repeats: log I, wait for its semaphore.  The order of
# processes of equal priority is not compared.
SCHED = r'''
Object subclass: Sched [
  | p s log |
  init [ Processor activeProcess priority: 5. log := OrderedCollection new. s := (1 to: 3) collect: [ :i | Semaphore new ].
    p := (1 to: 3) collect: [ :i | [ [ log add: Processor activePriority * 10 + i. (s at: i) wait ] repeat ] newProcess ].
    p with: #(3 4 3) do: [ :x :k | x priority: k ] ]
  resume: i [ (p at: i) isSuspended ifTrue: [ (p at: i) isTerminated ifFalse: [ (p at: i) resume ] ] ]
  suspend: i [ (p at: i) isTerminated ifFalse: [ (p at: i) suspend ] ]
  signal: i [ (s at: i) signal ]
  set: i to: k [ (p at: i) priority: k ]
  terminate: i [ (p at: i) terminate. self settle ]
  settle [ | idle | idle := Semaphore new. [ idle signal ] forkAt: 1. idle wait ]
  state [ ^(1 to: 3) collect: [ :i | | x | x := p at: i. x priority * 10 + (x isTerminated ifTrue: [ 0 ] ifFalse: [ x isSuspended ifTrue: [ 1 ] ifFalse: [ x isWaiting ifTrue: [ 2 ] ifFalse: [ 3 ] ] ]) ] ]
  runs [ "sort runs of equal priority" | r g |
    r := OrderedCollection new. g := SortedCollection new.
    log do: [ :e | (g isEmpty or: [ g first // 10 = (e // 10) ]) ifFalse: [ r addAll: g. g := SortedCollection new ]. g add: e ].
    r addAll: g. log := OrderedCollection new. ^r asArray ]
  show [ | a b c d | a := self state. b := self runs. self settle. c := self runs. d := self state.
    p do: [ :x | x isSuspended ifTrue: [ x terminate ] ]. 
    ^a, #(-1), b, #(-2), c, #(-3), d ]
]
'''


class Sched:
    def __init__(self):
        self.st, self.pri, self.sig, self.log = [1, 1, 1], [3, 4, 3], [0, 0, 0], []

    def run(self, least):
        while True:
            r = [i for i in range(3) if self.st[i] == 3 and self.pri[i] >= least]
            if not r:
                return
            i = max(r, key=lambda i: self.pri[i])
            self.log.append(self.pri[i] * 10 + i + 1)
            if self.sig[i]:
                self.sig[i] -= 1
            else:
                self.st[i] = 2

    def resume(self, i):
        if self.st[i - 1] == 1:
            self.st[i - 1] = 3
            self.run(6)

    def suspend(self, i):
        if self.st[i - 1]:
            self.st[i - 1] = 1

    def signal(self, i):
        if self.st[i - 1] == 2:
            self.st[i - 1] = 3
            self.run(6)
        else:
            self.sig[i - 1] += 1

    def set(self, i, k):
        self.pri[i - 1] = k
        self.run(6)

    def terminate(self, i):
        self.st[i - 1] = 0
        self.run(0)

    def runs(self):
        r, g = [], []
        for e in self.log:
            if g and g[0] // 10 != e // 10:
                r += sorted(g)
                g = []
            g.append(e)
        self.log = []
        return r + sorted(g)

    def state(self):
        return [self.pri[i] * 10 + self.st[i] for i in range(3)]

    def show(self):
        a, b = self.state(), self.runs()
        self.run(0)
        return seq.py_print(a + [-1] + b + [-2] + self.runs() + [-3] + self.state())


def o(st, f):
    return ('s %s. nil' % st, lambda s: f(s) and None)


SOPS = [o('resume: %d' % i, lambda s, i=i: s.resume(i)) for i in (1, 2, 3)] + \
    [o('suspend: %d' % i, lambda s, i=i: s.suspend(i)) for i in (1, 2)] + \
    [o('signal: %d' % i, lambda s, i=i: s.signal(i)) for i in (1, 2)] + \
    [o('set: %d to: %d' % (i, k), lambda s, i=i, k=k: s.set(i, k)) for i, k in ((1, 2), (1, 4), (1, 6), (2, 3))] + \
    [o('settle', lambda s: s.run(0)), o('terminate: 1', lambda s: s.terminate(1))]

with Check('C12') as c:
    only = sys.argv[1:]
    if not only or 'seq' in only:
        seq.sequences(c, 'operations on processes', make='Sched new init; yourself', ops=SOPS, show='s show printString', pymake=Sched, pyshow=lambda s: s.show(),
                      depth=5 if THOROUGH else 4, pre=SCHED, fmt="''", pyfmt=lambda r: '')
    for name, text, judge, q, t in S:
        if only and name not in only:
            continue
        c.explore(name, text, judge, bound=t if THOROUGH else q, keyfn=lambda o, name=name: name + ':' + o.replace(' ', '_'))
