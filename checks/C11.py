"""C11: mutual exclusion and no lost signals, in every schedule."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
from scen import scen, bad_end


def excl(final, killed=False):
    """e<k>/l<k> pairs never overlap; the outcome ends with FINAL (a regex)."""
    def judge(o):
        r = bad_end(o)
        if r:
            return r
        inside = None
        gone = False
        for op, k, kill in re.findall(r'([el])(\d)|(K)', o):
            if kill:
                gone = killed
            elif op == 'e':
                if inside is not None and not (gone and inside == '1'):
                    return 'processes %s and %s are both in the critical section' % (inside, k)
                inside = k
            elif op == 'l':
                if inside != k and inside is not None:
                    return 'process %s leaves a section it is not in' % k
                inside = None
        if inside is not None and not (gone and inside == '1'):
            return 'process %s never left' % inside
        if not re.search(final, o):
            return 'unexpected final state (want %s)' % final
        return None
    return judge


def matches(rx):
    def judge(o):
        r = bad_end(o)
        if r:
            return r
        return None if re.fullmatch(rx, o) else 'unexpected outcome (want %s)' % rx
    return judge


S = []


def add(name, text, judge, quick=2, thorough=3):
    S.append((name, text, judge, quick, thorough))


SEMSTATE = " MC sched: 0. MC log: ' s', sem signals printString, 'w', sem size printString."

add('critical', scen('sem done body', '''
 (body value: '1') fork. (body value: '2') fork.
 done wait. done wait.''' + SEMSTATE, setup='''
 sem := Semaphore forMutualExclusion. done := Semaphore new.
 body := [:n | [ sem critical: [ MC log: 'e', n. MC log: 'l', n ]. done signal ] ].'''),
    excl(r' s1w0\.$'))

add('critical3', scen('sem done body', '''
 (body value: '1') fork. (body value: '2') fork. (body value: '3') fork.
 done wait. done wait. done wait.''' + SEMSTATE, setup='''
 sem := Semaphore forMutualExclusion. done := Semaphore new.
 body := [:n | [ sem critical: [ MC log: 'e', n. MC log: 'l', n ]. done signal ] ].'''),
    excl(r' s1w0\.$'), 1, 2)

# the section is left through an exception, a return or an unwind
add('critical-error', scen('sem done', '''
 [ [ sem critical: [ MC log: 'e1'. [ nil foo: 3 ] ensure: [ MC log: 'l1' ] ] ] on: Error do: [ :e | e return: nil ]. done signal ] fork.
 [ sem critical: [ MC log: 'e2'. MC log: 'l2' ]. done signal ] fork.
 done wait. done wait.''' + SEMSTATE, setup='''
 sem := Semaphore forMutualExclusion. done := Semaphore new.'''),
    excl(r' s1w0\.$'), 1, 2)

# one process is terminated, at any point, by a high priority process
TERM = '''
 kill := Semaphore new.
 [ kill wait. MC log: 'K'. p1 terminate. MC log: 'k' ] forkAt: Processor highIOPriority.
'''
add('critical-terminate', scen('sem done kill p1 p2', '''
 p1 := [ sem critical: [ MC log: 'e1'. MC log: 'l1'. MC disarm: kill ] ] newProcess.
 MC arm: kill. [ p1 resume ] on: SystemExceptions.ProcessTerminated do: [ :e | e return ].
 [ sem critical: [ MC log: 'e2'. MC log: 'l2' ]. done signal ] fork.
 done wait.
 MC sched: 0. [ p1 isTerminated ] whileFalse: [ Processor yield ].
''' + SEMSTATE, setup=TERM + '''
 sem := Semaphore forMutualExclusion. done := Semaphore new.'''),
    excl(r'e2.*l2.* s1w0\.$', True))

# terminated while waiting for the lock, which is held meanwhile
add('critical-terminate-waiter', scen('sem done kill p1 go', '''
 p1 := [ sem critical: [ MC log: 'e1'. MC log: 'l1'. MC disarm: kill ] ] newProcess.
 [ sem critical: [ MC log: 'e2'. go signal. Processor yield. MC log: 'l2' ]. done signal ] fork.
 go wait. MC arm: kill. [ p1 resume ] on: SystemExceptions.ProcessTerminated do: [ :e | e return ].
 [ sem critical: [ MC log: 'e3'. MC log: 'l3' ]. done signal ] fork.
 done wait. done wait. 
 MC sched: 0. [ p1 isTerminated ] whileFalse: [ Processor yield ].
''' + SEMSTATE, setup=TERM + '''
 sem := Semaphore forMutualExclusion. done := Semaphore new. go := Semaphore new.'''),
    excl(r'e3.*l3.* s1w0\.$', True), 1, 2)

LOCKSTATE = " MC sched: 0. MC log: (lock wouldBlock ifTrue: [' held'] ifFalse: [' free']). MC log: (lock isOwnerProcess ifTrue: ['!'] ifFalse: ['']). MC log: 'w', lock waitingProcesses size printString."
LSETUP = ' lock := RecursionLock new. done := Semaphore new.'
add('recursion', scen('lock done body', '''
 (body value: '1') fork. (body value: '2') fork.
 done wait. done wait.''' + LOCKSTATE, setup=LSETUP + '''
 body := [:n | [ lock critical: [ lock critical: [ MC log: 'e', n ]. MC log: (lock isOwnerProcess ifTrue: ['+'] ifFalse: ['-']). lock critical: [ MC log: 'l', n ]]. done signal ] ].'''),
    lambda o: excl(r' freew0\.$')(o) or ('not the owner inside' if '-' in o else None))

add('recursion-terminate', scen('lock done kill p1', '''
 p1 := [ lock critical: [ lock critical: [ MC log: 'e1'. MC log: '+'. MC log: 'l1'. MC disarm: kill ] ] ] newProcess.
 MC arm: kill. [ p1 resume ] on: SystemExceptions.ProcessTerminated do: [ :e | e return ].
 [ lock critical: [ MC log: 'e2'. MC log: 'l2' ]. done signal ] fork.
 done wait.
 MC sched: 0. [ p1 isTerminated ] whileFalse: [ Processor yield ].
''' + LOCKSTATE, setup=TERM + LSETUP), excl(r'e2.*l2.* freew0\.$', True), 1, 2)

add('recursion-error', scen('lock done', '''
 [ [ lock critical: [ MC log: 'e1'. lock critical: [ [ nil foo: 3 ] ensure: [ MC log: 'l1' ] ] ] ] on: Error do: [ :e | e return: nil ]. done signal ] fork.
 [ lock critical: [ MC log: 'e2'. MC log: 'l2' ]. done signal ] fork.
 done wait. done wait.''' + LOCKSTATE, setup=LSETUP), excl(r' freew0\.$'), 1, 2)

# a higher priority process enters the section as soon as an interrupt wakes it up
add('critical-interrupt', scen('sem done int', '''
 MC arm: int.
 [ sem critical: [ MC log: 'e1'. MC log: 'l1' ]. done signal ] fork.
 [ sem critical: [ MC log: 'e2'. MC log: 'l2' ]. done signal ] fork.
 done wait. done wait. done wait.''' + SEMSTATE, setup='''
 sem := Semaphore forMutualExclusion. done := Semaphore new. int := Semaphore new.
 [ int wait. sem critical: [ MC log: 'e3'. MC log: 'l3' ]. done signal ] forkAt: Processor highIOPriority.'''),
    excl(r' s1w0\.$'))

# counting: each signal lets exactly one wait go on
add('counting', scen('sem done', '''
 [ sem wait. MC log: 'A'. done signal ] fork.
 [ sem wait. MC log: 'B'. done signal ] fork.
 [ sem signal. sem signal. sem signal. done signal ] fork.
 3 timesRepeat: [ done wait ].''' + SEMSTATE, setup='''
 sem := Semaphore new. done := Semaphore new.'''), matches(r'(AB|BA) s1w0\.'))

add('counting-interrupt', scen('sem done int', '''
 MC arm: int. MC arm: sem.
 [ sem wait. MC log: 'A'. done signal ] fork.
 [ sem wait. MC log: 'B'. done signal ] fork.
 3 timesRepeat: [ done wait ].''' + SEMSTATE, setup='''
 sem := Semaphore new. done := Semaphore new. int := Semaphore new.
 [ int wait. sem signal. done signal ] forkAt: Processor highIOPriority.'''), matches(r'(AB|BA) s0w0\.'), 1, 2)

# waiters are served first come, first served
add('fifo', scen('sem done q', '''
 #('A' 'B' 'C') do: [ :n | [ q nextPutAll: n. sem wait. MC log: n. done signal ] fork ].
 [ sem signal. sem signal. sem signal. done signal ] fork.
 4 timesRepeat: [ done wait ]. ''' + SEMSTATE, setup='''
 sem := Semaphore new. done := Semaphore new. q := WriteStream on: String new.'''),
    matches(r'(ABC|ACB|BAC|BCA|CAB|CBA) s0w0\.'), 1, 2)
add('fifo-nonpreempted', scen('sem done', '''
 #('A' 'B' 'C' 'D') do: [ :n | [ sem wait. MC log: n. done signal ] forkAt: Processor userInterruptPriority ].
 [ sem signal. sem signal. done signal ] fork. [ sem signal. sem signal. done signal ] fork.
 6 timesRepeat: [ done wait ]. ''' + SEMSTATE, setup='''
 sem := Semaphore new. done := Semaphore new.'''), matches(r'ABCD s0w0\.'), 2, 3)

# notify wakes up at most one waiter and notifyAll all of them; neither leaves a signal
add('notify', scen('sem done n', '''
 [ sem wait. MC log: 'A'. done signal ] fork.
 [ sem wait. MC log: 'B'. done signal ] fork.
 [ sem notify. done signal ] fork.
 done wait. MC sched: 0. 1 to: 5 do: [ :i | Processor yield ]. ''' + SEMSTATE + '''
 sem notifyAll. 1 to: 5 do: [ :i | Processor yield ]. ''' + SEMSTATE, setup='''
 sem := Semaphore new. done := Semaphore new.'''),
    matches(r'(A? s-1w1B? s0w0|A s-1w1B s0w0|B s-1w1A s0w0| s-2w2(AB|BA) s0w0)\.'))

add('waitAfterSignalling', scen('cond lock done flag', '''
 [ lock wait. flag ifFalse: [ cond waitAfterSignalling: lock. lock wait ]. MC log: (flag ifTrue: ['A'] ifFalse: ['a']). lock signal. done signal ] fork.
 [ lock wait. flag ifFalse: [ cond waitAfterSignalling: lock. lock wait ]. MC log: (flag ifTrue: ['B'] ifFalse: ['b']). lock signal. done signal ] fork.
 [ lock wait. flag := true. cond notifyAll. lock signal. done signal ] fork.
 3 timesRepeat: [ done wait ].
 MC sched: 0. MC log: ' ', cond signals printString, lock signals printString ''', setup='''
 cond := Semaphore new. lock := Semaphore forMutualExclusion. done := Semaphore new. flag := false.'''),
    matches(r'(AB|BA) 01\.'))
add('waitAfterSignalling1', scen('cond lock done flag', '''
 [ lock wait. flag ifFalse: [ cond waitAfterSignalling: lock. lock wait ]. MC log: (flag ifTrue: ['A'] ifFalse: ['a']). lock signal. done signal ] fork.
 [ lock critical: [ flag := true. cond notify ]. done signal ] fork.
 2 timesRepeat: [ done wait ].
 MC sched: 0. MC log: ' ', cond signals printString, lock signals printString ''', setup='''
 cond := Semaphore new. lock := Semaphore forMutualExclusion. done := Semaphore new. flag := false.'''),
    matches(r'A 01\.'))


with Check('C11') as c:
    only = sys.argv[1:]
    for name, text, judge, q, t in S:
        if only and name not in only:
            continue
        c.explore(name, text, judge, bound=t if THOROUGH else q)
