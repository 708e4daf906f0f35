#!/usr/bin/env python3
"""C03: a snapshot resumes the state it was taken in; a failed one changes nothing."""
import os, sys, itertools, hashlib, subprocess, shutil, tempfile, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
from scen import PRE as SPRE
import seq

MODES = ['map', 'read', 'move']


class Dirs:
    """Scratch directories, removed at the end."""
    def __init__(self, c):
        self.top = os.path.join(c.b.work, 'c03')
        shutil.rmtree(self.top, ignore_errors=True)
        os.makedirs(self.top)
        self.n = 0

    def new(self):
        self.n += 1
        d = os.path.join(self.top, 'd%d' % self.n)
        os.makedirs(d)
        return d


def shim(c):
    so = os.path.join(c.b.work, 'snap.so')
    B.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', so, os.path.join(HARNESS, 'shim', 'snap.c')])
    return so


def gst(c, so, args, image=None, mode='map', timeout=120, cwd=None, **env):
    e = dict(env)
    e['SNAP_LOAD'] = mode
    p = subprocess.Popen([c.b.gst, '-q', '--kernel-dir', c.b.kernel, '-I', image or c.b.image] + list(args),
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         cwd=cwd or c.b.work, env=c.env(LD_PRELOAD=so, **e), start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    return rc, out.decode('latin1')


# --------------------------------------------------------------- object graphs

# every graph of three objects with two slots each, over {nil, A, B, C, 5, $x}
GRAPHS = r'''
Object subclass: SnapGraph [ | x y |
  x [ ^x ] y [ ^y ] x: a [ x := a ] y: a [ y := a ]
  SnapGraph class >> pick: d of: t [ ^d = 0 ifTrue: [ nil ] ifFalse: [ d <= 3 ifTrue: [ t at: d ] ifFalse: [ d = 4 ifTrue: [ 5 ] ifFalse: [ $x ] ] ] ]
  SnapGraph class >> fill: t code: i [ | r |
    r := i.
    t do: [ :n | n x: (self pick: r \\ 6 of: t). r := r // 6. n y: (self pick: r \\ 6 of: t). r := r // 6 ] ]
  SnapGraph class >> check: t code: i [ | r |
    r := i.
    t do: [ :n |
      n class == SnapGraph ifFalse: [ ^false ].
      n x == (self pick: r \\ 6 of: t) ifFalse: [ ^false ]. r := r // 6.
      n y == (self pick: r \\ 6 of: t) ifFalse: [ ^false ]. r := r // 6 ].
    ^true ]
  SnapGraph class >> build [ | all |
    all := (0 to: 46655) collect: [ :i | | t | t := { SnapGraph new. SnapGraph new. SnapGraph new }. self fill: t code: i. t ].
    Smalltalk at: #Graphs put: all. Smalltalk at: #Gen put: 0 ]
  SnapGraph class >> code: i [ ^(i + ((Smalltalk at: #Gen) * 7919)) \\ 46656 ]
  SnapGraph class >> check [ | bad seen |
    bad := OrderedCollection new. seen := IdentitySet new: 200000.
    (Smalltalk at: #Graphs) doWithIndex: [ :t :i |
      (self check: t code: (self code: i - 1)) ifFalse: [ bad add: i - 1 ].
      t do: [ :n | (seen includes: n) ifTrue: [ bad add: i - 1 ]. seen add: n ] ].
    ^bad ]
  SnapGraph class >> change [
    Smalltalk at: #Gen put: (Smalltalk at: #Gen) + 1.
    (Smalltalk at: #Graphs) doWithIndex: [ :t :i | self fill: t code: (self code: i - 1) ] ]
]
Smalltalk at: #Graphs put: nil.
Smalltalk at: #Gen put: nil.
'''
GSAVE = '''Eval [ %s. Transcript display: (ObjectMemory snapshot: '%s'); cr; display: SnapGraph check size; cr ]
'''
GCHECK = '''Eval [ | b | b := SnapGraph check. Transcript display: b size; space; display: (b isEmpty ifTrue: [ '' ] ifFalse: [ b first ]); cr.
 ObjectMemory compact. b := SnapGraph check. Transcript display: b size; space; display: (b isEmpty ifTrue: [ '' ] ifFalse: [ b first ]); cr ]
'''


def graphs(c, so, D):
    d = D.new()
    f = os.path.join(d, 'pre.st')
    open(f, 'w').write(GRAPHS + GSAVE % ('SnapGraph build', d + '/a.im'))
    rc, out = gst(c, so, [f])
    bad = []
    if out.split() != ['false', '0']:
        bad.append(('build', 'false 0', out))
    chk = os.path.join(d, 'chk.st')
    open(chk, 'w').write(GCHECK)
    jobs = []

    def chain(modes, over):
        """Load in modes[0], change, save, load in modes[1], ..."""
        w = tempfile.mkdtemp(dir=d)
        img = os.path.join(w, 'i.im')
        shutil.copy(d + '/a.im', img)
        res = []
        for k, m in enumerate(modes):
            rc, out = gst(c, so, [chk], image=img, mode=m)
            if out.strip() != '0 \n0':
                res.append(('%s check after loading %d' % (modes, k), '0 0', '%s %s' % (rc, out[-300:])))
                break
            if k == len(modes) - 1:
                break
            nxt = img if over else os.path.join(w, 'j%d.im' % k)
            s = os.path.join(w, 's.st')
            open(s, 'w').write(GSAVE % (['SnapGraph change', 'SnapGraph change. ObjectMemory compact', 'ObjectMemory globalGarbageCollect. SnapGraph change'][k % 3], nxt))
            rc, out = gst(c, so, [s], image=img, mode=m)
            if out.split() != ['false', '0']:
                res.append(('%s saving %d' % (modes, k), 'false 0', '%s %s' % (rc, out[-300:])))
                break
            img = nxt
        shutil.rmtree(w)
        return res
    L = 4 if THOROUGH else 3
    cases = [(m, o) for n in range(1, L + 1) for m in itertools.product(MODES, repeat=n) for o in ((0, 1) if n == 2 or THOROUGH else (n & 1,))]
    for r in parallel([lambda a=a: chain(*a) for a in cases]):
        bad += r
    for b in bad:
        c.violation('graphs', '%s: expected %s, got %s' % b, dict(source=GRAPHS))
    c.states += 46656 * len(cases)
    c.transitions += 46656 * sum(len(m) for m, o in cases)
    c.traces += len(cases)
    c.part('graphs', graphs=46656, chains=len(cases), mismatches=len(bad), secs=round(time.time() - c.last, 1))
    c.last = time.time()


# --------------------------------------------------------------- object shapes

KINDS = [('inherit', None), ('pointer', '{nil. 5. #sym. self. 3/4. $a. 1000000000000000000000. \'s\'}'), ('character', 'Character value: i * 37 \\\\ 256'),
         ('byte', 'i * 37 \\\\ 256'), ('int8', 'i * 37 \\\\ 256 - 128'), ('utf32', 'Character codePoint: i * 37 \\\\ 256 * 4096 + 300 + (i \\\\ 3 * 7)'),
         ('ushort', 'i * 3701 \\\\ 65536'), ('short', 'i * 3701 \\\\ 65536 - 32768'), ('uint', 'i * 37000001 \\\\ 4294967296'),
         ('int', 'i * 37000001 \\\\ 4294967296 - 2147483648'), ('uint64', 'i * 370000000000000001 \\\\ 18446744073709551616'),
         ('int64', 'i * 370000000000000001 \\\\ 18446744073709551616 - 9223372036854775808'), ('float', 'i asFloatE / 8'), ('double', 'i asFloatD / 7')]
SIZES = list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 127, 255, 256, 257, 1000, 4095, 4096, 8191, 8192]
BIG = [16383, 32764, 32765, 32766, 32767, 32768, 65535, 65536, 131072, 262100, 262143, 262144, 262145, 300000]
FLAGS = ['yourself', 'makeReadOnly: true', 'makeFixed', 'makeFixed; makeReadOnly: true', 'makeWeak', 'makeEphemeron']


def shapes_text():
    out = ["Smalltalk at: #Shapes put: nil.\n"]
    for kind, v in KINDS:
        for n in range(0, 4):
            cn = 'Snap%s%d' % (kind.capitalize(), n)
            out.append('Object subclass: %s [ <shape: %s> %s\n' % (cn, 'nil' if kind == 'inherit' else '#' + kind,
                       ('| ' + ' '.join('v%d' % i for i in range(n)) + ' |') if n else ''))
            if kind == 'pointer':
                out.append('%s class >> v: i of: me [ ^{ nil. 5. #sym. me. SnapOther. $a. true. 1000000000000000000000 } at: i \\\\ 8 + 1 ]\n' % cn)
            elif v:
                out.append('%s class >> v: i of: me [ ^%s ]\n' % (cn, v))
            out.append(']\n')
    out.append(r'''
Smalltalk at: #SnapOther put: 'other' copy.
Object subclass: SnapShape [ | class n flag obj mark |
  class: c n: i flag: f [ class := c. n := i. flag := f.
     obj := c isVariable ifTrue: [ c new: i ] ifFalse: [ c new ].
     1 to: c instSize do: [ :k | obj instVarAt: k put: (k = 1 ifTrue: [ mark := Object new ] ifFalse: [ k * 1000 + n ]) ].
     self places: i do: [ :k | obj basicAt: k put: (c v: k of: self) ].
     f = 1 ifTrue: [ obj makeReadOnly: true ]. f = 2 ifTrue: [ obj makeFixed ]. f = 3 ifTrue: [ obj makeFixed; makeReadOnly: true ].
     f = 4 ifTrue: [ obj makeWeak ]. f = 5 ifTrue: [ obj makeEphemeron ] ]
  check [
     obj class == class ifFalse: [ ^'class' ].
     obj basicSize = n ifFalse: [ ^'size' ].
     obj isReadOnly = (flag = 1 or: [ flag = 3 ]) ifFalse: [ ^'readonly' ].
     1 to: class instSize do: [ :k | | w | w := obj instVarAt: k. (k = 1 ifTrue: [ w == mark ] ifFalse: [ w = (k * 1000 + n) ]) ifFalse: [ ^'v', k printString ] ].
     self places: n do: [ :k | | w g | w := class v: k of: self. g := obj basicAt: k. (w = g and: [ w class == g class ]) ifFalse: [ ^'at ', k printString ] ].
     ^nil ]
  places: i do: aBlock [ i <= 300 ifTrue: [ ^1 to: i do: aBlock ]. 1 to: 10 do: aBlock. 11 to: i - 10 by: 1021 do: aBlock. i - 9 to: i do: aBlock ]
  isWeak [ ^flag = 4 and: [ n >= 1 ] ]
  weaken [ self isWeak ifTrue: [ obj basicAt: 1 put: Object new ] ]
  weakened [ | r | self isWeak ifFalse: [ ^true ]. r := (obj basicAt: 1) isNil. obj basicAt: 1 put: (class v: 1 of: self). ^r ]
  what [ ^class name, ' ', n printString, ' ', flag printString ]
  SnapShape class >> add: c n: i flag: f [ (Smalltalk at: #Shapes) add: (self new class: c n: i flag: f) ]
  SnapShape class >> check [ | bad | bad := OrderedCollection new.
     (Smalltalk at: #Shapes) do: [ :s | s weaken ]. ObjectMemory compact. (Smalltalk at: #Shapes) do: [ :s | s weakened ifFalse: [ bad add: s what, ': weak' ] ].
     (Smalltalk at: #Shapes) do: [ :s | s check ifNotNil: [ :w | bad add: s what, ': ', w ] ].
     ^bad ]
]
''')
    out.append('Eval [ | f | Smalltalk at: #Shapes put: OrderedCollection new.\n')
    sz = '#(%s)' % ' '.join(map(str, SIZES))
    bg = '#(%s)' % ' '.join(map(str, BIG))
    for kind, v in KINDS:
        for n in range(0, 4):
            cn = 'Snap%s%d' % (kind.capitalize(), n)
            fl = '#(0 1 2 3)' if kind != 'pointer' else '#(0 1 2 3 4 5)'
            if kind == 'inherit':
                out.append('%s do: [ :f | SnapShape add: %s n: 0 flag: f ].\n' % (fl if not n else '#(0 1 2 3 5)', cn))
            else:
                out.append('%s do: [ :s | %s do: [ :f | (f = 4 and: [ s > 20 ]) ifFalse: [ (f = 5 and: [ s = 0 and: [ %d = 0 ] ]) ifFalse: [ SnapShape add: %s n: s flag: f ] ] ] ].\n' % (sz, fl, n, cn))
                if n == 1:
                    out.append('%s do: [ :s | #(0 2) do: [ :f | SnapShape add: %s n: s flag: f ] ].\n' % (bg, cn))
    out.append(']\n')
    return ''.join(out)


SSAVE = '''Eval [ Transcript display: (ObjectMemory snapshot: '%s'); cr. Transcript display: SnapShape check size; cr ]
'''
SCHECK = '''Eval [ | b | b := SnapShape check. Transcript display: (Smalltalk at: #Shapes) size; space; display: b size; space; display: (b isEmpty ifTrue: [ '' ] ifFalse: [ b first ]); cr ]
'''


def shapes(c, so, D):
    d = D.new()
    f = os.path.join(d, 'pre.st')
    open(f, 'w').write(shapes_text() + SSAVE % (d + '/a.im'))
    rc, out = gst(c, so, [f], timeout=200)
    bad = []
    if out.split() != ['false', '0']:
        bad.append(('build', 'false 0', out[-600:]))
    n = 0
    chk = os.path.join(d, 'chk.st')
    open(chk, 'w').write(SCHECK)

    def one(modes):
        img = d + '/a.im'
        for k, m in enumerate(modes):
            rc, out = gst(c, so, [chk], image=img, mode=m, timeout=200)
            w = out.split()
            if len(w) != 2 or w[1] != '0' or int(w[0]) < 3000:
                return [('%s, load %d' % (modes, k), '0', '%s %s' % (rc, out[-300:]))], 0
            if k < len(modes) - 1:
                img2 = '%s/%s-%d.im' % (d, '-'.join(modes), k)
                s = img2[:-3] + '.st'
                open(s, 'w').write(SSAVE % img2)
                rc, out = gst(c, so, [s], image=img, mode=m, timeout=200)
                if out.split() != ['false', '0']:
                    return [('%s, save %d' % (modes, k), 'false 0', '%s %s' % (rc, out[-300:]))], 0
                img = img2
        return [], int(w[0])
    cases = [m for k in (1, 2) for m in itertools.product(MODES, repeat=k)]
    for r, k in parallel([lambda a=a: one(a) for a in cases], 5):
        bad += r
        n += k
    for b in bad:
        c.violation('shapes', 'shapes, %s: expected %s, got %s' % b, dict(source=shapes_text()))
    c.states += n
    c.transitions += n
    c.traces += len(cases)
    c.part('shapes', objects=n // max(1, len(cases)), chains=len(cases), mismatches=len(bad), secs=round(time.time() - c.last, 1))
    c.last = time.time()


# ------------------------------------------- a snapshot at every bytecode of a program

PROGRAMS = [
 ('blocks', r"""
   | w b r rec |
   w := WriteStream on: String new.
   b := [ :x | x > 2 ifTrue: [ x * 10 ] ifFalse: [ x ] ].
   #(1 2 3 4) do: [ :e | w print: (b value: e); space ].
   r := [ w nextPutAll: 'body '. [ Error new signal: 'a'. w nextPutAll: 'resumed? ' ] ensure: [ w nextPutAll: 'ensure ' ]. 5 ] on: Error do: [ :e | w nextPutAll: e messageText; space. e return: 6 ].
   w print: r; space.
   r := [ (Warning new signal: 'w') printString ] on: Warning do: [ :e | e resume: 7 ].
   w print: r; space.
   rec := nil. rec := [ :n :blk | n = 0 ifTrue: [ 1 ] ifFalse: [ n * (blk value: n - 1 value: blk) ] ].
   w print: (rec value: 6 value: rec); space.
   w print: (#(3 1 2) asSortedCollection asArray); space.
   w print: (#(5 6 7) detect: [ :x | x > 5 ] ifNone: [ nil ]); space.
   w print: ([ :k | [ :m | k + m ] ] value: 3) numArgs.
   w contents"""),
 ('data', r"""
   | d o s i big st |
   d := Dictionary new. 1 to: 5 do: [ :k | d at: k printString put: k * k ].
   o := OrderedCollection new. 1 to: 6 do: [ :k | o addFirst: k; addLast: k negated ].
   s := Set new. s add: 'ab' copy; add: 'cd' copy; add: ('a', 'b').
   i := IdentitySet new. 1 to: 26 do: [ :k | i add: (Array new: 1) ].
   big := 1. 1 to: 20 do: [ :k | big := big * 3000 ].
   st := ReadStream on: #(1 2 3 4 5). st next; next.
   (Array new: 3) become: (Array new: 4).
   (d at: '5') printString, ' ', o first printString, o last printString, ' ', s size printString, (s includes: 'cd') printString, ' ',
     (i allSatisfy: [ :x | i includes: x ]) printString, ' ', (big \\ 1000007) printString, ' ', (1/3 + (1/6)) printString, ' ', st upToEnd printString, ' ',
     (2.5 * 3) truncated printString, (#foo == ('fo', 'o') asSymbol) printString, (Smalltalk at: #Transcript) class name, (thisContext parentContext notNil) printString"""),
 ('processes', r"""
   | w q a b m done |
   w := OrderedCollection new. q := SharedQueue new. a := Semaphore new. b := Semaphore new. m := RecursionLock new. done := Semaphore new.
   [ 1 to: 3 do: [ :k | q nextPut: k. a signal. b wait ]. done signal ] forkAt: Processor userSchedulingPriority.
   [ 1 to: 3 do: [ :k | a wait. m critical: [ w add: q next * 10 ]. b signal ]. done signal ] forkAt: Processor userInterruptPriority.
   [ [ Processor activeProcess terminate ] ensure: [ w add: #bye ]. w add: #never ] forkAt: Processor userBackgroundPriority.
   [ [ m critical: [ w add: #in. Processor yield ] ] ensure: [ done signal ] ] forkAt: Processor userSchedulingPriority.
   done wait; wait; wait.
   [ w includes: #bye ] whileFalse: [ [ done signal ] forkAt: Processor userBackgroundPriority. done wait ].
   (w asBag occurrencesOf: #in) printString, (w select: [ :x | x isInteger ]) asArray printString, (w includes: #never) printString"""),
]
RUN = r"""Eval [ | b |
  Smalltalk at: #SnapResult put: nil; at: #SnapDone put: Semaphore new; at: #SnapSem put: Semaphore new; at: #SnapN put: 0 ]
Eval [ | prog saver text |
  prog := [ |r| r := [
%(prog)s ] value. Smalltalk at: #SnapResult put: r. (Smalltalk at: #SnapDone) signal; signal ].
  saver := [ | ok f |
     (Smalltalk at: #SnapSem) wait.
     f := '%(dir)s/', MC pid printString.
     ok := ObjectMemory snapshot: f, '.im'.
     ok ifTrue: [ Smalltalk at: #SnapN put: 1 ]
        ifFalse: [
          MC sched: 0.
          Smalltalk system: 'for m in %(modes)s; do SNAP_LOAD=$m LD_PRELOAD=%(so)s timeout 10 %(gst)s -I ', f, '.im %(dir)s/res.st </dev/null; done >', f, '.out 2>&1'.
          text := (File name: f, '.out') asString contents lines asArray asString. text := ((File name: f, '.out') readStream contents) ] ].
  saver forkAt: Processor highIOPriority.
  Processor yield.
  Processor activeProcess priority: Processor userInterruptPriority.
  prog forkAt: Processor userSchedulingPriority.
  MC begin: 1 mode: 9 gc: 0.
  MC arm: (Smalltalk at: #SnapSem).
  (Smalltalk at: #SnapDone) wait.
  MC disarm: (Smalltalk at: #SnapSem).
  MC sched: 0.
  MC log: (Smalltalk at: #SnapResult) printString. MC log: '|'. text isNil ifFalse: [ MC log: text ].
  MC end: '.' ]
"""
RES = "Eval [ (Smalltalk at: #SnapDone) wait. Transcript display: (Smalltalk at: #SnapResult) printString; display: (Smalltalk at: #SnapN); nl ]\n"


def programs(c, so, D):
    modes = MODES if THOROUGH else ['map', 'move']
    want = {}
    for name, prog in PROGRAMS:
        d = D.new()
        open(d + '/res.st', 'w').write(RES)
        text = RUN % dict(prog=prog, dir=d, so=so, modes=' '.join(modes),
                          gst='%s -q --kernel-dir %s' % (c.b.gst, c.b.kernel))
        text = text.replace("text := (File name: f, '.out') asString contents lines asArray asString. ", '')
        text = text.replace("readStream contents) ] ]", "readStream contents). (File name: f, '.im') remove. (File name: f, '.out') remove ] ]")
        seen = []

        def judge(o):
            if o.startswith('CRASH') or not o.endswith('.'):
                return 'the program did not end'
            r, _, rest = o[:-1].partition('|')
            if not seen:
                seen.append(r)
            if r != EXPECT[name]:
                return 'the result should be %s' % EXPECT[name]
            if rest and rest != (r + '1\n') * len(modes):
                return 'the resumed images should all answer %s' % r
            return None
        c.explore('snapshots of ' + name, text, judge, bound=1)
        shutil.rmtree(d)
    c.last = time.time()


EXPECT = {'blocks': "'1 2 30 40 body a ensure 6 ''7'' 720 (1 2 3 ) 6 1'", 'data': "'25 6-6 2true true 8923 1/2 (3 4 5 ) 7trueTextCollectortrue'", 'processes': "'1(10 20 30 )false'"}


# ----------------------------------------------------- failures during a save

MARK = GRAPHS.replace('46655', '1999') + '''
Smalltalk at: #Mark put: 'old'.
Eval [ SnapGraph build ]
Eval [ ObjectMemory snapshot: '%s' ]
'''
FSAVE = '''Eval [ | r | Smalltalk at: #Mark put: 'new'. SnapGraph change.
  r := [ (ObjectMemory snapshot: '%(f)s') printString ] on: Error do: [ :e | e return: e class printString ].
  Transcript display: r; nl ]
Eval [ SnapGraph change. ObjectMemory compact. Transcript display: SnapGraph check size; nl ]
Eval [ | r | r := [ (ObjectMemory snapshot: '%(g)s') printString ] on: Error do: [ :e | e return: e class printString ].
  Transcript display: r; nl ]
'''
FCHECK = "Eval [ Transcript display: (Smalltalk at: #Mark); space; display: (Smalltalk at: #Gen); space; display: SnapGraph check size; nl ]\n"


def faults(c, so, D):
    d = D.new()
    base = d + '/base.im'
    pre = d + '/pre.st'
    open(pre, 'w').write(MARK % base)
    rc, out = gst(c, so, [pre])
    small = d + '/small'     # few graphs: the image is then written in few operations
    chk = d + '/chk.st'
    open(chk, 'w').write(FCHECK)
    old = open(base, 'rb').read()
    bad = []

    def run(how, at, exists, sub='s'):
        w = tempfile.mkdtemp(dir=d)
        os.mkdir(w + '/s')
        f = w + '/s/i.im'
        if exists:
            open(f, 'wb').write(old)
        st = w + '/a.st'
        open(st, 'w').write(FSAVE % dict(f=f, g=w + '/other.im'))
        env = dict(SNAP_DIR=w + '/s', SNAP_LOG=w + '/log')
        if how:
            env.update(SNAP_HOW=how, SNAP_AT=str(at))
        rc, out = gst(c, so, [st], image=base, **env)
        ops = open(w + '/log').read().split() if os.path.exists(w + '/log') else []
        res = judge(w, f, how, at, exists, rc, out, ops)
        shutil.rmtree(w)
        return res, ops

    def judge(w, f, how, at, exists, rc, out, ops):
        now = open(f, 'rb').read() if os.path.exists(f) else None
        before = old if exists else None
        if now != before:
            r2, o2 = gst(c, so, [chk], image=f)
            if o2 != 'new 1 0\n':
                return 'the file is neither the old image nor the new one (loading it: %s %s)' % (r2, o2[-200:])
        if how in ('kill', 'killed'):
            if rc == 99:
                return None
        L = out.split('\n')
        if rc != 0 or len(L) != 4 or L[1] != '0' or L[2] != 'false':
            return 'the virtual machine does not continue: %s %s' % (rc, out[-200:])
        r3, o3 = gst(c, so, [chk], image=w + '/other.im')
        if o3 != 'new 2 0\n':
            return 'a later save to another file fails: %s %s' % (r3, o3[-200:])
        if L[0] == 'false':
            if now == before:
                return 'success was reported but the image was not written'
        else:
            if L[0] == 'true' or L[0] == 'nil':
                return 'the answer of the failed save was ' + L[0]
            if now != before:
                return 'failure was reported but the image was replaced'
        left = [x for x in os.listdir(w + '/s') if x != 'i.im']
        if left:
            return 'files are left over: %s' % left
        if how in (None, 'short') and L[0] != 'false':
            return 'the save failed (%s) where it should succeed' % L[0]
        if how == 'ENOSPC' and L[0] == 'false' and 'write' in ops[at - 1:]:
            return 'success was reported although the disk was full'
        return None
    r, ops = run(None, 0, True)
    if r:
        bad.append(((None, 0, True), r))
    # every operation when there are few, else the first and last 60 and one in 16
    n = len(ops)
    jobs = []
    for how in ('ENOSPC', 'EIO', 'EINTR', 'EACCES', 'short', 'kill', 'killed'):
        for at in range(1, n + 2):
            for ex in (True, False):
                if THOROUGH or at <= 40 or at > n - 40 or at % 8 == 0:
                    jobs.append((how, at, ex))
    for j, (r, o) in zip(jobs, parallel([lambda a=a: run(*a) for a in jobs])):
        if r:
            bad.append((j, r))
    for (how, at, ex), r in bad:
        c.violation('faults', 'failure %s of operation %s of a save %s an existing image: %s' % (how, at, 'over' if ex else 'without', r), dict(source=MARK + FSAVE))
    c.states += len(jobs)
    c.transitions += n * len(jobs)
    c.traces += len(jobs)
    c.part('faults', operations=n, faults=len(jobs), mismatches=len(bad), secs=round(time.time() - c.last, 1))
    c.last = time.time()


# --------------------------------------------------------------- damaged images

def damaged(c, so, D):
    d = D.new()
    base = d + '/base.im'
    pre = d + '/pre.st'
    open(pre, 'w').write("Smalltalk at: #Mark put: 'ok'.\nEval [ ObjectMemory snapshot: '%s' ]\n" % base)
    gst(c, so, [pre])
    chk = d + '/chk.st'
    open(chk, 'w').write("Eval [ Transcript display: (Smalltalk at: #Mark); space; display: 3/4; space; display: (1 to: 5) asOrderedCollection size; space; display: 100 factorial printString size; space; display: 2 sqrt truncated; nl ]\n")
    OK = 'ok 3/4 5 158 1\n'
    data = open(base, 'rb').read()
    H = 168
    import struct
    nt = struct.unpack_from('<Q', data, 80)[0]
    tab = [struct.unpack_from('<QQ', data, H + 16 * i) for i in range(nt)]
    end = H + 16 * nt
    bounds = [end]
    p = end
    for a, fl in tab:
        if a < 1 << 40 and a:
            p += 8 * a
            bounds.append(p)
    lens = set(range(0, 300))
    for x in (H, end, len(data)):
        lens.update(k for k in range(x - 64, x + 64))
    for i in range(0, nt, 1 if THOROUGH else 64):
        lens.update((H + 16 * i, H + 16 * i + 8))
    for i, x in enumerate(bounds):
        if THOROUGH or i % 64 == 0:
            lens.update((x - 1, x, x + 1))
    for x in range(0, len(data), 4096):
        lens.update((x - 1, x, x + 1))
    lens = sorted(x for x in lens if 0 <= x < len(data))
    hdr = []
    for pos in range(64, 70):        # signature
        for bit in range(8):
            hdr.append((pos, data[pos] ^ 1 << bit, False))
    for v in range(256):             # the size of words
        if (v ^ data[71]) & 1 and not (v ^ data[71]) & 2:
            hdr.append((71, v, False))
    for pos in range(72, 80):        # later versions
        for v in range(data[pos] + 1, 256):
            hdr.append((pos, v, False))
    for pos in range(H - 16, H):     # another table of primitives: they are looked up by name
        for bit in range(8):
            hdr.append((pos, data[pos] ^ 1 << bit, True))
    bad = []

    def cut(k):
        res = []
        f = '%s/t%d.im' % (d, k)
        open(f, 'wb').write(data)
        for x in reversed(lens[k::8]):
            os.truncate(f, x)
            for m in (MODES if THOROUGH else MODES[:2]):
                rc, out = gst(c, so, [chk], image=f, mode=m, timeout=20)
                if rc != 1 or out.strip() != "gst: Couldn't load image file %s" % f:
                    res.append('an image of %d bytes cut at %d (%s) is not refused: %s %s' % (len(data), x, m, rc, out[-200:]))
        return res

    def flip(k):
        res = []
        f = '%s/h%d.im' % (d, k)
        for pos, v, ok in hdr[k::8]:
            b = bytearray(data)
            b[pos] = v
            open(f, 'wb').write(b)
            for m in MODES:
                rc, out = gst(c, so, [chk], image=f, mode=m, timeout=20)
                if ok and (rc != 0 or out != OK):
                    res.append('an image with another table of primitives (%s) should load: %s %s' % (m, rc, out[-200:]))
                if not ok and (rc != 1 or out.strip() != "gst: Couldn't load image file %s" % f):
                    res.append('an image with byte %d of the header changed from %d to %d (%s) is not refused: %s %s' % (pos, data[pos], v, m, rc, out[-200:]))
        return res
    for m in MODES:
        rc, out = gst(c, so, [chk], image=base, mode=m)
        if rc != 0 or out != OK:
            bad.append('the image (%s) should load: %s %s' % (m, rc, out[-200:]))
    for r in parallel([lambda k=k: cut(k) for k in range(8)] + [lambda k=k: flip(k) for k in range(8)]):
        bad += r
    for r in bad:
        c.violation('damaged', r, dict(source=open(chk).read()))
    n = len(lens) + len(hdr)
    c.states += n
    c.transitions += n
    c.traces += n
    c.part('damaged', cuts=len(lens), headers=len(hdr), mismatches=len(bad), secs=round(time.time() - c.last, 1))
    c.last = time.time()


# ------------------------------------- processes and notifications across a snapshot

NOTE = r'''
Object subclass: SnapWatch [ | log |
  log [ ^log ifNil: [ log := OrderedCollection new ] ]
  update: a [ (a asString endsWith: 'napshot') ifTrue: [ self log add: a ] ]
]
Object subclass: SnapProc [ | sem out proc kind |
  out [ ^out ]
  SnapProc class >> all [ ^Smalltalk at: #Procs ]
  say: x [ out add: x ]
  kind: k [ kind := k. sem := Semaphore new. out := OrderedCollection new.
    proc := [ self say: #start. self perform: ('k', k printString) asSymbol. self say: #end ] forkAt: Processor userInterruptPriority ]
  k1 [ sem wait ]
  k2 [ Processor activeProcess suspend ]
  k3 [ (Delay forMilliseconds: 600) wait ]
  k4 [ [ sem wait ] ensure: [ self say: #ensure ] ]
  k5 [ self say: ([ sem wait. self error: 'x' ] on: Error do: [ :e | e return: e messageText ]) ]
  k6 [ sem signal; signal. sem wait. sem wait. sem wait ]
  k7 [ | q | q := SharedQueue new. [ sem wait. q nextPut: 3 ] forkAt: Processor userInterruptPriority. self say: q next ]
  k8 [ | m | m := Semaphore forMutualExclusion. [ m critical: [ sem wait ] ] forkAt: Processor userInterruptPriority. m critical: [ self say: #in ] ]
  k9 [ [ :k | k + 1 ] value: (sem wait; yourself) hash ]
  k10 [ | r | r := RecursionLock new. r critical: [ r critical: [ sem wait ] ] ]
  wake [ kind = 2 ifTrue: [ ^proc resume ]. kind = 3 ifTrue: [ ^self ]. sem signal ]
  SnapProc class >> wakeAll [ self all do: [ :p | p wake ]. (Delay forMilliseconds: 800) wait.
     ^(self all inject: '' into: [ :a :p | a, p out asArray displayString ]) ]
]
Smalltalk at: #Procs put: nil; at: #Watch put: SnapWatch new; at: #Signaled put: (Semaphore new signal; signal; yourself).
Eval [
  ObjectMemory addDependent: (Smalltalk at: #Watch).
  Smalltalk at: #Procs put: (#(%(kinds)s) collect: [ :k | SnapProc new kind: k ]).
  Processor yield.
  Transcript display: (ObjectMemory snapshot: '%(f)s'); nl.
  Transcript display: (Smalltalk at: #Watch) log asArray; nl ]
'''
NOTER = r'''
Eval [ Transcript display: (Smalltalk at: #Watch) log asArray; nl ]
Eval [ Transcript display: SnapProc wakeAll; nl ]
Eval [ | n s p | s := Smalltalk at: #Signaled. n := 0. p := [ [ s wait. n := n + 1 ] repeat ] forkAt: Processor userInterruptPriority. Processor yield. p terminate. Transcript display: n; nl ]
'''
NOTES = r'''Eval [ Transcript display: (ObjectMemory snapshot: '%s'); nl ]
'''
PEND = {1: '(start end )', 2: '(start end )', 3: '(start end )', 4: '(start ensure end )', 5: "(start 'x' end )",
        6: '(start end )', 7: '(start 3 end )', 8: '(start in end )', 9: '(start end )', 10: '(start end )'}
DROP = {ord("'"): None, ord('#'): None}


def notes(c, so, D):
    d = D.new()
    bad = []
    res = d + '/res.st'
    open(res, 'w').write(NOTER)

    def one(kinds, modes):
        w = tempfile.mkdtemp(dir=d)
        f = w + '/a.im'
        st = w + '/a.st'
        open(st, 'w').write(NOTE % dict(kinds=' '.join(map(str, kinds)), f=f))
        want = ''.join(PEND[k] for k in kinds).replace("'", '')
        log = ['aboutToSnapshot', 'finishedSnapshot']
        r = []

        def expect(what, out, ans):
            if out != ans:
                r.append('%s, processes %s, %s: expected %r, got %r' % (what, kinds, modes, ans, out[-400:]))
                return False
            return True
        show = lambda l: '(' + ''.join(x + ' ' for x in l) + ')\n'
        rc, out = gst(c, so, [st, res])
        expect('saver', out.translate(DROP), 'false\n' + show(log) * 2 + want + '\n2\n')
        cur = ['aboutToSnapshot']
        for k, m in enumerate(modes):
            cur = cur + ['returnFromSnapshot']
            rc, out = gst(c, so, [res], image=f, mode=m)
            if not expect('resumed %d' % k, out.translate(DROP), show(cur) + want + '\n2\n'):
                break
            if k < len(modes) - 1:
                g = w + '/b%d.im' % k
                s2 = w + '/s.st'
                open(s2, 'w').write(NOTES % g)
                rc, out = gst(c, so, [s2, res], image=f, mode=m)
                if not expect('saved again %d' % k, out.translate(DROP), 'false\n' + show(cur + ['aboutToSnapshot', 'finishedSnapshot']) + want + '\n2\n'):
                    break
                cur = cur + ['aboutToSnapshot']
                f = g
        shutil.rmtree(w)
        return r
    ks = sorted(PEND)
    jobs = [((k,), m) for k in ks for m in itertools.product(MODES, repeat=1)]
    jobs += [((k,), m) for k in ks for m in itertools.product(MODES[::2], repeat=2)]
    jobs += [(p, ('map',)) for p in itertools.product(ks, repeat=2)]
    jobs += [((1, 2, 3, 4, 5, 6, 7, 8, 9, 10), m) for n in (1, 2, 3) for m in itertools.product(MODES, repeat=n)]
    if THOROUGH:
        jobs += [(p, (m,)) for p in itertools.product(ks, repeat=2) for m in MODES[1:]]
        jobs += [(p, ('map', 'move')) for p in itertools.permutations(ks, 3)]
    for r in parallel([lambda a=a: one(*a) for a in jobs], 40):
        bad += r
    for r in bad:
        c.violation('processes', r, dict(source=NOTE + NOTER))
    c.states += len(jobs)
    c.transitions += sum(len(m) for k, m in jobs)
    c.traces += len(jobs)
    c.part('processes', histories=len(jobs), mismatches=len(bad), secs=round(time.time() - c.last, 1))
    c.last = time.time()


# ---------------------------------------- volumes: more objects than the old space has room for

VOLUME = r'''
Object subclass: SnapVolume [ | a kind n |
  SnapVolume class >> size: k [ ^k = 3 ifTrue: [ 500 ] ifFalse: [ #(4 500 40000) at: k + 1 ] ]
  kind: k kb: kb [ | z t | kind := k. z := self class size: k. n := kb * 128 // z. a := Array new: n.
    1 to: n do: [ :i | | o | o := Array new: z. o at: 1 put: i; at: z put: a. k = 3 ifTrue: [ o makeFixed ]. a at: i put: o ] ]
  check [ | z | z := self class size: kind. a size = n ifFalse: [ ^'n' ].
    1 to: n do: [ :i | | o | o := a at: i. (o class == Array and: [ o size = z ]) ifFalse: [ ^'size' ]. (o at: 1) = i ifFalse: [ ^'first' ]. (o at: z) == a ifFalse: [ ^'last' ].
       z > 2 ifTrue: [ (o at: 2) isNil ifFalse: [ ^'nil' ] ]. ].
    ^nil ]
]
'''
VOLSHOW = '''Eval [ Transcript display: (Smalltalk at: #Vol) check printString; cr. ObjectMemory compact. Transcript display: (Smalltalk at: #Vol) check printString; cr%s ]
'''


def volumes(c, so, D):
    d = D.new()
    cases = [(k, kb) for k in range(4) for kb in (range(1024, 14336, 1024) if not THOROUGH else range(512, 40960, 512))]
    pre = os.path.join(d, 'vol.st')
    open(pre, 'w').write(VOLUME)

    def one(k, kb):
        bad, n = [], 0
        img = '%s/v%d-%d.im' % (d, k, kb)
        f = img[:-3] + '.st'
        open(f, 'w').write("Eval [ Smalltalk at: #Vol put: (SnapVolume new kind: %d kb: %d; yourself) ]\n" % (k, kb) + "Eval [ Transcript display: (ObjectMemory snapshot: '%s'); cr ]\n" % img)
        rc, out = gst(c, so, [pre, f])
        if out.split() != ['false']:
            return [('kind %d, %d KB: build' % (k, kb), 'false', '%s %s' % (rc, out[-300:]))], 1
        for m in MODES + ['near']:
            img2 = '%s/w%d-%d-%s.im' % (d, k, kb, m)
            s = img2[:-3] + '.st'
            open(s, 'w').write(VOLSHOW % (". Transcript display: (ObjectMemory snapshot: '%s'); cr" % img2))
            rc, out = gst(c, so, [s], image=img, mode=m)
            n += 1
            if out.split() != ['nil', 'nil', 'false']:
                bad.append(('kind %d, %d KB, %s' % (k, kb, m), 'nil nil false', '%s %s' % (rc, out[-300:])))
                continue
            open(s, 'w').write(VOLSHOW % '')
            for m2 in ('map', 'move'):
                rc, out = gst(c, so, [s], image=img2, mode=m2)
                n += 1
                if out.split() != ['nil', 'nil']:
                    bad.append(('kind %d, %d KB, %s, %s' % (k, kb, m, m2), 'nil nil', '%s %s' % (rc, out[-300:])))
            os.unlink(img2)
        os.unlink(img)
        return bad, n
    bad, n = [], 0
    for r, k in parallel([lambda a=a: one(*a) for a in cases], 8):
        bad += r
        n += k
    for b in bad:
        c.violation('volumes', 'volumes, %s: expected %s, got %s' % b, dict(source=VOLUME))
    c.states += n
    c.transitions += n
    c.traces += n
    c.part('volumes', images=len(cases), loads=n, mismatches=len(bad), secs=round(time.time() - c.last, 1))
    c.last = time.time()


def main():
    with Check('C03') as c:
        so = shim(c)
        D = Dirs(c)
        parts = [('graphs', graphs), ('shapes', shapes), ('programs', programs), ('faults', faults), ('damaged', damaged), ('processes', notes), ('volumes', volumes)]
        only = os.environ.get('MC_ONLY', '').split()
        for n, f in parts:
            if not only or n in only:
                f(c, so, D)
        shutil.rmtree(D.top, ignore_errors=True)


if __name__ == '__main__':
    main()
