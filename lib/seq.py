#!/usr/bin/env python3
"""Exhaustive enumeration of operation sequences (or of input tuples) on the real
code, compared step by step with an executable model.

A *lister* enumerates a finite space in a fixed order, twice: once in Smalltalk
on the real VM, printing one line for each element, and once in Python on the
model, producing the line expected.  The space is split over shards; within a
shard the two enumerations are compared line by line, so the model is validated
against the implementation on every element of the space."""
import hashlib, os, re, subprocess, signal, sys, time, itertools, multiprocessing, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver import NCPU, VERIF, THOROUGH

PRE = r'''
"Enumeration support"
Object extend [ primError: msg [ Transcript flush. Transcript showCr: '<ERR: ', msg displayString, '>'; flush ] ].
Object subclass: Enum [
    Enum class >> try: aBlock [
        ^[ aBlock value ] on: Error do: [ :e | e return: #ERR ]
    ]
    Enum class >> fmt: x [
        x == #ERR ifTrue: [ ^'!' ].
        ^x printString
    ]
    Enum class >> ops: ops make: make show: show depth: depth lo: lo shard: shard of: n on: out fmt: fmt [
        "All sequences of exactly LO..DEPTH operations; sharded on the first two."
        | idx k state res sh lines |
        k := ops size.
        lo to: depth do: [ :d |
            idx := Array new: d withAll: 1.
            [ | s |
              s := d = 0 ifTrue: [ 0 ] ifFalse: [ d = 1 ifTrue: [ (idx at: 1) - 1 ] ifFalse: [ (idx at: 1) - 1 * k + (idx at: 2) - 1 ] ].
              s \\ n = shard ifTrue: [
                  state := make value.
                  res := nil.
                  1 to: d do: [ :i | | op |
                      op := ops at: (idx at: i).
                      res := [ op value: state ] on: Error do: [ :e | e return: #ERR ] ].
                  sh := [ show value: state ] on: Error do: [ :e | e return: 'SHOWERR ', e messageText displayString ].
                  out nextPutAll: (fmt value: res); nextPut: $|; nextPutAll: sh; nl ].
              "next"
              self next: idx base: k ] whileTrue ].
        out flush
    ]
    Enum class >> next: idx base: k [
        idx size to: 1 by: -1 do: [ :i |
            (idx at: i) < k ifTrue: [ idx at: i put: (idx at: i) + 1. ^true ].
            idx at: i put: 1 ].
        ^false
    ]
]
'''


class Err(Exception):
    pass


def _expected(pyops, make, show, fmt, clone, depth, lo, shard, n):
    """Yield (indexes, line) in the order of Enum class>>ops:..."""
    k = len(pyops)
    for d in range(lo, depth + 1):
        if d == 0:
            if shard == 0:
                yield (), '%s|%s' % (fmt(None), show(make()))
            continue

        def rec(state, idx):
            last = len(idx) == d - 1
            for i in range(k):
                if len(idx) == 0 and d == 1 and i % n != shard:
                    continue
                if len(idx) == 1 and (idx[0] * k + i) % n != shard:
                    continue
                s = clone(state)
                try:
                    r = pyops[i](s)
                    r = fmt(r) if last else None
                except Err:
                    r = '!'
                if last:
                    yield idx + (i,), '%s|%s' % (r, show(s))
                else:
                    yield from rec(s, idx + (i,))
        yield from rec(make(), ())


def shard_run(cmd, env, cwd, expected, describe, limit, stall=60, quiet=False):
    """Run CMD, compare its stdout lines with EXPECTED; return dict."""
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL if quiet else subprocess.STDOUT,
                         cwd=cwd, env=env, start_new_session=True)
    killed = []

    def alarm(sig, fr):
        killed.append(1)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    signal.signal(signal.SIGALRM, alarm)
    n, bad, extra = 0, [], []
    out = p.stdout
    total_end = time.time() + limit
    status = 'ok'
    it = iter(expected)
    for key, want in it:
        if n % 1024 == 0:
            signal.alarm(int(max(1, min(stall, total_end - time.time()))))
        line = out.readline()
        if not line:
            signal.alarm(0)
            p.wait()
            if killed:
                status = 'hang' if time.time() < total_end - 1 else 'limit'
            else:
                status = 'died rc=%s' % p.returncode
            bad.append((describe(key), str(want), '(%s)' % status))
            break
        got = line.decode('latin1').rstrip('\n')
        n += 1
        if callable(want):              # judges the line: answers it, or what it should be
            want = want(got)
        if got != want:
            bad.append((describe(key), '' + str(want), got))
            if len(bad) >= int(os.environ.get('MC_MAXBAD', 20)):
                status = 'many'
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                break
    else:
        signal.alarm(int(max(1, min(stall, total_end - time.time()))))
        rest = out.read(4000)
        p.wait()
        if rest.strip():
            bad.append(('(after the end)', '', rest.decode('latin1')[:600]))
        elif p.returncode:
            bad.append(('(after the end)', 'exit code 0', 'exit code %s' % p.returncode))
    signal.alarm(0)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    return dict(n=n, bad=bad, status=status)


def _worker(q, shard, fn):
    try:
        q.put((shard, fn(shard)))
    except BaseException as e:
        import traceback
        q.put((shard, dict(n=0, bad=[], status='exc', exc=traceback.format_exc())))


def run_shards(fn, nsh):
    q = multiprocessing.get_context('fork').Queue()
    todo = list(range(nsh))
    procs, res = {}, {}
    while todo or procs:
        while todo and len(procs) < NCPU:
            s = todo.pop(0)
            p = multiprocessing.get_context('fork').Process(target=_worker, args=(q, s, fn))
            p.start()
            procs[s] = p
        s, r = q.get()
        res[s] = r
        procs.pop(s).join()
    return [res[s] for s in range(nsh)]


def report(chk, name, results, per=1, keyfn=None, source=None, weight=1):
    n = sum(r['n'] for r in results)
    for r in results:
        if r['status'] == 'exc':
            raise RuntimeError(r['exc'])
    bad = [b for r in results for b in r['bad']]
    bad.sort(key=lambda b: (len(str(b[0])), str(b[0])))
    if os.environ.get('MC_DUMP'):
        import json
        with open(os.environ['MC_DUMP'], 'a') as h:
            for b in bad:
                h.write(json.dumps([name, str(b[0]), b[1], b[2]]) + '\n')
    if os.environ.get('MC_DEBUG'):
        for b in bad[:int(os.environ['MC_DEBUG'])]:
            i = next((i for i in range(min(len(b[1]), len(b[2]))) if b[1][i] != b[2][i]), 0)
            i = max(0, i - 15)
            print('    BAD', str(b[0])[-150:], '| expected @%d' % i, repr(b[1][i:i + 60]), '| got', repr(b[2][i:i + 60]))
    limited = any(r['status'] == 'limit' for r in results)
    for d, want, got in bad[:200]:
        if got == '(limit)':
            continue
        chk.violation(keyfn(d, want, got) if keyfn else '%s:%s' % (name.replace(' ', '_'), hashlib.sha1(str(d).encode()).hexdigest()[:8]),
                      '%s: %s: expected %s, got %s' % (name, d, want[:500], got[:500]),
                      dict(source=source, sequence=str(d), expected=want, got=got))
    with chk.lock:
        chk.states += n
        chk.transitions += n * weight
        chk.traces += n
    chk.part(name, secs=round(time.time() - chk.last, 1), elements=n, mismatches=len(bad), complete=not limited)
    chk.last = time.time()
    return n


def sequences(chk, name, make, ops, show, pymake, pyshow, depth, lo=0, pre='', fmt='Enum fmt: r', pyfmt=None,
              clone=copy.deepcopy, limit=None, nsh=None, keyfn=None, files=()):
    """OPS: list of (smalltalk expression on s, python function of the state).
    MAKE, SHOW: Smalltalk expressions (SHOW uses s)."""
    limit = limit or (1500 if THOROUGH else 400)
    nsh = nsh or NCPU
    pyfmt = pyfmt or py_print
    f = os.path.join(chk.b.work, 'sq-%s-%s.st' % (chk.prop, re.sub(r'\W', '_', name)))
    body = PRE + pre + '''
Eval [ | ops shard |
 shard := (Smalltalk getenv: 'SEQ_SHARD') asNumber.
 ops := OrderedCollection new.
%s
 Enum ops: ops asArray make: [ %s ] show: [ :s | %s ] depth: %d lo: %d shard: shard of: %d on: Transcript fmt: [ :r | %s ].
 Transcript flush ]
''' % ('\n'.join(' ops add: [ :s | %s ].' % o[0] for o in ops), make, show, depth, lo, nsh, fmt)
    with open(f, 'w') as h:
        h.write(body)

    def describe(idx):
        return '; '.join(ops[i][0] for i in idx)

    def one(shard):
        exp = _expected([o[1] for o in ops], pymake, pyshow, pyfmt, clone, depth, lo, shard, nsh)
        return shard_run(chk.cmd(list(files) + [f], extra=('-q',)), chk.env(SEQ_SHARD=str(shard)), chk.b.work, exp, describe, limit)
    res = run_shards(one, nsh)
    if len(chk.samples) < 12:
        chk.samples.append(dict(part=name, operations=[o[0] for o in ops][:40], depth=depth))
    return report(chk, name, res, keyfn=keyfn, source=body, weight=max(1, depth))


def table(chk, name, code, expected, pre='', temps='', limit=None, nsh=None, keyfn=None, describe=str, files=(), env=None, cwd=None,
          stall=60, weight=1, quiet=False):
    """CODE: Smalltalk text; prints one line for each element to Transcript; it uses the
    variables shard and n.  EXPECTED(shard, n) yields (key, line)."""
    limit = limit or (1500 if THOROUGH else 400)
    nsh = nsh or NCPU
    m = re.match(r'\s*\|([\w\s]*)\|', code)
    if m:
        temps, code = temps + ' ' + m.group(1), code[m.end():]
    f = os.path.join(chk.b.work, 'tb-%s-%s.st' % (chk.prop, re.sub(r'\W', '_', name)))
    body = PRE + pre + '''
Eval [ | shard n out %s |
 shard := (Smalltalk getenv: 'SEQ_SHARD') asNumber. n := %d. out := Transcript.
%s
 Transcript flush ]
''' % (temps, nsh, code.rstrip().rstrip('.') + '.')
    with open(f, 'w', encoding='latin1') as h:
        h.write(body)

    def one(shard):
        return shard_run(chk.cmd(list(files) + [f], extra=('-q',)), chk.env(SEQ_SHARD=str(shard), **(env or {})), cwd or chk.b.work,
                         expected(shard, nsh), describe, limit, stall, quiet)
    res = run_shards(one, nsh)
    return report(chk, name, res, keyfn=keyfn, source=body if len(body) < 200000 else body[:200000], weight=weight)


class Sym(str):
    pass


def py_print(x):
    """printString of the Python counterpart of a Smalltalk value."""
    if x is None:
        return 'nil'
    if x is True:
        return 'true'
    if x is False:
        return 'false'
    if isinstance(x, Sym):
        return '#' + x
    if isinstance(x, str):
        return "'" + x.replace("'", "''") + "'"
    if isinstance(x, (list, tuple)):
        return '(' + ''.join(py_print(e) + ' ' for e in x) + ')'
    return str(x)
