#!/usr/bin/env python3
"""Common parts of the checks: build, evidence, violations, known findings."""
import json, os, re, subprocess, sys, time, signal, threading, traceback, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
NCPU = min(8, os.cpu_count() or 1)
HARNESS = os.path.join(VERIF, 'harness')


def known_findings(prop):
    out = {}
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)$', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


class Check:
    """One run of one property's check.  Use as a context manager: it writes
    the evidence, prints the verdict and exits."""

    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.assumptions = [], [], []
        self.violations = []            # (key, text, replay dict)
        self.known = known_findings(prop)
        self.known_hit = {}
        self.lock = threading.Lock()
        self.budget = float(os.environ.get('MC_BUDGET', '0')) or (3000 if THOROUGH else 600)
        self.rdir = os.path.join(VERIF, '.work', 'replay')
        os.makedirs(self.rdir, exist_ok=True)

    def __enter__(self):
        self.b = B.build()
        self.last = time.time()
        return self

    def left(self):
        return self.budget - (time.time() - self.t0)

    def violation(self, key, text, replay=None):
        """KEY identifies what fails (for the known findings file)."""
        with self.lock:
            for k in self.known:
                if k == key:
                    self.known_hit[k] = text
                    return
            self.violations.append((key, text, replay or {}))

    def part(self, name, **kw):
        with self.lock:
            self.parts.append(dict(name=name, **kw))
            print('%s: %s %s' % (self.prop, name, ' '.join('%s=%s' % i for i in kw.items())), flush=True)

    def __exit__(self, et, ev, tb):
        if et is not None and et is not SystemExit:
            traceback.print_exception(et, ev, tb)
            self.finish(error='%s: %s' % (et.__name__, ev))
        self.finish()

    def finish(self, error=None):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples[:12] or ['(none)'], parts=self.parts)
        ev = dict(property=self.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick',
                  seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        if error:
            ev['coverage']['error'] = error[-2000:]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        for k, t in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, self.known[k]))
        sys.stdout.flush()
        if self.violations:
            seen = set()
            for k, t, r in self.violations[:40]:
                if k in seen:
                    continue
                seen.add(k)
                h = hashlib.sha1((k + t).encode('utf-8', 'replace')).hexdigest()[:10]
                p = os.path.join(self.rdir, '%s-%s.json' % (self.prop, h))
                with open(p, 'w') as f:
                    json.dump(dict(property=self.prop, key=k, text=t, replay=r), f, indent=1, default=str)
                print('  %s: %s' % (k, t[:1500]))
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
                if len(seen) >= 5:
                    break
            sys.stdout.flush()
            os._exit(1)
        print('%s: %s, states=%d transitions=%d validated=%d, %.1fs' % (
            self.prop, 'ERROR ' + error if error else 'held', self.states, self.transitions,
            self.traces, time.time() - self.t0))
        sys.stdout.flush()
        os._exit(2 if error else 0)

    # -------------------------------------------------------------- running

    def env(self, **kw):
        e = {k: v for k, v in os.environ.items()
             if not k.startswith('MC_') and not k.startswith('SMALLTALK') and k not in ('LD_PRELOAD',)}
        e.update(HOME=self.b.work, LC_ALL='C', TZ='UTC', **kw)
        return e

    def cmd(self, files, image=None, extra=()):
        return [self.b.gst, '-I', image or self.b.image, '--kernel-dir', self.b.kernel] + list(extra) + list(files)

    def run(self, files, timeout=120, cwd=None, image=None, extra=(), stdin=None, norandom=True, **env):
        """Run the VM; return (returncode or None on timeout, output)."""
        cmd = self.cmd(files, image, extra)
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             cwd=cwd or self.b.work, env=self.env(**env), start_new_session=True)
        try:
            out, _ = p.communicate(stdin, timeout=timeout)
            return p.returncode, out.decode('latin1')
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, _ = p.communicate()
            return None, out.decode('latin1')

    # ------------------------------------------------------------- explorer

    def explore(self, name, text, judge, bound=1, secs=None, tokens=NCPU, confirm=True, keyfn=None, attempt=0):
        """Explore the scenario TEXT (Smalltalk source that calls MC begin/end;
        %BOUND% is replaced); JUDGE(outcome) answers None or a complaint.
        Returns the set of outcomes."""
        if secs is None:
            secs = 1200 if THOROUGH else 300
        f = os.path.join(self.b.work, 'sc-%s-%s.st' % (self.prop, re.sub(r'\W', '_', name)))
        with open(f, 'w') as h:
            h.write(text.replace('%BOUND%', str(bound)))
        o = f[:-3] + '.json'
        if os.path.exists(o):
            os.unlink(o)
        files = [os.path.join(HARNESS, 'MC.st'), f]
        rc, out = self.run(files, timeout=secs + 60, MC_OUT=o, MC_BOUND=str(bound), MC_SECS=str(secs),
                           MC_TOKENS=str(tokens))
        outcomes, stats = {}, None
        if os.path.exists(o):
            for line in open(o):
                d = json.loads(line)
                if 'stats' in d:
                    stats = d['stats']
                else:
                    outcomes[d['outcome']] = (d['trace'], d['count'])
        if stats is None:
            # the default execution itself died: reproduce without exploring
            rc2, out2 = self.run(files, timeout=120, MC_OUT=o, MC_REPLAY='none', MC_BOUND='0')
            if rc != 0 and rc2 != 0 or rc2 is None:
                self.violation(name, 'the execution without deviations dies: rc=%s %s' % (rc2, out2[-800:]),
                               dict(scenario=f, trace=''))
                return outcomes
            raise RuntimeError('%s: explorer gave no result (rc=%s): %s' % (name, rc, out[-1500:]))
        bad = 0
        for oc, (tr, n) in sorted(outcomes.items(), key=lambda i: (len(i[1][0]), i[1][0])):
            why = judge(oc)
            if why is None:
                continue
            bad += 1
            if bad > 3:
                continue
            if confirm:
                rep = set()
                for i in range(2):
                    r = self.replay(files, tr, o)
                    rep.add(r)
                if rep != {oc} and not (oc.startswith('CRASH') and all(x.startswith('CRASH') for x in rep)):
                    # not reproducible: machinery problem, unless it still fails
                    if any(judge(x) is None for x in rep):
                        print('%s: outcome %r of [%s] does not replay: %r' % (name, oc[:300], tr, rep))
                        if attempt < 2:
                            return self.explore(name, text, judge, bound, secs, tokens, confirm, keyfn, attempt + 1)
                        why += ' (three times; a single replay behaves differently)'
            key = keyfn(oc) if keyfn else name
            self.violation(key, '%s: %s; outcome %r after deviations [%s] (%d executions)' % (name, why, oc[:600], tr, n),
                           dict(scenario=f, source=open(f).read(), trace=tr, outcome=oc, how='MC_REPLAY=<trace> gst MC.st scenario'))
        with self.lock:
            self.states += stats['choices']
            self.transitions += stats['forks']
            self.traces += stats['execs']
        complete = not stats['stop'] and not stats['overflow']
        self.part(name, bound=bound, executions=stats['execs'], choice_points=stats['maxchoice'],
                  outcomes=len(outcomes), crashes=stats['crashes'], complete=complete)
        if len(self.samples) < 12:
            for oc, (tr, n) in list(outcomes.items())[:2]:
                self.samples.append(dict(scenario=name, deviations=tr, outcome=oc[:200], executions=n))
        return outcomes

    def replay(self, files, trace, o):
        p = o + '.r'
        if os.path.exists(p):
            os.unlink(p)
        rc, out = self.run(files, timeout=90, MC_OUT=p, MC_REPLAY=trace or 'none')
        if rc is not None and rc < 0:
            return 'CRASH signal %d' % -rc
        if rc is None:
            return 'CRASH timeout'
        try:
            for line in open(p):
                d = json.loads(line)
                if 'outcome' in d:
                    return d['outcome']
        except OSError:
            pass
        return 'CRASH exit %s %s' % (rc, out[-200:])


def parallel(fns, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(fn) for fn in fns]]
