#!/usr/bin/env python3
"""Builds an instrumented VM and kernel image from /repo's current working tree,
outside /repo, in WORK (default /verif/.work).  Nothing in /repo is written.

    build.build() -> Build object with .gst (executable), .image, .kernel

The build is keyed on the contents of the sources, so a second check on the
same tree reuses it, and any change to the tree rebuilds it."""
import hashlib, os, re, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
WORK = os.environ.get('MC_WORK', os.path.join(VERIF, '.work'))
GUARD = 'GST_MODEL_CHECK'
SKIP_DIRS = {'.libs', '.deps', '.git', 'autom4te.cache', 'tests', 'doc'}
SRC_DIRS = ['libgst', 'lib-src', 'snprintfv', 'lightning', 'superops', 'kernel', 'packages']
SKIP_SUFFIX = ('.o', '.lo', '.la', '.a', '.so', '.stamp', '.star', '.log', '.output', '.im')
GENERATED = {'libgst/' + f for f in (
    'genbc-decl.c genbc-decl.h genbc-scan.c genbc-impl.c genbc-impl.h genpr-parse.c '
    'genpr-parse.h genpr-scan.c genvm-parse.c genvm-parse.h genvm-scan.c match.h '
    'prims.inl vm.inl genbc genprims genvm').split()}
SHORT_VM = ('libgst', 'lib-src', 'snprintfv', 'lightning')


class BuildError(Exception):
    pass


def run(cmd, cwd=None, **kw):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       shell=isinstance(cmd, str), stdin=subprocess.DEVNULL, **kw)
    if p.returncode:
        raise BuildError('%s\nin %s failed (%d):\n%s' % (cmd, cwd, p.returncode,
                         p.stdout.decode('utf-8', 'replace')[-6000:]))
    return p.stdout


def source_files():
    out = []
    for d in SRC_DIRS:
        top = os.path.join(REPO, d)
        for dp, dn, fn in os.walk(top):
            dn[:] = sorted(x for x in dn if x not in SKIP_DIRS)
            for f in sorted(fn):
                if f.endswith(SKIP_SUFFIX):
                    continue
                rel = os.path.relpath(os.path.join(dp, f), REPO)
                if rel in GENERATED or f.startswith('Makefile'):
                    if not rel.endswith('Makefile.am') and not rel.endswith('Makefile.frag'):
                        continue
                if os.path.isfile(os.path.join(REPO, rel)):
                    out.append(rel)
    for f in ('main.c', 'config.h', 'packages.xml', 'libc.la'):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    return out


def sync(src):
    """Copy the sources to src, touching only what changed; return (vm key, kernel key)."""
    os.makedirs(src, exist_ok=True)
    files = source_files()
    vm, ker, pk = hashlib.sha256(), hashlib.sha256(), hashlib.sha256()
    want = set(files)
    for rel in files:
        with open(os.path.join(REPO, rel), 'rb') as f:
            data = f.read()
        h = hashlib.sha256(data).digest()
        top = rel.split('/')[0]
        (vm if top in SHORT_VM or top in ('main.c', 'config.h') else ker if top == 'kernel' else pk
         ).update(rel.encode() + b'\0' + h)
        dst = os.path.join(src, rel)
        try:
            with open(dst, 'rb') as f:
                if f.read() == data:
                    continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, 'wb') as f:
            f.write(data)
    for dp, dn, fn in os.walk(src):
        for f in fn:
            rel = os.path.relpath(os.path.join(dp, f), src)
            if rel not in want and rel not in GENERATED and not rel.startswith('obj/') \
                    and rel not in SUPPORT.values():
                os.unlink(os.path.join(dp, f))
    for s, d in SUPPORT.items():
        dst = os.path.join(src, d)
        if d not in want:
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(VERIF, 'support', s), dst)
    return vm.hexdigest(), ker.hexdigest(), pk.hexdigest()


SUPPORT = {'config.h': 'config.h', 'snprintfv-config.h': 'snprintfv/config.h',
           'snprintfv-compat.h': 'snprintfv/snprintfv/compat.h'}

CFLAGS = ('-O2 -g1 -w -fno-gcse -fstrict-aliasing -fno-pie').split()


def am_sources(path, var):
    txt = open(path).read().replace('\\\n', ' ')
    m = re.search(r'^%s\s*\+?=\s*(.*)$' % re.escape(var), txt, re.M)
    return [w for w in m.group(1).split() if w.endswith('.c')]


def build_vm(src, out, harness, extra_cflags=()):
    lg = os.path.join(src, 'libgst')
    os.makedirs(out, exist_ok=True)
    pool = ThreadPoolExecutor(8)
    base = ['gcc', '-DHAVE_CONFIG_H', '-D' + GUARD, '-DDEFAULT_EXECUTABLE="/usr/local/bin/gst"',
            '-DCMD_XZIP="/usr/bin/zip"', '-DCMD_INSTALL="/usr/bin/install -c"', '-DCMD_LN_S="ln -s"'] \
        + CFLAGS + list(extra_cflags)

    def cc(srcfile, obj, incs, extra=()):
        run(base + list(extra) + ['-I' + i for i in incs] + ['-c', '-o', obj, srcfile])
        return obj
    inc = [lg, src, src + '/lib-src', src + '/snprintfv', src + '/lightning']
    sinc = [src + '/snprintfv/snprintfv', src + '/snprintfv', src + '/snprintfv']
    futs = []
    sobj = []
    for f in ('custom', 'filament', 'format', 'mem', 'printf', 'stream'):
        o = os.path.join(out, 'snv-%s.o' % f)
        futs.append(pool.submit(cc, src + '/snprintfv/snprintfv/%s.c' % f, o, sinc))
        sobj.append(o)
    for f in am_sources(src + '/lib-src/Makefile.am', 'library_la_SOURCES') + ['long-double.c']:
        if not os.path.exists(src + '/lib-src/' + f):
            continue
        f = f[:-2]
        o = os.path.join(out, 'lib-%s.o' % f)
        futs.append(pool.submit(cc, src + '/lib-src/%s.c' % f, o, [src + '/lib-src', src], ['-DNO_MAIN']))
        sobj.append(o)

    def gen(name, ys, l, extra=()):
        objs = []
        for y in ys:
            run(['bison', '-y', '-d', '-v', '-o', y + '.c', y + '.y'] if False else
                ['bison', '-d', '-y', '-o', y + '.c', y + '.y'], cwd=lg)
        run(['flex', '-Cfe', '-o', l + '.c', l + '.l'], cwd=lg)
        for f in list(ys) + [l] + list(extra):
            objs.append(cc(os.path.join(lg, f + '.c'), os.path.join(out, f + '.o'), inc, ['-O1']))
        return objs
    g = [pool.submit(gen, 'genprims', ['genpr-parse'], 'genpr-scan'),
         pool.submit(gen, 'genvm', ['genvm-parse'], 'genvm-scan'),
         pool.submit(gen, 'genbc', ['genbc-decl', 'genbc-impl'], 'genbc-scan', ['genbc'])]
    for f in futs:
        f.result()
    objs = [f.result() for f in g]
    for n, o in zip(('genprims', 'genvm', 'genbc'), objs):
        run(['gcc', '-no-pie', '-o', os.path.join(out, n)] + o + sobj + ['-lm'])
    run('%s/genprims < prims.def > prims.inl' % out, cwd=lg)
    run('%s/genbc ./byte.def ./byte.c ./opt.c ./xlat.c > match.h' % out, cwd=lg)
    run("%s/genvm < ./vm.def | awk '{ /^#/ && gsub(/__oline__/,NR+1); print }' > vm.inl" % out, cwd=lg)
    visible_table(lg + '/vm.def', out + '/visible.h')
    srcs = am_sources(lg + '/Makefile.am', 'libgst_la_SOURCES')
    srcs.sort(key=lambda s: s not in ('interp.c', 'opt.c'))
    objs = [pool.submit(cc, os.path.join(lg, s), os.path.join(out, 'gst-' + s.replace('/', '_')[:-2] + '.o'), inc)
            for s in srcs]
    objs.append(pool.submit(cc, src + '/main.c', out + '/main.o', inc))
    for h in harness:
        objs.append(pool.submit(cc, h, out + '/' + os.path.basename(h)[:-2] + '.o', inc + [out]))
    objs = [o.result() for o in objs]
    run(['gcc', '-no-pie', '-rdynamic', '-o', out + '/gst.tmp'] + objs + sobj +
        '-lsigsegv -lffi -lreadline -lltdl -lgmp -lm -ldl -lpthread'.split())
    os.rename(out + '/gst.tmp', out + '/gst')


INVISIBLE = set("""ADVANCE PREFETCH EXT_BYTE PLUS_SPECIAL MINUS_SPECIAL LESS_THAN_SPECIAL
GREATER_THAN_SPECIAL LESS_EQUAL_SPECIAL GREATER_EQUAL_SPECIAL EQUAL_SPECIAL NOT_EQUAL_SPECIAL
TIMES_SPECIAL DIVIDE_SPECIAL REMAINDER_SPECIAL BIT_XOR_SPECIAL BIT_SHIFT_SPECIAL
INTEGER_DIVIDE_SPECIAL BIT_AND_SPECIAL BIT_OR_SPECIAL CLASS_SPECIAL IS_NIL_SPECIAL NOT_NIL_SPECIAL
SAME_OBJECT_SPECIAL PUSH_TEMPORARY_VARIABLE STORE_TEMPORARY_VARIABLE JUMP JUMP_BACK POP_JUMP_FALSE
POP_JUMP_TRUE PUSH_INTEGER PUSH_SPECIAL PUSH_LIT_CONSTANT POP_INTO_NEW_STACKTOP POP_STACK_TOP
MAKE_DIRTY_BLOCK RETURN_METHOD_STACK_TOP RETURN_CONTEXT_STACK_TOP DUP_STACK_TOP
LINE_NUMBER_BYTECODE PUSH_SELF""".split())
SENDS = set('SEND SEND_SUPER SEND_IMMEDIATE SEND_SUPER_IMMEDIATE VALUE_SPECIAL VALUE_COLON_SPECIAL'.split())


def visible_table(src, dst):
    """Classify the bytecodes (superoperators included) for mc.c."""
    txt = open(src, encoding='latin1').read()
    m = re.search(r'^table normal_byte_codes \{(.*?)^\}', txt, re.M | re.S)
    tab = [2] * 256
    for b in re.finditer(r'^  (\d+) = bytecode \w+ \{(.*?)^  \}', m.group(1) if m else '', re.M | re.S):
        ops = re.findall(r'([A-Z_]+) \(', b.group(2))
        rest = [o for o in ops if o not in INVISIBLE]
        v = 0 if not rest else 1 if set(rest) <= SENDS else 2
        tab[int(b.group(1))] = v
    with open(dst, 'w') as f:
        f.write('static const unsigned char visible_bytecode[256] = {%s};\n' % ','.join(map(str, tab)))


class Build:
    pass


def digest_file(p):
    return hashlib.sha256(open(p, 'rb').read()).hexdigest()


def build(log=sys.stderr):
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    src = os.path.join(WORK, 'src')
    out = os.path.join(WORK, 'bin')
    vmk, kerk, pkk = sync(src)
    hdir = os.path.join(VERIF, 'harness')
    harness = sorted(os.path.join(hdir, f) for f in (os.listdir(hdir) if os.path.isdir(hdir) else ())
                     if f.endswith('.c'))
    vmk += ''.join(digest_file(h) for h in harness) + digest_file(os.path.abspath(__file__))
    vmk = hashlib.sha256(vmk.encode()).hexdigest()
    stamp = os.path.join(WORK, 'vm.key')
    istamp = os.path.join(WORK, 'im.key')

    def rd(p):
        try:
            return open(p).read()
        except OSError:
            return None
    if rd(stamp) != vmk or not os.path.exists(out + '/gst'):
        for p in (stamp, istamp):
            if os.path.exists(p):
                os.unlink(p)
        build_vm(src, out, harness)
        open(stamp, 'w').write(vmk)
    t1 = time.time()
    b = Build()
    b.work, b.src, b.gst = WORK, src, out + '/gst'
    b.kernel = os.path.join(src, 'kernel')
    b.image = os.path.join(WORK, 'gst.im')
    ik = hashlib.sha256((vmk + kerk).encode()).hexdigest()
    b.key = hashlib.sha256((ik + pkk).encode()).hexdigest()
    if rd(istamp) != ik or not os.path.exists(b.image):
        if os.path.exists(istamp):
            os.unlink(istamp)
        tmp = os.path.join(WORK, 'new.im')
        if os.path.exists(tmp):
            os.unlink(tmp)
        env = dict(os.environ, HOME=WORK)
        for k in list(env):
            if k.startswith('MC_') or k.startswith('SMALLTALK'):
                del env[k]
        outp = run([b.gst, '-iQ', '/dev/null', '--kernel-dir', b.kernel, '--image', tmp],
                   cwd=WORK, env=env, timeout=300).decode('latin1')
        bad = re.findall(r'^.*kernel/[A-Za-z0-9_]+\.st:\d+: .*$', outp, re.M)
        if bad or not os.path.exists(tmp):
            raise BuildError('kernel image: ' + outp[-3000:])
        os.rename(tmp, b.image)
        open(istamp, 'w').write(ik)
    print('build: vm %.1fs image %.1fs' % (t1 - t0, time.time() - t1), file=log)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return b


if __name__ == '__main__':
    b = build()
    print(b.gst, b.image, b.key)
