"""Modules and classes of packages, built from /repo's current tree.

    m = module(b, 'zlib', ['zlib.c'], ['-lz'])      -> path for DLD addModule:
    pre(b, [(module, ...)], ['packages/zlib/ZLibStream.st', ...]) -> source text to load them"""
import os, fcntl, hashlib
import build as B


def module(b, pkg, sources, libs=()):
    d = os.path.join(b.work, 'mods')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, '%s.so' % pkg)
    src = [os.path.join(b.src, 'packages', pkg, s) for s in sources]
    lock = open(os.path.join(d, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    key = b.key + B.digest_file(os.path.abspath(__file__))
    stamp = so + '.key'
    if not os.path.exists(so) or not os.path.exists(stamp) or open(stamp).read() != key:
        inc = [os.path.join(b.src, 'libgst'), b.src, os.path.join(b.src, 'lib-src'), os.path.join(b.src, 'packages', pkg)]
        B.run(['gcc', '-shared', '-fPIC', '-O2', '-g1', '-w', '-DHAVE_CONFIG_H'] + ['-I' + i for i in inc]
              + ['-o', so] + src + list(libs))
        open(stamp, 'w').write(key)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return so[:-3]
