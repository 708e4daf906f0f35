"""C26: digests and compressed streams compute the standard functions however data is cut."""
import os, sys, itertools, hashlib, zlib, ctypes, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq, pkg

PATS = [('zeros', lambda i: 0), ('ones', lambda i: 255), ('mixed', lambda i: (i * 167 + i // 256 * 13 + 5) % 256), ('top', lambda i: 128)]
PRE = r'''
Object subclass: D [
  D class >> data: n pattern: p [ | s f |
    f := {[:i | 0]. [:i | 255]. [:i | i * 167 + (i // 256 * 13) + 5 \\ 256]. [:i | 128]} at: p.
    s := String new: n. 0 to: n - 1 do: [ :i | s valueAt: i + 1 put: (f value: i) ]. ^s ]
  D class >> hex: b [ | s | s := WriteStream on: String new.
    b do: [ :c | s nextPut: (Character digitValue: c asInteger // 16); nextPut: (Character digitValue: c asInteger \\ 16) ]. ^s contents ]
]
'''
BUF = {}


def data(n, p):
    if p not in BUF:
        BUF[p] = bytes(PATS[p][1](i) for i in range(70000))
    return BUF[p][:n]


def digests(c):
    L = 1300 if THOROUGH else 700
    m = os.path.join(c.b.work, 'c26-mod.st')
    open(m, 'w').write("Eval [ DLD addModule: 'digest' ]\n")
    files = [m] + [os.path.join(c.b.src, 'packages/digest', f) for f in ('digest.st', 'md5.st', 'sha1.st')]
    env = dict(SMALLTALK_MODULES=os.path.join(c.b.work, 'mods'))
    for cls, h in (('MD5', hashlib.md5), ('SHA1', hashlib.sha1)):
        code = r"""
 | k |
 k := 0.
 1 to: 4 do: [ :p | | s | s := D data: %d pattern: p. 0 to: %d do: [ :len |
   k \\ n = shard ifTrue: [ | x | x := s copyFrom: 1 to: len.
     out nextPutAll: (%s hexDigestOf: x); space; nextPutAll: (D hex: (%s digestOf: x readStream)); space;
         nextPutAll: ([ :d | x do: [ :ch | d nextPut: ch ]. d hexDigest ] value: %s new); nl ].
   k := k + 1 ] ]
""" % (L, L, cls, cls, cls)

        def exp(shard, n, h=h):
            k = 0
            for p in range(4):
                for l in range(L + 1):
                    if k % n == shard:
                        x = h(data(l, p)).hexdigest()
                        yield 'pattern %s length %d' % (PATS[p][0], l), '%s %s %s' % (x, x.upper(), x)
                    k += 1
        seq.table(c, cls + ' of every length', code, exp, pre=PRE, files=files, env=env)

        M = 400 if THOROUGH else 200
        code = r"""
 | k s |
 k := 0. s := D data: %d pattern: 3.
 0 to: %d do: [ :len | 0 to: len do: [ :cut |
   k \\ n = shard ifTrue: [ | d e |
     d := %s new. d nextPutAll: (s copyFrom: 1 to: cut). e := d copy.
     out nextPutAll: d partialHexDigest; space.
     d nextPutAll: (s copyFrom: cut + 1 to: len).
     e nextPutAll: (s copyFrom: cut + 1 to: len) readStream.
     out nextPutAll: d hexDigest; space; nextPutAll: e hexDigest; nl ].
   k := k + 1 ] ]
""" % (M, M, cls)

        def exp2(shard, n, h=h):
            k = 0
            s = data(M, 2)
            for l in range(M + 1):
                for cut in range(l + 1):
                    if k % n == shard:
                        x = h(s[:l]).hexdigest()
                        yield 'bytes %d then %d' % (cut, l - cut), '%s %s %s' % (h(s[:cut]).hexdigest(), x, x)
                    k += 1
        seq.table(c, cls + ' in two parts', code, exp2, pre=PRE, files=files, env=env)

        sizes = [0, 1, 8, 55, 56, 63, 64, 65, 73, 119, 120, 127, 128, 129, 192, 200]
        code = r"""
 | k s z |
 k := 0. s := D data: 4000 pattern: 3. z := #(%s).
 z do: [ :a | z do: [ :b | z do: [ :d | z do: [ :e |
   k \\ n = shard ifTrue: [ | x i | i := 0.
     x := %s new. {a. b. d. e} do: [ :l | x nextPutAll: (s copyFrom: i + 1 to: i + l). i := i + l. l odd ifTrue: [ x partialDigest ] ].
     out nextPutAll: x hexDigest; nl ].
   k := k + 1 ] ] ] ]
""" % (' '.join(map(str, sizes)), cls)

        def exp3(shard, n, h=h):
            s = data(4000, 2)
            for k, t in enumerate(itertools.product(sizes, repeat=4)):
                if k % n == shard:
                    yield 'bytes %d, %d, %d, %d' % t, h(s[:sum(t)]).hexdigest()
        seq.table(c, cls + ' in four parts', code, exp3, pre=PRE, files=files, env=env)


def _big(so, name, h, size, q):
    """The digest of more than 4 GB, with every tail of some sizes, at each counter boundary."""
    lib = ctypes.CDLL(so + '.so')
    n = 0
    bad = []
    try:
        ctx = ctypes.create_string_buffer(size)
        getattr(lib, name + '_init_ctx')(ctx)
        proc, fin = getattr(lib, name + '_process_bytes'), getattr(lib, name + '_finish_ctx')
        proc.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_void_p]
        fin.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        ref = h()
        step = 1 << 26
        buf = bytes((i * 31 + (i >> 8)) & 255 for i in range(1 << 16)) * (step >> 16)
        pos = 0
        for goal in (1 << 28, 1 << 29, 1 << 31, 1 << 32, (1 << 32) + (1 << 29)):
            while pos < goal - step:
                proc(buf, step, ctx)
                ref.update(buf)
                pos += step
            # the last step stops just before the boundary
            cut = step - 100
            proc(buf, cut, ctx)
            ref.update(buf[:cut])
            for t in (0, 35, 36, 37, 43, 44, 45, 91, 92, 99, 100, 101, 155, 156, 163, 164, 165, 200):
                c2 = ctypes.create_string_buffer(ctx.raw, size)
                proc(buf, t, c2)
                r2 = ref.copy()
                r2.update(buf[:t])
                out = ctypes.create_string_buffer(32)
                fin(c2, out)
                n += 1
                d = r2.digest()
                if out.raw[:len(d)] != d:
                    bad.append((pos + cut + t, d.hex(), out.raw[:len(d)].hex()))
            proc(buf, 100, ctx)
            ref.update(buf[:100])
            pos += step
    except Exception as e:
        bad.append((0, 'no exception', repr(e)))
    q.put((name, n, bad))


def big(c, so):
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=_big, args=(so, n, h, 1024, q)) for n, h in (('md5', hashlib.md5), ('sha1', hashlib.sha1))]
    for p in ps:
        p.start()
    return q, ps


def big_end(c, q, ps):
    for p in ps:
        try:
            name, n, bad = q.get(timeout=300)
        except Exception:
            c.violation('%s:big' % name, 'digest of large inputs gave no answer')
            continue
        c.states += n
        c.transitions += n
        c.traces += n
        c.parts.append('%s of up to 4.5 GB, around the boundaries of the length counter: %d inputs' % (name, n))
        print('C26: %s of large inputs: %d, mismatches %d' % (name, n, len(bad)))
        for pos, want, got in bad[:5]:
            c.violation('%s:big:%d' % (name, pos), '%s of %d bytes: expected %s, got %s' % (name, pos, want, got))


# ---- compressed streams ----
ZPRE = PRE + r'''
Object subclass: Z [
  Z class >> data: n kind: k [ "0 zeros, 1 text, 2 noise"
    | s x | s := String new: n.
    x := 12345.
    0 to: n - 1 do: [ :i |
      k = 0 ifTrue: [ s valueAt: i + 1 put: 0 ].
      k = 1 ifTrue: [ s valueAt: i + 1 put: 97 + (i * i // 7 \\ 11) ].
      k = 2 ifTrue: [ x := x * 1103 + 12345 \\ 65537. s valueAt: i + 1 put: x // 8 \\ 256 ] ].
    ^s ]
]
Stream subclass: Trickle [ | s k |
  "A source that gives few bytes at a time."
  Trickle class >> on: aStream by: n [ ^self new setS: aStream k: n ]
  setS: a k: n [ s := a. k := n ]
  atEnd [ ^s atEnd ]
  next [ ^s next ]
  species [ ^s species ]
  reset [ s reset ]
  isExternalStream [ ^false ]
  nextAvailable: n [ ^s nextAvailable: (n min: k) ]
  nextAvailable: n into: c startingAt: p [ ^s nextAvailable: (n min: k) into: c startingAt: p ]
  nextAvailable: n putAllOn: c [ ^s nextAvailable: (n min: k) putAllOn: c ]
]
'''


def zdata(n, k):
    if k == 0:
        return bytes(n)
    if k == 1:
        return bytes(97 + i * i // 7 % 11 for i in range(n))
    x, out = 12345, bytearray()
    for i in range(n):
        x = (x * 1103 + 12345) % 65537
        out.append(x // 8 % 256)
    return bytes(out)


WB = {'RawDeflateStream': -15, 'DeflateStream': 15, 'GZipDeflateStream': 31}


def unz(hexs, wbits):
    d = zlib.decompressobj(wbits)
    r = d.decompress(bytes.fromhex(hexs))
    if not d.eof or d.unused_data:
        return None
    return r


def judge(wbits, want):
    def f(got):
        try:
            r = unz(got, wbits)
        except Exception as e:
            return 'a compressed form of %d bytes (this is not: %s)' % (len(want), e)
        if r == want:
            return got
        return 'a compressed form of %d bytes, it is one of %s' % (len(want), 'a part' if r is None else '%d other bytes' % len(r))
    return f


def zwrite(c, files, env):
    """All sequences of operations on compressing write streams."""
    for bs in (8, 100, 16384):
        # sizes relative to the buffer
        sizes = sorted(set([1, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 1, 3]))
        ops = ['put'] + ['all %d' % z for z in sizes] + ['flushBuffer', 'flush', 'partialFlush', 'syncFlush', 'flushDictionary', 'position']
        depth = (4 if bs < 1000 else 3) if THOROUGH else (3 if bs < 1000 else 2)
        code = r"""
 | d k z |
 ZLib.ZlibStream bufferSize: %d.
 z := #(%s). d := Z data: 200000 kind: 1. k := 0.
 #(#RawDeflateStream #DeflateStream #GZipDeflateStream) do: [ :cls |
 0 to: %d do: [ :len | | idx | idx := Array new: len withAll: 1.
   [ k \\ n = shard ifTrue: [ | s i ops |
       i := 0. s := (ZLib at: cls) compressingTo: (WriteStream on: String new).
       [ idx do: [ :o |
         o = 1 ifTrue: [ i := i + 1. s nextPut: (d at: i) ] ifFalse: [
         o - 1 <= z size ifTrue: [ s next: (z at: o - 1) putAll: d startingAt: i + 1. i := i + (z at: o - 1) ] ifFalse: [
         s perform: (#(#flushBuffer #flush #partialFlush #syncFlush #flushDictionary #position) at: o - 1 - z size) ] ] ].
       out nextPutAll: (D hex: s contents); nl ] on: Error do: [ :e | out nextPutAll: 'error ', e messageText printString; nl. e return: nil ] ].
     k := k + 1.
     Enum next: idx base: z size + 7 ] whileTrue ] ]
""" % (bs, ' '.join(map(str, sizes)), depth)

        def exp(shard, n):
            d = zdata(200000, 1)
            k = 0
            for cls in ('RawDeflateStream', 'DeflateStream', 'GZipDeflateStream'):
                for l in range(depth + 1):
                    for t in itertools.product(range(len(ops)), repeat=l):
                        if k % n == shard:
                            i = 0
                            for o in t:
                                i += 1 if o == 0 else sizes[o - 1] if o <= len(sizes) else 0
                            yield '%s, buffer %d: %s' % (cls, bs, '; '.join(ops[o] for o in t)), judge(WB[cls], d[:i])
                        k += 1
        seq.table(c, 'compressing writes, buffer %d' % bs, code, exp, pre=ZPRE, files=files, env=env, weight=depth)


LENS = [0, 1, 2, 7, 8, 9, 100, 1023, 1024, 1025, 2048, 3000, 16383, 16384, 16385, 20000, 32768, 32769, 50000]


def zcompress(c, files, env):
    """Compressing while reading."""
    combos = [(cls, n, kind, level, bs, tr) for cls in WB for n in LENS for kind in (0, 1, 2) for level in (1, 6, 9) for bs in (1, 7, 500, 16384) for tr in (0, 1, 100)
              if n <= 3000 or (bs > 7 and tr != 1)]
    code = r"""
 | k |
 k := 0.
 #(%s) do: [ :x |
   k \\ n = shard ifTrue: [ | s |
     ZLib.ZlibStream bufferSize: (x at: 5).
     s := (Z data: (x at: 2) kind: (x at: 3)) readStream.
     (x at: 6) > 0 ifTrue: [ s := Trickle on: s by: (x at: 6) ].
     s := (ZLib at: (x at: 1)) on: s level: (x at: 4).
     out nextPutAll: ([ D hex: s upToEnd ] on: Error do: [ :e | e return: 'error ', e messageText printString ]); nl ].
   k := k + 1 ]
""" % ' '.join('(#%s %d %d %d %d %d)' % x for x in combos)

    def exp(shard, n):
        ds = {}
        for k, x in enumerate(combos):
            if k % n == shard:
                if (x[1], x[2]) not in ds:
                    ds[x[1], x[2]] = zdata(x[1], x[2])
                yield '%s on %d bytes of kind %d, level %d, buffer %d, source by %d' % x, judge(WB[x[0]], ds[x[1], x[2]])
    seq.table(c, 'compressing reads', code, exp, pre=ZPRE, files=files, env=env)


def zread(c, files, env):
    """All sequences of operations on a decompressing stream."""
    class St:
        pass
    for name, L, kind, bs, tr, depth in (('buffer 8', 30, 1, 8, 0, 3), ('buffer 8, source by 1', 30, 2, 8, 1, 3), ('buffer 1000', 5000, 2, 1000, 0, 3), ('buffer 16384', 60000, 2, 16384, 0, 3),
                                         ('buffer 16384, text', 60000, 1, 16384, 0, 3), ('empty', 0, 1, 16384, 0, 2)):
        if THOROUGH:
            depth += 1 if L < 10000 else 0
        elif L > 10000:
            depth = 2
        d = zdata(L, kind)
        b = bs
        f = 'deflate'
        comp = zlib.compress(d, 6)
        fn = os.path.join(c.b.work, 'c26-%s.z' % re.sub(r'\W', '_', name))
        open(fn, 'wb').write(comp)
        sizes = sorted(set([0, 1, b // 2 + 1, b - 1, b, b + 1, 2 * b + 1, L + 5]))
        ops = ['next', 'peek', 'atEnd', 'upToEnd', 'position', 'peekFor', 'reset'] + ['next: %d' % z for z in sizes] + ['nextAvailable: %d' % z for z in sizes] \
            + ['position: %d' % z for z in (0, 3 if L > 3 else 0, b - 1, b, b + 1, 2 * b, L) if z <= L] + ['skip: %d' % z for z in (1, -1, b, -b)] + ['upTo', 'copyFrom 2 to 5']
        stops = []
        for o in ops:
            w, _, a = o.partition(': ')
            stops.append({
                'next': '[s next asInteger]' if not a else '[Z sum: (s next: %s)]' % a,
                'peek': '[s peek asInteger]', 'atEnd': '[s atEnd]', 'upToEnd': '[Z sum: s upToEnd]', 'position': '[s position]' if not a else '[s position: %s. 0]' % a,
                'peekFor': '[s peekFor: $a]', 'reset': '[s reset. 0]', 'nextAvailable': '[Z avail: s count: %s]' % a, 'skip': '[s skip: %s. 0]' % a,
                'upTo': '[Z sum: (s upTo: $c)]', 'copyFrom 2 to 5': '[Z sum: (s copyFrom: 2 to: 5)]'}[w])
        code = r"""
 | src k ops |
 ZLib.ZlibStream bufferSize: %d.
 src := (FileStream open: '%s' mode: FileStream read) contents. k := 0.
 ops := { %s }.
 0 to: %d do: [ :len | | idx | idx := Array new: len withAll: 1.
   [ k \\ n = shard ifTrue: [ | s |
      s := src readStream. %s
      s := ZLib.InflateStream on: s.
      [ idx do: [ :o | out nextPutAll: ((ops at: o) value: s) printString; space ].
        out nextPutAll: (Z sum: s upToEnd) printString; nl ] on: Error do: [ :e | out nextPutAll: 'error'; nl. e return ] ].
     k := k + 1.
     Enum next: idx base: ops size ] whileTrue ]
""" % (bs, fn, '. '.join(o.replace('[', '[ :s | ', 1) for o in stops), depth, 's := Trickle on: s by: %d.' % tr if tr else '')

        def adl(x):
            return '%d %d' % (len(x), zlib.adler32(x))

        def step(pos, o):
            """-> (new position, printed) or None if outside the contract."""
            w, _, a = o.partition(': ')
            a = int(a) if a else None
            left = L - pos
            if w == 'next':
                if a is None:
                    return (pos + 1, str(d[pos])) if left else None
                return (pos + a, adl(d[pos:pos + a])) if a <= left else None
            if w == 'peek':
                return (pos, str(d[pos])) if left else None
            if w == 'atEnd':
                return pos, 'false' if left else 'true'
            if w == 'upToEnd':
                return L, adl(d[pos:])
            if w == 'position':
                return (pos, str(pos)) if a is None else (a, '0')
            if w == 'peekFor':
                if not left:
                    return None
                return (pos + 1, 'true') if d[pos] == 97 else (pos, 'false')
            if w == 'reset':
                return 0, '0'
            if w == 'nextAvailable':
                return min(L, pos + a), adl(d[pos:pos + a])
            if w == 'skip':
                return (pos + a, '0') if 0 <= pos + a <= L else None
            if w == 'upTo':
                i = d.find(b'c', pos)
                return (L, adl(d[pos:])) if i < 0 else (i + 1, adl(d[pos:i]))
            if w.startswith('copy'):
                return (pos, adl(d[2:5])) if L > 5 else None

        def exp(shard, n):
            k = 0
            for l in range(depth + 1):
                for t in itertools.product(range(len(ops)), repeat=l):
                    if k % n == shard:
                        pos, o2 = 0, []
                        for o in t:
                            r = step(pos, ops[o])
                            if r is None:
                                break
                            pos = r[0]
                            o2.append(r[1])
                        else:
                            r = 0
                        txt = 'inflating %d bytes (%s): %s' % (L, name, '; '.join(ops[o] for o in t))
                        if r is None:           # outside of the contract from here on
                            pre = ' '.join(o2)
                            yield txt, (lambda got, pre=pre: got if (got + ' ').startswith(pre) else pre + ' ...')
                        else:
                            yield txt, ' '.join(o2 + [adl(d[pos:])])
                    k += 1
        zp = ZPRE + r'''
Z class extend [
  sum: s [ | a b | a := 1. b := 0. s do: [ :c | a := a + c asInteger. a >= 65521 ifTrue: [ a := a - 65521 ]. b := b + a. b >= 65521 ifTrue: [ b := b - 65521 ] ]. ^Sum new setN: s size v: b * 65536 + a ]
  avail: s count: n [ | w r | "repeat until all there is" w := WriteStream on: String new.
    [ w contents size < n and: [ s atEnd not ] ] whileTrue: [ w nextPutAll: (s nextAvailable: n - w contents size) ].
    ^self sum: w contents ]
]
Object subclass: Sum [ | n v | setN: a v: b [ n := a. v := b ] printOn: s [ s print: n; space; print: v ] ]
'''
        seq.table(c, 'inflating, ' + name, code, exp, pre=zp, files=files, env=env, weight=depth)


def zbad(c, files, env):
    """Damaged, truncated and followed streams: as zlib itself decides, and without hanging."""
    items = []
    for cls, wb in sorted(WB.items()):
        for d in (b'', b'a', b'hello hello hello hello', zdata(60, 2)):
            o = zlib.compressobj(9, zlib.DEFLATED, wb)
            x = o.compress(d) + o.flush()
            for cut in range(len(x) + 1):
                items.append((cls, wb, x[:cut]))
            for tail in (b'\0', b'abc', bytes(2000), x, x + b'z'):
                items.append((cls, wb, x + tail))
            for i in range(len(x)):
                for v in range(256) if len(x) < (80 if THOROUGH else 32) else (x[i] ^ 1, x[i] ^ 128, 0, 255):
                    if v != x[i]:
                        items.append((cls, wb, x[:i] + bytes([v]) + x[i + 1:]))
            if wb != -15:
                for h in range(65536):
                    if wb == 31 and h % 3 and not THOROUGH or wb == 15 and h % 31 and not (THOROUGH or h % 7 == 0):
                        continue
                    items.append((cls, wb, bytes([h >> 8, h & 255]) + x[2:]))
        # raw blocks: every first two bytes
    f = os.path.join(c.b.work, 'c26-bad.txt')
    with open(f, 'w') as h:
        for cls, wb, x in items:
            h.write('%s %s\n' % (cls.replace('Deflate', 'Inflate'), x.hex().upper()))
    code = r"""
 | f k |
 f := FileStream open: '%s' mode: FileStream read.
 k := 0.
 [ f atEnd ] whileFalse: [ | line |
   line := f nextLine.
   k \\ n = shard ifTrue: [ | cls s w |
     line := line subStrings. cls := ZLib at: line first asSymbol.
     s := String new: (line size > 1 ifTrue: [ line last size // 2 ] ifFalse: [ 0 ]).
     1 to: s size do: [ :i | s valueAt: i put: (line last at: i * 2 - 1) digitValue * 16 + (line last at: i * 2) digitValue ].
     w := WriteStream on: String new.
     [ s := cls on: s readStream. [ s atEnd ] whileFalse: [ w nextPut: s next ]. out nextPutAll: (D hex: w contents); nl ]
       on: Error do: [ :e | out nextPutAll: 'error'; nl. e return: nil ] ].
   k := k + 1 ]
""" % f

    def exp(shard, n):
        for k in range(shard, len(items), n):
            cls, wb, x = items[k]
            d = zlib.decompressobj(wb)
            try:
                r = d.decompress(x).hex().upper()
                if not d.eof and wb == 15 and len(x) > 1 and x[1] & 32:
                    r = 'error'         # wants a dictionary
            except zlib.error:
                r = 'error'
            yield '%s on %s' % (cls.replace('De', 'In'), x.hex()), r
    seq.table(c, 'damaged streams', code, exp, pre=ZPRE, files=files, env=env)


def main():
    with Check('C26') as c:
        so = pkg.module(c.b, 'digest', ['digest.c', 'md5.c', 'sha1.c'])
        pkg.module(c.b, 'zlib', ['zlib.c'], ['-lz'])
        only = os.environ.get('MC_ONLY', 'digests big zwrite zcompress zread zbad').split()
        if 'big' in only:
            q, ps = big(c, so)
        if 'digests' in only:
            digests(c)
        if 'big' in only:
            big_end(c, q, ps)
        files = [os.path.join(c.b.src, 'packages/zlib', f) for f in ('ZLibStream.st', 'ZLibReadStream.st', 'ZLibWriteStream.st')]
        env = dict(SMALLTALK_MODULES=os.path.join(c.b.work, 'mods'))
        w = os.path.join(c.b.work, 'c26-zlib.st')
        body = ''.join(open(f, encoding='latin1').read() for f in files)
        open(w, 'w', encoding='latin1').write('Eval [ Smalltalk addSubspace: #ZLib ]\nNamespace current: Smalltalk.ZLib [\n%s\n]\n' % body)
        for n, f in (('zwrite', zwrite), ('zcompress', zcompress), ('zread', zread), ('zbad', zbad)):
            if n in only:
                f(c, [w], env)


if __name__ == '__main__':
    main()
