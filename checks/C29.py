"""C29: values cross the boundary between Smalltalk and C unchanged."""
import os, sys, itertools, struct, fcntl, subprocess
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import build as B
import seq

INTS = dict(char=(8, 1, 'char'), uChar=(8, 0, 'unsigned char'), short=(16, 1, 'short'), uShort=(16, 0, 'unsigned short'),
            int=(32, 1, 'int'), uInt=(32, 0, 'unsigned int'), long=(64, 1, 'long'), uLong=(64, 0, 'unsigned long'),
            longLong=(64, 1, 'long long'), uLongLong=(64, 0, 'unsigned long long'), boolean=(32, 1, 'int'), wchar=(32, 1, 'wchar_t'))
FLOATS = dict(float='float', double='double', longDouble='long double')
PTRS = dict(string='char *', symbol='char *', byteArray='unsigned char *', wstring='wchar_t *', cObject='char *')
CT = {t: v[2] for t, v in INTS.items()}
CT.update(FLOATS)
CT.update(PTRS)
TYPES = list(CT)


def wrap(v, t):
    w, s, _ = INTS[t]
    v &= (1 << w) - 1
    return v - (1 << w) if s and v >> (w - 1) else v


def ieee(v, t):
    """Printed form of the number V (Fraction, int or float) as the C type T."""
    f = Fraction(v)
    if t == 'float':
        b = struct.unpack('<I', struct.pack('<f', struct.unpack('<f', struct.pack('<f', float(f)))[0]))[0]
        return '%x' % b
    if t == 'double':
        return '%x' % struct.unpack('<Q', struct.pack('<d', float(f)))[0]
    if f == 0:
        return '0:0'
    sgn, f = (0x8000, -f) if f < 0 else (0, f)
    e = 0
    while f >= 2:
        f /= 2
        e += 1
    while f < 1:
        f *= 2
        e -= 1
    m = f * 2**63
    n = m.numerator // m.denominator
    r = m - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n == 1 << 64:
        n >>= 1
        e += 1
    return '%x:%x' % (sgn | (e + 16383), n)


# (Smalltalk expression, kind, value)
VALUES = [(str(v), 'int', v) for v in (0, 1, -1, 65, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, -32769, 2**31 - 1, 2**31,
                                       2**32 - 1, 2**32, -2**31, -2**31 - 1, 2**53 + 1, 2**62 - 1, 2**62, -2**62, -2**62 - 1, 2**63 - 1, 2**63,
                                       -2**63, 2**64 - 1, 2**63 + 2**10 + 1)]
VALUES += [('true', 'bool', 1), ('false', 'bool', 0)]
VALUES += [('(Character value: %d)' % v, 'chr', v) for v in (0, 65, 127)]
VALUES += [('(Character value: %d)' % v, 'chr', v) for v in (128, 255)]
VALUES += [('(Character codePoint: %d)' % v, 'uchr', v) for v in (8364, 0x10FFFF)]
VALUES += [(s, 'flt', Fraction(v)) for s, v in (('1.5', 1.5), ('-0.125', -0.125), ('0.0', 0), ('1.0d300', 1e300) , ('0.1', 0.1), ('1.5e0', 1.5),
                                                ('0.5q0', 0.5), ('(1 asFloatQ + (2 raisedTo: -63))', 1 + Fraction(1, 2**63)),
                                                ('(3 asFloatQ / (2 raisedTo: 70))', Fraction(3, 2**70)))]
VALUES += [("'abc'", 'str', b'abc'), ("''", 'str', b''), ("(String with: (Character value: 200) with: $a with: (Character value: 255))", 'str', b'\xc8a\xff'),
           ("(String new: 300 withAll: $q)", 'str', b'q' * 300),
           ("#foo", 'sym', b'foo'), ("#at:put:", 'sym', b'at:put:'), ("#[1 2 255 0]", 'bytes', bytes([1, 2, 255])), ("#[0 0]", 'bytes', b''),
           ("(UnicodeString with: (Character codePoint: 120))", 'ustr', [120]), ("(UnicodeString with: (Character codePoint: 8364) with: (Character codePoint: 16r10FFFF))", 'ustr', [8364, 0x10ffff]),
           ("nil", 'nil', None), ("(1/2)", 'other', None), ("Object new", 'other', None), ("Object", 'other', None), ("#(1 2)", 'other', None),
           ("'ab' asCData", 'cobj', b'ab'), ("(CObject address: 0)", 'cobj', None), ("('ab' asCData addressAt: 1)", 'cobj', b'b'), ("(CInt gcValue: 16r414243)", 'cobj', b'CBA')]


def pstr(b):
    return 'NULL' if b is None else '"%s"' % b.decode('latin1')


def conv(t, kind, v):
    """What C receives for the value as parameter type T; None if it is rejected."""
    if t in INTS:
        if kind == 'int' and t not in ('boolean', 'wchar'):
            return '%d' % wrap(v, t)
        if kind == 'bool' and t != 'wchar':
            return '%d' % v
        if kind == 'chr' and t in ('char', 'uChar', 'wchar'):
            if t == 'wchar':
                return '%d' % v
            return '%d' % wrap(v, t)
        if kind == 'uchr' and t == 'wchar':
            return '%d' % v
        return None
    if t in FLOATS:
        if kind in ('int', 'flt'):
            if t == 'float' and abs(v) > 2**127:
                return '7f800000'
            return ieee(v, t)
        return None
    if t == 'wstring':
        return '<%s>' % ','.join('%x' % x for x in v) if kind == 'ustr' else None
    if kind == 'nil':
        return 'NULL'
    if t == 'cObject':
        if kind == 'cobj' or kind == 'bytes':
            return pstr(v)
        return '*' if kind in ('str', 'sym', 'ustr', 'flt', 'int') else None
    if kind in ('str', 'bytes') and t in ('string', 'byteArray'):
        if t == 'byteArray':
            return '*' if len(v) < 3 and kind == 'str' else pstr(v[:3])
        return pstr(v)
    if kind == 'sym' and t in ('symbol', 'string'):
        return pstr(v)
    return None


class CFile:
    def __init__(self, name):
        self.name = name
        self.text = [r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#include <stddef.h>
#include <stdarg.h>
#define OWN __attribute__((visibility("default")))
static char bufs[64][8000];
static int bufi, calls;
static char *cur, *end;
static void start (void) { bufi = (bufi + 1) & 63; cur = end = bufs[bufi]; *cur = 0; calls++; }
static void sep (void) { if (end != cur) *end++ = ' '; }
static void p_s (long long v) { sep (); end += sprintf (end, "%lld", v); }
static void p_u (unsigned long long v) { sep (); end += sprintf (end, "%llu", v); }
static void p_float (float v) { unsigned x; memcpy (&x, &v, 4); sep (); end += sprintf (end, "%x", x); }
static void p_double (double v) { unsigned long x; memcpy (&x, &v, 8); sep (); end += sprintf (end, "%lx", x); }
static void p_longDouble (long double v) { unsigned long x; unsigned short y; memcpy (&x, &v, 8); memcpy (&y, 8 + (char *) &v, 2);
  sep (); end += sprintf (end, "%x:%lx", y, x); }
static void p_str (const char *v) { sep (); if (!v) end += sprintf (end, "NULL"); else end += sprintf (end, "\"%.2000s\"", v); }
static void p_wstring (const wchar_t *v) { sep (); *end++ = '<'; for (; *v; v++) end += sprintf (end, "%x%s", *v, v[1] ? "," : ""); *end++ = '>'; *end = 0; }
int ff_calls (void) { return calls; }
''']
        for t, (w, s, ct) in INTS.items():
            self.text.append('#define p_%s(v) p_%s (v)' % (t, 's' if s else 'u'))
        self.text.append('static void p_byteArray (const unsigned char *v) { sep (); end += sprintf (end, v ? "\\"%.3s\\"" : "NULL", v); }')
        for t in ('string', 'symbol', 'cObject'):
            self.text.append('#define p_%s(v) p_str ((char *) v)' % t)

    def fn(self, name, types):
        self.text.append('char *%s (%s) { start (); %s return cur; }' % (
            name, ', '.join('%s a%d' % (CT[t], i) for i, t in enumerate(types)) or 'void', ' '.join('p_%s (a%d);' % (t, i) for i, t in enumerate(types))))

    def add(self, s):
        self.text.append(s)

    def build(self, c):
        d = os.path.join(c.b.work, 'ffi')
        os.makedirs(d, exist_ok=True)
        src, so = os.path.join(d, self.name + '.c'), os.path.join(d, self.name + '.so')
        text = '\n'.join(self.text) + '\n'
        if not (os.path.exists(so) and os.path.exists(src) and open(src).read() == text):
            if os.path.exists(src):
                os.unlink(src)
            tmp = os.path.join(d, self.name + '-new.c')
            open(tmp, 'w').write(text)
            B.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so, tmp])
            os.rename(tmp, src)
        return so[:-3]


PRE = r'''
Object subclass: F [
  F class >> try: b [ | r | r := [ b value ] on: Error do: [ :e | e return: 'E' ]. ^r ]
  F class >> def: text [ F class compile: text ]
]
'''


def method(sel, cname, types, ret='string'):
    """Smalltalk source of a call-out; SEL is a prefix."""
    if not types:
        head = sel
    else:
        head = ' '.join('%s%s: a%d' % (sel if i == 0 else 'k', i if i else '', i) for i in range(len(types)))
    return "%s [ <cCall: '%s' returning: #%s args: #(%s)> ]" % (head, cname, ret, ' '.join('#' + t for t in types))


def call(sel, args):
    if not args:
        return 'F ' + sel
    return 'F ' + ' '.join('%s%s: %s' % (sel if i == 0 else 'k', i if i else '', a) for i, a in enumerate(args))


def load(lib):
    return "Eval [ DLD addLibrary: '%s' ]\n" % lib


def conversions(c):
    """Every parameter type with every value: accepted as documented, or rejected without a call."""
    cf = CFile('conv')
    for t in TYPES:
        cf.fn('cv_' + t, [t])
    lib = cf.build(c)
    pre = PRE + load(lib) + 'F class extend [\n calls [ <cCall: \'ff_calls\' returning: #int args: #()> ]\n' + '\n'.join(' ' + method('cv_' + t, 'cv_' + t, [t]) for t in TYPES) + ']\n'
    code = ['| vals |\n vals := {%s}.' % '.\n '.join('[%s]' % v[0] for v in VALUES)]
    code.append(' #(%s) keysAndValuesDo: [ :i :s | vals keysAndValuesDo: [ :j :b | i + j \\\\ n = shard ifTrue: [ | v c r |'
                ' v := b value. c := F calls. r := F try: [ F perform: s with: v ].'
                ' out nextPutAll: r displayString; space; print: F calls - c; nl ] ] ]' % ' '.join('#cv_%s:' % t for t in TYPES))

    def exp(shard, n):
        for i, t in enumerate(TYPES, 1):
            for j, (s, kind, v) in enumerate(VALUES, 1):
                if (i + j) % n == shard:
                    r = conv(t, kind, v)
                    if r == '*':
                        yield '%s as #%s' % (s, t), (lambda got: got)
                    else:
                        yield '%s as #%s' % (s, t), 'E 0' if r is None else r + ' 1'
    seq.table(c, 'parameter types', '\n'.join(code), exp, pre=pre, quiet=True)


ACC = dict(char=['-128', '$a', '127'], uChar=['255', '$z', '128'], short=['-32768', '32767', '-2'], uShort=['65535', '1', '32768'],
           int=['-2147483648', '2147483647', '-5'], uInt=['4294967295', '7', '2147483648'], long=['-4611686018427387904', '9223372036854775807', '-9223372036854775808'],
           uLong=['18446744073709551615', '9223372036854775808', '5'], longLong=['-9223372036854775808', '4611686018427387904', '-1'],
           uLongLong=['18446744073709551615', '3', '9223372036854775809'], boolean=['true', 'false', 'true'], wchar=['(Character codePoint: 16r10FFFF)', '$w', '(Character value: 200)'],
           float=['1.5', '-0.1', '16777217'], double=['0.1', '-7', '1.0d300'], longDouble=['(1 asFloatQ + (2 raisedTo: -63))', '-0.5', '9223372036854775807'],
           string=["'abc'", "''", '#foo'], symbol=['#bar', '#a:b:', '#+'], byteArray=['#[97 0 0]', '#[255 254 0]', '#[0 0 0]'],
           wstring=["(UnicodeString with: (Character codePoint: 120) with: (Character codePoint: 8364))", "(UnicodeString new)", "(UnicodeString with: (Character codePoint: 9))"],
           cObject=["K1", '#[98 99 0]', 'nil'])
KIND = {'$a': ('chr', 97), '$z': ('chr', 122), '$w': ('chr', 119), 'true': ('bool', 1), 'false': ('bool', 0), '#foo': ('sym', b'foo'), '#bar': ('sym', b'bar'),
        '#a:b:': ('sym', b'a:b:'), '#+': ('sym', b'+'), "'abc'": ('str', b'abc'), "''": ('str', b''), '#[97 0 0]': ('bytes', b'a'),
        '#[255 254 0]': ('bytes', b'\xff\xfe'), '#[0 0 0]': ('bytes', b''), '#[98 99 0]': ('bytes', b'bc'), 'nil': ('nil', None), 'K1': ('cobj', b'ab'),
        '(Character codePoint: 16r10FFFF)': ('uchr', 0x10ffff), '(Character value: 200)': ('chr', 200),
        "(UnicodeString with: (Character codePoint: 120) with: (Character codePoint: 8364))": ('ustr', [120, 8364]), "(UnicodeString new)": ('ustr', []),
        "(UnicodeString with: (Character codePoint: 9))": ('ustr', [9]), '(1 asFloatQ + (2 raisedTo: -63))': ('flt', 1 + Fraction(1, 2**63)),
        '1.5': ('flt', 1.5), '-0.1': ('flt', -0.1), '0.1': ('flt', 0.1), '1.0d300': ('flt', 1e300), '-0.5': ('flt', -0.5)}


def accepted(t):
    r = []
    for s in ACC[t]:
        k, v = KIND[s] if s in KIND else ('int', int(s))
        r.append(conv(t, k, v))
        assert r[-1] is not None, (t, s)
    return r


GLOBALS = "Eval [ Smalltalk at: #K1 put: 'ab' asCData ]\n"


def combinations(c):
    """Signatures: every pair and triple of types, and long alternating ones that overflow the registers."""
    few = TYPES if THOROUGH else ['char', 'uShort', 'int', 'uLong', 'boolean', 'float', 'double', 'longDouble', 'string', 'cObject']
    sigs = [()] + [(t,) for t in TYPES] + list(itertools.product(TYPES, repeat=2)) + list(itertools.product(few, repeat=3))
    long = []
    for a, b in itertools.product(TYPES, repeat=2):
        long += [(a, b) * 4 + (a,), (a,) * 6 + (b,) * 2, (a,) * 9 + (b,) * 3]
    for t in TYPES:
        long += [(t,) * m for m in range(4, 21)]
    long += [tuple(TYPES[(i * d) % len(TYPES)] for i in range(len(TYPES))) for d in range(1, len(TYPES))]
    long = [s for s in dict.fromkeys(long)]
    nshort = len(sigs)
    sigs += long
    NF = 8 if THOROUGH else 2
    per = (len(sigs) + NF - 1) // NF
    cfs = [CFile('comb%s%d' % ('t' if THOROUGH else '', i)) for i in range(NF)]
    for i, s in enumerate(sigs):
        cfs[i // per].fn('cb_%d' % i, s)
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(NF) as ex:
        libs = list(ex.map(lambda f: f.build(c), cfs))
    acc = {t: accepted(t) for t in TYPES}
    pre = PRE + ''.join(load(l) for l in libs) + GLOBALS + 'Eval [ Smalltalk at: #ACC put: Array new writeStream ]\n'
    for t in TYPES:
        pre += 'Eval [ ACC nextPut: {%s} ]\n' % '. '.join(ACC[t])
    pre += 'Eval [ Smalltalk at: #ACC put: ACC contents. Smalltalk at: #SIGS put: Array new writeStream ]\n'
    pre += 'F class extend [\n' + '\n'.join(' ' + method('cb_%d' % i, 'cb_%d' % i, s) for i, s in enumerate(sigs)) + ']\n'
    ix = {t: i for i, t in enumerate(TYPES, 1)}
    for i in range(0, len(sigs), 200):
        pre += 'Eval [ #(%s) do: [ :s | SIGS nextPut: s ] ]\n' % ' '.join('(%s)' % ' '.join(str(ix[t]) for t in s) for s in sigs[i:i + 200])
    pre += 'Eval [ Smalltalk at: #SIGS put: SIGS contents ]\n'
    code = r"""
 SIGS keysAndValuesDo: [ :i :sig |
   i \\ n = shard ifTrue: [ | sel m cnt |
     sel := 'cb_', (i - 1) printString.
     sig size > 0 ifTrue: [ sel := (1 to: sig size - 1) inject: sel, ':' into: [ :a :b | a, 'k', b printString, ':' ] ].
     sel := sel asSymbol.
     cnt := i <= %d ifTrue: [ 3 raisedTo: sig size ] ifFalse: [ 9 ].
     0 to: cnt - 1 do: [ :v | | args w |
        w := v.
        args := Array new: sig size.
        1 to: sig size do: [ :j |
           args at: j put: ((ACC at: (sig at: j)) at: (i <= %d ifTrue: [ w \\ 3 + 1 ] ifFalse: [ (v // 3 * (j // 2) + (v \\ 3) + j) \\ 3 + 1 ])).
           w := w // 3 ].
        out nextPutAll: (F perform: sel withArguments: args); nl ] ] ]
""" % (nshort, nshort)

    def exp(shard, n):
        for i, sig in enumerate(sigs, 1):
            if i % n == shard:
                for v in range(3 ** len(sig) if i <= nshort else 9):
                    w = v
                    ks = []
                    for j in range(1, len(sig) + 1):
                        ks.append(w % 3 if i <= nshort else (v // 3 * (j // 2) + v % 3 + j) % 3)
                        w //= 3
                    yield '(%s) choice %s' % (', '.join(sig), ks), ' '.join(acc[t][k] for t, k in zip(sig, ks))
    seq.table(c, 'signatures', code, exp, pre=pre, quiet=True)


RESULTS = dict(char=['0', '97', '127', '-128', '-1'], uChar=['0', '255', '128'], short=['0', '-32768', '32767', '-1'], uShort=['0', '65535', '32768'],
               int=['0', '-2147483647-1', '2147483647', '-1'], uInt=['0', '4294967295u', '2147483648u'],
               long=['0', '-9223372036854775807L-1', '9223372036854775807L', '4611686018427387904L', '4611686018427387903L', '-4611686018427387904L', '-4611686018427387905L', '-1', '-255', '-256'],
               uLong=['0', '18446744073709551615UL', '9223372036854775808UL', '9223372036854775807UL', '4611686018427387904UL', '4611686018427387903UL'],
               longLong=['0', '-9223372036854775807L-1', '9223372036854775807L', '4611686018427387904L', '-4611686018427387904L', '-4611686018427387905L', '-1', '4294967296L'],
               uLongLong=['0', '18446744073709551615UL', '9223372036854775808UL', '4611686018427387904UL', '4294967295UL'],
               boolean=['0', '1', '2', '256', '-1'], wchar=['0', '65', '128', '200', '0x20ac', '0x10ffff'],
               float=['0.0f', '1.5f', '-0.1f', '3.4028234663852886e38f'], double=['0.0', '0.1', '-1e300', '5e-324'],
               longDouble=['0.0L', '1.0L + 0x1p-63L', '-0.5L', '0x1p-5000L'])
SPECIAL = {'1.0L + 0x1p-63L': 1 + Fraction(1, 2**63), '0x1p-5000L': Fraction(1, 2**5000)}


def cvalue(s):
    return SPECIAL[s] if s in SPECIAL else eval(s.replace('UL', '').replace('L', '').replace('u', '').replace('f', '') if 'x' not in s else s)


def show(t, x):
    """How F show: prints the object made from the C value X of type T."""
    if t in ('char', 'uChar'):
        return 'c%d' % (x & 255)
    if t == 'wchar':
        return 'c%d' % x
    if t == 'boolean':
        return 'True true' if x else 'False false'
    if t in FLOATS:
        f = Fraction(x) if t != 'float' else Fraction(struct.unpack('<f', struct.pack('<f', float(x)))[0])
        return '%s %d/%d' % (dict(float='FloatE', double='FloatD', longDouble='FloatQ')[t], f.numerator, f.denominator)
    return '%s %d' % ('SmallInteger' if -2**62 <= x < 2**62 else 'LargePositiveInteger' if x > 0 else 'LargeNegativeInteger', x)


SHOW = r'''
F class extend [ show: x [ | w |
  x isCharacter ifTrue: [ ^'c', x value printString ].
  x isFloat ifTrue: [ ^x class name, ' ', x asExactFraction numerator printString, '/', x asExactFraction denominator printString ].
  x isSymbol ifTrue: [ ^'sym ', x asString ].
  (x isKindOf: UnicodeString) ifTrue: [ w := WriteStream on: String new. w nextPutAll: 'u'. x do: [ :e | w space; print: e codePoint ]. ^w contents ].
  x isString ifTrue: [ ^x class name, ' ', x ].
  (x isKindOf: CScalar) ifTrue: [ ^x class name, ' ', x value printString ].
  (x isKindOf: CObject) ifTrue: [ ^x class name, ' ', (x castTo: CIntType) value printString ].
  ^x class name, ' ', x printString ] ]
'''


def cases(n, ret, vals, args='int i'):
    return '%s %s (%s) { switch (i) { %s default: return 0; } }' % (ret, n, args, ' '.join('case %d: return %s;' % (i, v) for i, v in enumerate(vals)))


def results(c):
    """Results of every type; pointers, strings and symbols, fresh and shared, and null."""
    cf = CFile('res')
    for t, vs in RESULTS.items():
        cf.add(cases('rs_' + t, CT[t], vs))
    cf.add(cases('st', 'static char *', ['"abc"', '""', '"\\xc8\\xff"', '0', '"a:b:"', '"' + 'x' * 500 + '"']))
    cf.add(cases('ws', 'static wchar_t *', ['L"abc"', 'L""', 'L"\\u20ac\\U0010ffff"', '0']))
    cf.add('char *rs_string (int i) { return st (i); } char *rs_symbol (int i) { return st (i); }')
    cf.add('char *rs_stringOut (int i) { return st (i) ? strdup (st (i)) : 0; } char *rs_symbolOut (int i) { return st (i) ? strdup (st (i)) : 0; }')
    cf.add('wchar_t *rs_wstring (int i) { return ws (i); } wchar_t *rs_wstringOut (int i) { return ws (i) ? wcsdup (ws (i)) : 0; }')
    cf.add('static int cells[3] = { 16, -17, 18 }; void *rs_cObject (int i) { return i == 3 ? 0 : &cells[i]; } void *rs_typed (int i) { return i == 3 ? 0 : &cells[i]; }')
    cf.add('void rs_void (int i) { cells[i] = cells[i]; } void *rs_oop (int i, void *a, void *b) { return i == 0 ? a : i == 1 ? b : 0; }')
    lib = cf.build(c)
    pre = PRE + SHOW + load(lib) + 'F class extend [\n' + '\n'.join(' ' + method('rs_' + t, 'rs_' + t, ['int'], t) for t in
          list(RESULTS) + ['string', 'symbol', 'stringOut', 'symbolOut', 'wstring', 'wstringOut', 'cObject', 'void'])
    pre += "\n rs_typed: a [ <cCall: 'rs_typed' returning: #{CInt} args: #(#int)> ]\n"
    pre += "\n rs_oop: i a: a b: b [ <cCall: 'rs_oop' returning: #smalltalk args: #(#int #smalltalk #smalltalk)> ]\n]\n"
    el = []
    for t, vs in RESULTS.items():
        for i, v in enumerate(vs):
            el.append(('F rs_%s: %d' % (t, i), show(t, cvalue(v))))
    for t in ('string', 'stringOut', 'symbol', 'symbolOut'):
        for i, v in enumerate(['abc', '', '\xc8\xff', None, 'a:b:', 'x' * 500]):
            if v == '' and 'symbol' in t:
                continue
            el.append(('F rs_%s: %d' % (t, i), 'UndefinedObject nil' if v is None else ('String ' if 'str' in t else 'sym ') + v))
            if v and 'symbol' in t:
                el.append(('(F rs_%s: %d) == (F rs_string: %d) asSymbol' % (t, i, i), 'True true'))
    for t in ('wstring', 'wstringOut'):
        for i, v in enumerate(['u 97 98 99', 'u', 'u 8364 1114111', 'UndefinedObject nil']):
            el.append(('F rs_%s: %d' % (t, i), v))
    for i, v in enumerate([16, -17, 18, None]):
        el.append(('F rs_cObject: %d' % i, 'UndefinedObject nil' if v is None else 'CObject %d' % v))
        el.append(('F rs_typed: %d' % i, 'UndefinedObject nil' if v is None else 'CInt %d' % v))
        if i < 3:
            el.append(('(F rs_void: %d) == F' % i, 'True true'))
    el.append(('| a b | a := Object new. b := Array new: 3. #(true true nil)  = (#(0 1 2) collect: [ :i | | r | r := F rs_oop: i a: a b: b. i = 2 ifTrue: [ r ] ifFalse: [ r == (i = 0 ifTrue: [ a ] ifFalse: [ b ]) ] ])', 'True true'))
    for x in ('3', '-1', 'nil', 'true', '$a', '#foo', 'Object', '(2 raisedTo: 80)', '1.5'):
        el.append(('| x | x := %s. (F rs_oop: 0 a: x b: 2) == x' % x, 'True true'))
    codes = ['| bs |\n bs := OrderedCollection new.'] + [' bs add: [ %s ].' % e[0] for e in el]
    codes.append(' bs keysAndValuesDo: [ :i :b | i \\\\ n = shard ifTrue: [ 1 to: 3 do: [ :rep | out nextPutAll: (F show: (F try: [ b value ])); nl ] ] ]')

    def exp(shard, n):
        for i, (s, e) in enumerate(el, 1):
            if i % n == shard:
                for r in range(3):
                    yield s, e
    seq.table(c, 'results', '\n'.join(codes), exp, pre=pre, quiet=True)


UNK = [('3', 'l', '3'), ('-4611686018427387904', 'l', '-4611686018427387904'), ('18446744073709551615', 'u', '18446744073709551615'), ('1.5', 'd', ieee(1.5, 'double')),
       ('-0.1', 'd', ieee(-0.1, 'double')), ('2.5e0', 'd', ieee(2.5, 'double')), ('0.5q0', 'd', ieee(0.5, 'double')), ("'abc'", 's', '"abc"'), ('#foo', 's', '"foo"'),
       ('#[97 98 0]', 's', '"ab"'), ('$a', 'i', '97'), ('(Character value: 200)', 'i', '200'), ('(Character codePoint: 8364)', 'i', '8364'), ('true', 'i', '1'), ('false', 'i', '0'),
       ('(UnicodeString with: (Character codePoint: 8364))', 'w', '<20ac>'), ('K1', 's', '"ab"'), ('nil', 's', 'NULL'), ('(1/2)', 'p', '!'), ('Object', 'p', '!')]


def untyped(c):
    """#unknown, #self, #variadic: a value is passed by its class; one call site sees values of several kinds."""
    cf = CFile('unk')
    cf.add(r'''
static void one (int k, long a, double d) { switch (k) { case 'l': p_s (a); break; case 'u': p_u (a); break; case 'i': p_s ((int) a); break;
  case 'd': p_double (d); break; case 's': p_str ((char *) a); break; case 'w': p_wstring ((wchar_t *) a); break; case 'p': sep (); *end++ = a ? '!' : '?'; *end = 0; } }
char *uk_u (int k, long a, double d) { start (); one (k, a, d); return cur; }
char *uk_s (long a, long k, double d) { start (); one (k, a, d); return cur; }
char *uk_sd (int k, long a, double d) { start (); one (k, a, d); return cur; }
char *uk_v (const char *ks, ...) { va_list ap; va_start (ap, ks); start (); for (; *ks; ks++) if (*ks == 'd') one ('d', 0, va_arg (ap, double)); else one (*ks, va_arg (ap, long), 0); va_end (ap); return cur; }
char *uk_o (int n, ...) { int i; va_list ap; void *x[20]; va_start (ap, n); start (); for (i = 0; i < n; i++) x[i] = va_arg (ap, void *);
  for (i = 0; i < n; i++) p_s (x[i] == x[0]); va_end (ap); return cur; }
''')
    lib = cf.build(c)
    pre = PRE + load(lib) + GLOBALS + r'''
Object extend [ uk_s: k [ <cCall: 'uk_sd' returning: #string args: #(#int #self)> ] ]
F class extend [
 uk_u: k v: x [ <cCall: 'uk_u' returning: #string args: #(#int #unknown)> ]
 uk_v: k v: x [ <cCall: 'uk_v' returning: #string args: #(#string #variadic)> ]
 uk_o: k v: x [ <cCall: 'uk_o' returning: #string args: #(#int #variadicSmalltalk)> ]
]
'''
    D = 3
    vals = UNK if THOROUGH else UNK[:10] + UNK[12:13] + UNK[13:14] + UNK[15:]
    code = r"""
 | vals idx go k |
 vals := {%s}. k := 0.
 1 to: %d do: [ :d |
   idx := Array new: d withAll: 1.
   [ k \\ n = shard ifTrue: [ | es w a |
       es := idx collect: [ :i | vals at: i ].
       w := WriteStream on: String new.
       es do: [ :e | w nextPutAll: (F try: [ F uk_u: e last value v: (e first value) ]); nextPut: $| ].
       es do: [ :e | w nextPutAll: (F try: [ e first value uk_s: e last value ]); nextPut: $| ].
       1 to: d do: [ :i |
         a := Array new: i. 1 to: i do: [ :j | a at: j put: (es at: j) first value ].
         w nextPutAll: (F try: [ F uk_v: (String new: i withAll: $x) yourself v: #() ]) size printString.
         w nextPutAll: (F try: [ F uk_v: ((es copyFrom: 1 to: i) inject: '' into: [ :x :e | x, (String with: e last) ]) v: a ]); nextPut: $|.
         w nextPutAll: (F try: [ F uk_o: i v: (a collect: [ :x | a ]) ]); nextPut: $| ].
       out nextPutAll: w contents; nl ].
     k := k + 1.
     Enum next: idx base: vals size ] whileTrue ]
""" % ('. '.join('{[%s]. $%s}' % (s, k) for s, k, _ in vals), D)
    code = code.replace("         w nextPutAll: (F try: [ F uk_v: (String new: i withAll: $x) yourself v: #() ]) size printString.\n", '')

    def exp(shard, n):
        k = 0
        for d in range(1, D + 1):
            for es in itertools.product(vals, repeat=d):
                if k % n == shard:
                    r = [e[2] for e in es] * 2
                    for i in range(1, d + 1):
                        r += [' '.join(e[2] for e in es[:i]), ' '.join(['1'] * i)]
                    yield ', '.join(e[0] for e in es), '|'.join(r) + '|'
                k += 1
    seq.table(c, 'untyped arguments', code, exp, pre=pre, quiet=True, weight=6)

    long = r"""
 0 to: 40 do: [ :size | 0 to: 7 do: [ :p | size + p \\ n = shard ifTrue: [ | a ks |
   a := (1 to: size) asArray collect: [ :i | p // 2 = 0 ifTrue: [ i ] ifFalse: [ i \\ p = 0 ifTrue: [ i / 2.0 ] ifFalse: [ p odd & (i \\ 3 = 0) ifTrue: [ i printString ] ifFalse: [ i negated ] ] ] ].
   ks := String new: size withAll: $l. a keysAndValuesDo: [ :i :x | x isFloat ifTrue: [ ks at: i put: $d ]. x isString ifTrue: [ ks at: i put: $s ] ].
   out nextPutAll: (F uk_v: ks v: a); nl ] ] ].
 {3. 'abc'. #abc. nil. $a. #[1 2]. Object new. true. 1.5. 2 raisedTo: 70. OrderedCollection new } keysAndValuesDo: [ :i :x | i \\ n = shard ifTrue: [
   out nextPutAll: (F try: [ F uk_v: 'l' v: x ]); nextPutAll: (F try: [ F uk_o: 1 v: x ]); nl ] ]
"""

    def exp2(shard, n):
        for size in range(41):
            for p in range(8):
                if (size + p) % n == shard:
                    r = []
                    for i in range(1, size + 1):
                        r.append(str(i) if p // 2 == 0 else ieee(Fraction(i, 2), 'double') if i % p == 0 else '"%d"' % i if p & 1 and i % 3 == 0 else str(-i))
                    yield '%d values, pattern %d' % (size, p), ' '.join(r)
        for i in range(1, 12):
            if i % n == shard:
                yield 'not an array, %d' % i, 'EE'
    seq.table(c, 'long variadic', long, exp2, pre=pre, quiet=True)


def outs(c):
    """Out parameters: what C stores is seen, and only there; copies do not leak back."""
    cf = CFile('outs')
    cf.add(r'''
char *ou_b (unsigned char *p, int pos, int v) { start (); if (!p) p_str (0); else { p_u (pos < 0 ? 0 : p[pos]); if (pos >= 0) p[pos] = v; } return cur; }
char *ou_w (wchar_t *p, int pos, int v) { start (); if (!p) p_str (0); else { p_u (pos < 0 ? 0 : p[pos]); if (pos >= 0) p[pos] = v; } return cur; }
char *ou_2 (unsigned char *p, unsigned char *q, int pos, int v) { start (); p[pos] = v; q[pos] = v + 1; return cur; }
char *ou_p (char **p, int op) { static char other[10] = "other"; start (); if (!p) { p_str (0); return cur; } p_str (*p); switch (op) { case 0: break; case 1: *p = 0; break; case 2: ++*p; break; case 3: *p = other; } return cur; }
char *ou_cb (unsigned char *p, int pos, int v, void (*f) (void)) { start (); p[pos] = v; f (); p[pos + 1] = v + 1; f (); return cur; }
char *ou_pcb (char **p, char **q, void (*f) (void)) { start (); f (); ++*p; f (); *q = *p + 1; return cur; }
''')
    lib = cf.build(c)
    types = ['string', 'stringOut', 'byteArray', 'byteArrayOut']
    pre = PRE + load(lib) + GLOBALS + 'F class extend [\n' + '\n'.join(
        " b_%s: p at: i put: v [ <cCall: 'ou_b' returning: #string args: #(#%s #int #int)> ]\n"
        " cb_%s: p at: i put: v do: f [ <cCall: 'ou_cb' returning: #string args: #(#%s #int #int #cObject)> ]" % (t, t, t, t) for t in types) + r"""
 w_wstring: p at: i put: v [ <cCall: 'ou_w' returning: #string args: #(#wstring #int #int)> ]
 w_wstringOut: p at: i put: v [ <cCall: 'ou_w' returning: #string args: #(#wstringOut #int #int)> ]
 p_cObjectPtr: p op: v [ <cCall: 'ou_p' returning: #string args: #(#cObjectPtr #int)> ]
 pcb: p with: q do: f [ <cCall: 'ou_pcb' returning: #string args: #(#cObjectPtr #cObjectPtr #cObject)> ]
""" + '\n'.join(" two_%s: p %s: q at: i put: v [ <cCall: 'ou_2' returning: #string args: #(#%s #%s #int #int)> ]" % (t, u, t, u) for t in types for u in types) + '\n]\n'
    GCS = ['', 'ObjectMemory scavenge', 'ObjectMemory globalGarbageCollect', 'ObjectMemory compact', "Smalltalk at: #KEEP put: ((1 to: 300) collect: [ :i | (String new: i) copy ])"]
    el = []      # (code, expected)
    sizes = range(0, 34) if THOROUGH else range(0, 18)
    for t in types:
        for kind in ('ByteArray asString',) if t == 'stringOut' else ('ByteArray', 'ByteArray asString'):
            for sz in sizes:
                for pos in range(sz):
                    for v in (0, 255):
                        d = [i + 64 for i in range(1, sz + 1)]
                        old = d[pos]
                        if 'Out' in t:
                            d[pos] = v
                            if v == 0 and t == 'stringOut':     # what comes back is the C string
                                d = d[:pos]
                        el.append(("| s | s := (#(%s) as%s) copy. w nextPutAll: (F b_%s: s at: %d put: %d). s do: [ :x | w space; print: x asInteger ]" % (
                            ' '.join(str(i + 64) for i in range(1, sz + 1)), kind, t, pos, v), ' '.join(map(str, [old] + d))))
        el.append(("w nextPutAll: (F b_%s: nil at: 0 put: 1)" % t, 'NULL'))
        for g in GCS:
            for pos in (0, 3, 8):
                d = [i + 64 for i in range(1, 13)]
                if 'Out' in t:
                    d[pos], d[pos + 1] = 7, 8
                el.append(("| s b | s := #(%s) asByteArray%s. b := CCallbackDescriptor for: [ %s ] returning: #void withArgs: #(). F cb_%s: s at: %d put: 7 do: b. s do: [ :x | w space; print: x asInteger ]" % (
                    ' '.join(str(i + 64) for i in range(1, 13)), ' asString' if t == 'stringOut' else '', g, t, pos), ' ' + ' '.join(map(str, d))))
        for u in types:
            el.append(("| s x | s := #(1 2 3) asByteArray. x := #(4 5 6) asByteArray asString. F two_%s: s %s: x at: 1 put: 20. s asByteArray, x asByteArray do: [ :e | w space; print: e ]" % (t, u),
                       ' 1 %d 3 4 %d 6' % (20 if 'Out' in t else 2, 21 if 'Out' in u else 5)))
    for t in ('wstring', 'wstringOut'):
        for sz in sizes:
            for pos in range(sz):
                d = [8000 + i for i in range(1, sz + 1)]
                old = d[pos]
                if 'Out' in t:
                    d[pos] = 0x10ffff
                    el.append(("| s | s := UnicodeString new: %d. 1 to: %d do: [ :i | s at: i put: (Character codePoint: 8000 + i) ]. F w_%s: s at: %d put: 0. s do: [ :x | w space; print: x codePoint ]" % (
                        sz, sz, t, pos), ''.join(' %d' % x for x in d[:pos])))
                el.append(("| s | s := UnicodeString new: %d. 1 to: %d do: [ :i | s at: i put: (Character codePoint: 8000 + i) ]. w nextPutAll: (F w_%s: s at: %d put: 16r10FFFF). s do: [ :x | w space; print: x codePoint ]" % (
                    sz, sz, t, pos), ' '.join(map(str, [old] + d))))
    for off in range(3):
        for seq_ in itertools.product(range(4), repeat=3):
            p, st = ('abcdef', off), []
            for op in seq_:
                st.append(pstr(p[0][p[1]:].encode() if p else None))
                p = p if op == 0 else None if op == 1 else (('other', 0) if op == 3 else (p[0], p[1] + 1) if p else None)
                if p is None and op == 2:
                    break
            else:
                st.append(pstr(p[0][p[1]:].encode() if p else None))
                el.append(("| s p | s := 'abcdef' asCData. p := s addressAt: %d. #(%s) do: [ :op | w nextPutAll: (F p_cObjectPtr: p op: op); space ]. w nextPutAll: (F p_cObjectPtr: p op: 0). s free" % (
                    off, ' '.join(map(str, seq_))), ' '.join(st)))
    el.append(('w nextPutAll: (F p_cObjectPtr: nil op: 0)', 'NULL'))
    for g in GCS:
        el.append(("| s p q b | s := 'abcdef' asCData. p := s addressAt: 0. q := CChar address: 0. b := CCallbackDescriptor for: [ %s ] returning: #void withArgs: #(). F pcb: p with: q do: b. w print: p address - s address; space; print: q address - s address. s free" % g, '1 2'))
    el = list(dict.fromkeys(el))
    codes = []
    per = 60
    pre2 = pre + "Eval [ Smalltalk at: #BS put: OrderedCollection new ]\n"
    for i in range(0, len(el), per):
        pre2 += 'Eval [ BS' + '; '.join('\n add: [ :w | %s. w ]' % e[0] for e in el[i:i + per]) + ' ]\n'
    code = " BS keysAndValuesDo: [ :i :b | i \\\\ n = shard ifTrue: [ | w | w := WriteStream on: String new. F try: [ b value: w ]. out nextPutAll: w contents; nl ] ]"

    def exp(shard, n):
        for i, (s, e) in enumerate(el, 1):
            if i % n == shard:
                yield s, e
    seq.table(c, 'out parameters', code, exp, pre=pre2, quiet=True)


CBT = list(RESULTS) + ['string', 'symbol', 'wstring', 'cObject']
CBARGS = dict(string=['"abc"', '""', '0'], symbol=['"abc"', '"a:b:"', '0'], wstring=['L"abc"', 'L"\\u20ac"', '0'], cObject=['&cells[0]', '&cells[1]', '0'])
CBSHOW = dict(string=['String abc', 'String ', 'UndefinedObject nil'], symbol=['sym abc', 'sym a:b:', 'UndefinedObject nil'], wstring=['u 97 98 99', 'u 8364', 'UndefinedObject nil'],
              cObject=['CObject 16', 'CObject -17', 'UndefinedObject nil'])


def cbargs(t):
    """(C expression, what the block sees) for callback arguments of type T."""
    if t in RESULTS:
        return [(v, show(t, cvalue(v))) for v in RESULTS[t][:4]]
    return list(zip(CBARGS[t], CBSHOW[t]))


def callbacks(c):
    """Callbacks: every pair of argument and result type; many arguments; nested calls with collections between."""
    cf = CFile('cback')
    cf.add('static int cells[3] = { 16, -17, 18 };')
    RT = [t for t in CBT]
    for a in CBT:
        cf.add(cases('av_' + a, 'static ' + CT[a], [v for v, _ in cbargs(a)]))
        for r in RT:
            cf.add('char *cl_%s_%s (void *f, int i) { %s x; start (); x = ((%s (*) (%s)) f) (av_%s (i)); start (); p_%s (x); return cur; }' % (a, r, CT[r], CT[r], CT[a], a, r))
    cf.add('char *cl_v (void *f) { start (); ((void (*) (void)) f) (); return cur; }')
    multi = []
    for a, b in itertools.product(CBT, repeat=2):
        multi += [(a, b), (a, b, a, b, b), (a,) * 7 + (b,) * 3 + (a,)]
    multi += [tuple(CBT[(i * d) % len(CBT)] for i in range(len(CBT))) for d in range(1, len(CBT))]
    multi += [(t,) * m for t in CBT for m in (3, 4, 6, 8, 9, 12)]
    multi = list(dict.fromkeys(multi))
    for i, m in enumerate(multi):
        cf.add('long mu_%d (void *f, int k) { return ((long (*) (%s)) f) (%s); }' % (
            i, ', '.join(CT[t] for t in m), ', '.join('av_%s ((k + %d) %% %d)' % (t, j, len(cbargs(t))) for j, t in enumerate(m))))
    cf.add('int nest (int n, int (*f) (int)) { return f (n) + 1000; } int nest2 (int n, int (*f) (int), int (*g) (int)) { int a = f (n); return a * 7 + g (n); }')
    lib = cf.build(c)
    acc = {t: accepted(t) for t in CBT}
    pre = PRE + SHOW + load(lib) + GLOBALS + 'Eval [ Smalltalk at: #ACC put: LookupTable new ]\n'
    for t in CBT:
        pre += 'Eval [ ACC at: #%s put: {%s} ]\n' % (t, '. '.join(ACC[t]))
    pre += 'F class extend [\n' + '\n'.join(" cl_%s_%s: f i: i [ <cCall: 'cl_%s_%s' returning: #string args: #(#cObject #int)> ]" % (a, r, a, r) for a in CBT for r in RT)
    pre += '\n' + '\n'.join(" mu_%d: f i: i [ <cCall: 'mu_%d' returning: #long args: #(#cObject #int)> ]" % (i, i) for i in range(len(multi)))
    pre += r"""
 nest: n f: f [ <cCall: 'nest' returning: #int args: #(#int #cObject)> ]
 nest: n f: f g: g [ <cCall: 'nest2' returning: #int args: #(#int #cObject #cObject)> ]
 cl_v: f [ <cCall: 'cl_v' returning: #string args: #(#cObject)> ]
]
Eval [ Smalltalk at: #MULTI put: #(%s) ]
""" % '\n'.join('(%s)' % ' '.join('#' + t for t in m) for m in multi)
    code = r"""
 | types k |
 types := #(%s). k := 0.
 types do: [ :a | types do: [ :r | k \\ n = shard ifTrue: [ | cb got ret sel |
   cb := CCallbackDescriptor for: [ :x | got := F show: x. ret ] returning: r withArgs: {a}.
   sel := ('cl_', a, '_', r, ':i:') asSymbol.
   0 to: 3 do: [ :i | (ACC at: r) do: [ :v |
     ret := v. got := nil.
     out nextPutAll: (F try: [ F perform: sel with: cb with: i ]); space; nextPutAll: got; nl ] ] ].
   k := k + 1 ] ]
""" % ' '.join('#' + t for t in CBT)

    def exp(shard, n):
        k = 0
        for a in CBT:
            av = [e for _, e in cbargs(a)]
            for r in RT:
                if k % n == shard:
                    for i in range(4):
                        s = av[i] if i < len(av) else {'string': 'UndefinedObject nil'}.get(a) or ('UndefinedObject nil' if a in CBARGS else show(a, 0))
                        for v in acc[r]:
                            yield 'callback of %s to %s, argument %d, answering %s' % (a, r, i, v), '%s %s' % (v, s)
                k += 1
    # byte results of strings are C strings: compared as such
    seq.table(c, 'callbacks', code, exp, pre=pre, quiet=True)

    code = r"""
 MULTI keysAndValuesDo: [ :i :sig | i \\ n = shard ifTrue: [ 0 to: 5 do: [ :v | | cb got |
   cb := CCallbackDescriptor for: (F block: sig size do: [ :args | got := args collect: [ :x | F show: x ]. v * 1000000007 ]) returning: #long withArgs: sig.
   out print: (F perform: ('mu_', (i - 1) printString, ':i:') asSymbol with: cb with: v).
   got do: [ :e | out nextPut: $|; nextPutAll: e ]. out nl ] ] ]
"""
    pre2 = pre + 'F class extend [ block: n do: b [\n' + '\n'.join(' n = %d ifTrue: [ ^[ :%s | b value: {%s} ] ].' % (
        m, ' :'.join('x%d' % j for j in range(m)), '. '.join('x%d' % j for j in range(m))) for m in sorted(set(len(s) for s in multi))) + ' ] ]\n'

    def exp2(shard, n):
        for i, sig in enumerate(multi, 1):
            if i % n == shard:
                for v in range(6):
                    yield '(%s) %d' % (', '.join(sig), v), '%d' % (v * 1000000007) + ''.join(
                        '|' + cbargs(t)[(v + j) % len(cbargs(t))][1] for j, t in enumerate(sig))
    seq.table(c, 'callback arguments', code, exp2, pre=pre2, quiet=True)

    OPS = ['n * 3', 'ObjectMemory scavenge. n', 'ObjectMemory globalGarbageCollect. n + 1', '(1 to: 2000) do: [ :i | Array new: i ]. n',
           '[ nil foo. 5 ] on: Error do: [ :e | e return: n ]', '[ n ] ensure: [ f := f + 1 ]', '(F nest: n f: cb0) + 1', '(F nest: n f: cb0 g: cb0)',
           '| s | s := Semaphore new. [ s signal ] fork. s wait. n', 'Processor yield. n', '[ :k | k ] value: n', '[ :k | k > 3 ifTrue: [ 9 ] ifFalse: [ thisContext parentContext parentContext printString. n ] ] value: n',
           '| b | b := CCallbackDescriptor for: [ :z | z + 5 ] returning: #int withArgs: #(#int). F nest: n f: b']
    FN = [lambda n: n * 3, lambda n: n, lambda n: n + 1, lambda n: n, lambda n: n, lambda n: n, lambda n: n * 2 + 1000 + 1, lambda n: n * 2 * 7 + n * 2, lambda n: n, lambda n: n, lambda n: n,
          lambda n: 9 if n > 3 else n, lambda n: n + 1005]
    D = 4 if THOROUGH else 3
    code = r"""
 | ops f cb0 cbs k |
 f := 0.
 cb0 := CCallbackDescriptor for: [ :z | z * 2 ] returning: #int withArgs: #(#int).
 ops := {%s}.
 k := 0.
 1 to: %d do: [ :d | | idx |
   idx := Array new: d withAll: 1.
   [ k \\ n = shard ifTrue: [ | level self_ cb r |
       level := 0.
       cb := CCallbackDescriptor for: [ :x | | i v |
          i := level := level + 1.
          v := (ops at: (idx at: i)) value: x.
          i < d ifTrue: [ v := v + (F nest: i f: cb) ].
          v ] returning: #int withArgs: #(#int).
       r := F nest: 1 f: cb.
       out print: r; space; print: level; nl ].
     k := k + 1.
     Enum next: idx base: ops size ] whileTrue ]
""" % ('. '.join('[ :n | %s ]' % o for o in OPS), D)

    def exp3(shard, n):
        k = 0
        for d in range(1, D + 1):
            for es in itertools.product(range(len(OPS)), repeat=d):
                if k % n == shard:
                    r = 0
                    for lv in range(d, 0, -1):
                        x = 1 if lv == 1 else lv - 1
                        v = FN[es[lv - 1]](x)
                        r = v + (r if lv < d else 0) + 1000
                    yield '; '.join(OPS[e] for e in es), '%d %d' % (r, d)
                k += 1
    seq.table(c, 'nested callbacks', code, exp3, pre=pre, quiet=True, weight=D)


SIZE = dict(char=1, uChar=1, short=2, uShort=2, int=4, uInt=4, long=8, uLong=8, longLong=8, uLongLong=8, float=4, double=8, longDouble=16)
CID = dict(char=0, uChar=1, short=2, uShort=3, long=4, uLong=5, float=6, double=7, int=10, uInt=11, longDouble=12, longLong=30, uLongLong=31)


def memory(c):
    """CObject accesses: each type at each offset of storage of each size; bounds of garbage-collected storage; pointer arithmetic."""
    N = 40 if THOROUGH else 24
    lib_ = CFile('mem')
    lib_.add('char *mem_dump (unsigned char *p, int n) { int i; start (); for (i = 0; i < n; i++) end += sprintf (end, "%02x", p[i]); return cur; }')
    lib = lib_.build(c)
    vals = {}
    for t in SIZE:
        if t in FLOATS:
            vals[t] = [('1.5', 1.5), ('-0.1', -0.1), ('3', 3), ('0.5q0', 0.5), ('2.5e0', 2.5), ('$a', None), ('nil', None), ("'x'", None)]
        elif t in ('char', 'uChar'):
            vals[t] = [('$a', 97), ('(Character value: 255)', 255), ('200', 200), ('-1', -1), ('(Character codePoint: 16r20AC)', None), ('1.5', None), ("'a'", None), ('nil', None)]
        else:
            w, s, _ = INTS[t]
            vals[t] = [(str(v), v) for v in (1, -1, 2**(w - 1) - 1, -2**(w - 1), 2**(w - 1), 2**w - 1, 0x0102030405060708 & (2**w - 1))]
            vals[t] += [('$a', None), ('1.5', None), ('nil', None)]
            if w >= 32:
                vals[t] += [(str(2**w), None if w > 32 else 0), (str(-2**(w - 1) - 1), None if w > 32 else 0)]
                if w == 32:
                    vals[t] = vals[t][:-2] + [(str(2**64), None)]
    pre = PRE + load(lib) + "F class extend [ dump: p n: k [ <cCall: 'mem_dump' returning: #string args: #(#cObject #int)> ] ]\nEval [ Smalltalk at: #V put: LookupTable new ]\n"
    pre += ''.join('Eval [ V at: #%s put: {%s} ]\n' % (t, '. '.join(v for v, _ in vs)) for t, vs in vals.items())
    pre += 'F class extend [ fill: o n: k [ 0 to: k - 1 do: [ :i | o at: i put: (i * 37 + 11 bitAnd: 255) type: 1 ] ]\n show: x [ x isCharacter ifTrue: [ ^x value printString ]. x isFloat ifTrue: [ ^x asExactFraction numerator printString, \'/\', x asExactFraction denominator printString ]. ^x printString ] ]\n'
    sizes = [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, N]
    code = r"""
 | k |
 k := 0.
 #(%s) do: [ :tc | | t id |
   t := tc first. id := tc last.
   #(%s) do: [ :size | #(#gc #malloc #wrapped) do: [ :kind | k \\ n = shard ifTrue: [ | o base |
     o := kind == #malloc ifTrue: [ CObject alloc: size + 32 ] ifFalse: [ CObject gcAlloc: size ].
     kind == #wrapped ifTrue: [ o := (CObject address: 0) storage: (ByteArray new: size); yourself ].
     (kind == #malloc ifTrue: [ 0 ] ifFalse: [ -3 ]) to: size + (kind == #malloc ifTrue: [ -1 ] ifFalse: [ 2 ]) do: [ :ofs |
       F fill: o n: (kind == #malloc ifTrue: [ size + 32 ] ifFalse: [ size ]).
       out nextPutAll: (F try: [ F show: (o at: ofs type: id) ]); nl.
       (V at: t) do: [ :v | | r |
         F fill: o n: (kind == #malloc ifTrue: [ size + 32 ] ifFalse: [ size ]).
         r := F try: [ o at: ofs put: v type: id. 'ok' ].
         r = 'ok' ifTrue: [ r := r, ' ', (F show: (o at: ofs type: id)) ].
         out nextPutAll: r; space; nextPutAll: (F dump: o n: (kind == #malloc ifTrue: [ size + 32 ] ifFalse: [ size ])); nl ] ].
     kind == #malloc ifTrue: [ o free ] ].
   k := k + 1 ] ] ]
""" % (' '.join('(#%s %d)' % (t, CID[t]) for t in SIZE), ' '.join(map(str, sizes)))

    def enc(t, v):
        if t == 'float':
            return struct.pack('<f', float(v))
        if t == 'double':
            return struct.pack('<d', float(v))
        if t == 'longDouble':
            e, m = ieee(v, t).split(':')
            return struct.pack('<QH', int(m, 16), int(e, 16))
        return (int(v) & ((1 << 8 * SIZE[t]) - 1)).to_bytes(SIZE[t], 'little')

    def dec(t, b):
        if t in ('float', 'double'):
            f = Fraction(struct.unpack('<f' if t == 'float' else '<d', b)[0])
            return '%d/%d' % (f.numerator, f.denominator)
        if t == 'longDouble':
            return None
        v = int.from_bytes(b, 'little', signed=INTS[t][1] == 1 and t != 'char')
        return str(v)

    def exp(shard, n):
        k = 0
        for t in SIZE:
            for size in sizes:
                for kind in ('gc', 'malloc', 'wrapped'):
                    if k % n == shard:
                        tot = size + 32 if kind == 'malloc' else size
                        mem = bytes((i * 37 + 11) & 255 for i in range(tot))
                        for ofs in range(0 if kind == 'malloc' else -3, size + (0 if kind == 'malloc' else 3)):
                            ok = ofs >= 0 and ofs + SIZE[t] <= tot
                            what = '%s at %d of %d (%s)' % (t, ofs, size, kind)
                            r = dec(t, mem[ofs:ofs + SIZE[t]]) if ok else 'E'
                            yield what, r if r is not None else (lambda got: got)
                            for s, v in vals[t]:
                                if ok and v is not None:
                                    e = enc(t, v)
                                    new = mem[:ofs] + e + mem[ofs + len(e):]
                                    back = dec(t, e)
                                    if t == 'longDouble':      # the padding is not specified
                                        back = '%d/%d' % (Fraction(v).numerator, Fraction(v).denominator)
                                        pat = 'ok %s %s' % (back, new.hex())
                                        st = len(back) + 4
                                        lo, hi = st + 2 * (ofs + 10), st + 2 * (ofs + 16)
                                        yield what + ' := ' + s, (lambda got, pat=pat, lo=lo, hi=hi: got if len(got) == len(pat) and got[:lo] + got[hi:] == pat[:lo] + pat[hi:] else pat)
                                    else:
                                        yield what + ' := ' + s, 'ok %s %s' % (back, new.hex())
                                else:
                                    yield what + ' := ' + s, 'E ' + mem.hex()
                    k += 1
    seq.table(c, 'memory accesses', code, exp, pre=pre, quiet=True)

    scal = ['CChar', 'CUChar', 'CShort', 'CUShort', 'CInt', 'CUInt', 'CLong', 'CULong', 'CLongLong', 'CULongLong', 'CFloat', 'CDouble', 'CLongDouble', 'CByte']
    ssz = dict(zip(scal, [1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 1]))
    ops = []
    for k in (0, 1, 2, -1):
        ops += [('p + %d' % k, lambda s, k=k: (s[0], s[1] + k * s[2], s[2])), ('p addressAt: %d' % k, lambda s, k=k: (s[0], s[1] + k * s[2], s[2])),
                ('p - %d' % k, lambda s, k=k: (s[0], s[1] - k * s[2], s[2])), ('(p copy incrBy: %d; yourself)' % k, lambda s, k=k: (s[0], s[1] + k * s[2], s[2])),
                ('(p copy decrBy: %d; yourself)' % k, lambda s, k=k: (s[0], s[1] - k * s[2], s[2]))]
    ops += [('(p copy incr; yourself)', lambda s: (s[0], s[1] + s[2], s[2])), ('(p copy decr; yourself)', lambda s: (s[0], s[1] - s[2], s[2]))]
    for t in ('CChar', 'CShort', 'CInt', 'CDouble'):
        ops.append(('(p castTo: %sType)' % t, lambda s, t=t: (t, s[1], ssz[t])))
    code = r"""
 | k types ops |
 k := 0. types := {%s}.
 ops := {%s}.
 types do: [ :t | #(#gc #malloc) do: [ :kind | ops do: [ :a | ops do: [ :b |
   k \\ n = shard ifTrue: [ | o p q |
     o := kind == #gc ifTrue: [ t gcNew: 64 ] ifFalse: [ t new: 64 ].
     p := o. q := a value: p. q := b value: q.
     out nextPutAll: q class name; space; print: q address - o address; space; print: q storage == o storage; space;
         nextPutAll: (F try: [ (q castTo: t) - o ]) printString; space; print: (b value: (a value: p)) = q; space; print: (b value: (a value: p)) hash = q hash; nl.
     kind == #malloc ifTrue: [ o free ] ].
   k := k + 1 ] ] ] ]
""" % ('. '.join(t + 'Type' for t in scal), '. '.join('[ :p | %s ]' % o[0] for o in ops))

    def exp2(shard, n):
        k = 0
        for t in scal:
            for kind in ('gc', 'malloc'):
                for a in ops:
                    for b in ops:
                        if k % n == shard:
                            s = b[1](a[1]((t, 0, ssz[t])))
                            yield '%s (%s): %s, then %s' % (t, kind, a[0], b[0]), '%s %d true %d true true' % (s[0], s[1], s[1] // ssz[t])
                        k += 1
    seq.table(c, 'pointer arithmetic', code, exp2, pre=pre, quiet=True)


def structs(c):
    """CStruct and CUnion: sizes, alignments and offsets of all short field lists, against the C compiler."""
    F = [('#char', 'char %s'), ('#short', 'short %s'), ('#uInt', 'unsigned %s'), ('#long', 'long %s'), ('#float', 'float %s'), ('#double', 'double %s'),
         ('#longDouble', 'long double %s'), ('#string', 'char *%s'), ('#(#ptr #int)', 'int *%s'), ('#(#array #char 3)', 'char %s[3]'), ('#(#array #double 2)', 'double %s[2]'),
         ('#(#array #(#ptr #char) 2)', 'char *%s[2]'), ('#{SN1}', 'struct SN1 %s'), ('#{SN2}', 'struct SN2 %s'), ('#(#array #{SN1} 3)', 'struct SN1 %s[3]'), ('#(#ptr #{SN2})', 'struct SN2 *%s'),
         ('#{UN1}', 'union UN1 %s'), ('#uLongLong', 'unsigned long long %s'), ('#byte', 'unsigned char %s'), ('#uShort', 'unsigned short %s')]
    few = [F[i] for i in (0, 1, 2, 5, 9, 12)]
    lists = [(f,) for f in F] + list(itertools.product(F, repeat=2)) + list(itertools.product(F if THOROUGH else F[:7] + F[9:10] + F[12:14], repeat=3)) + list(itertools.product(few, repeat=4))
    pr = ['#include <stdio.h>', '#include <stddef.h>', 'struct SN1 { short a; char b; };', 'struct SN2 { char a; double b; char c; };', 'union UN1 { char a[5]; short b; };']
    names = 'abcd'
    body = []
    per = 400
    for i in range(0, len(lists), per):
        body.append('static void f%d (void) {' % i)
        for j, l in enumerate(lists[i:i + per]):
            for kw in ('struct', 'union'):
                body.append(' { %s T { %s }; printf ("%%d %%d%s\\n", (int) sizeof (%s T), (int) _Alignof (%s T)%s); }' % (
                    kw, ' '.join(f[1] % names[x] + ';' for x, f in enumerate(l)), ' %d' * len(l), kw, kw, ''.join(', (int) offsetof (%s T, %s)' % (kw, names[x]) for x in range(len(l)))))
        body.append('}')
    body.append('int main () { %s return 0; }' % ' '.join('f%d ();' % i for i in range(0, len(lists), per)))
    d = os.path.join(c.b.work, 'ffi')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, 'layout.c')
    open(src, 'w').write('\n'.join(pr + body) + '\n')
    B.run(['gcc', '-O0', '-w', '-o', src[:-2], src])
    rows = subprocess.run([src[:-2]], stdout=subprocess.PIPE, check=True).stdout.decode().split('\n')
    pre = PRE + r'''
CStruct subclass: SN1 [ <declaration: #( (#a #short) (#b #char) )> ]
CStruct subclass: SN2 [ <declaration: #( (#a #char) (#b #double) (#c #char) )> ]
CUnion subclass: UN1 [ <declaration: #( (#a (#array #char 5)) (#b #short) )> ]
Eval [ Smalltalk at: #LISTS put: OrderedCollection new ]
'''
    for i in range(0, len(lists), 300):
        pre += 'Eval [ LISTS' + '; '.join('\n add: {%s}' % '. '.join("{'%s'. %s}" % (names[x], f[0]) for x, f in enumerate(l)) for l in lists[i:i + 300]) + ' ]\n'
    code = r"""
 LISTS keysAndValuesDo: [ :i :l | i \\ n = shard ifTrue: [ {CStruct. CUnion} do: [ :k | | cls o |
   cls := k subclass: ('T', i printString, k name) asSymbol declaration: #() classVariableNames: '' poolDictionaries: '' category: 'x'.
   cls declaration: (l collect: [ :f | {f first. f last} ]).
   o := cls gcNew.
   out print: cls sizeof; space; print: cls alignof.
   l do: [ :f | out space; print: (o perform: f first asSymbol) address ].
   o := cls new.
   l do: [ :f | out space; print: (o perform: f first asSymbol) address - o address ].
   o free.
   out space; print: (CArrayCType elementType: cls type numberOfElements: 3) sizeof; nl ] ] ]
"""

    def exp(shard, n):
        for i, l in enumerate(lists, 1):
            if i % n == shard:
                for j, kw in enumerate(('struct', 'union')):
                    r = rows[(i - 1) * 2 + j].split()
                    yield '%s { %s }' % (kw, ' '.join(f[1] % names[x] + ';' for x, f in enumerate(l))), ' '.join(r + r[2:] + [str(3 * int(r[0]))])
    seq.table(c, 'layouts', code, exp, pre=pre, quiet=True)


def main():
    with Check('C29') as c:
        parts = [('conversions', conversions), ('signatures', combinations), ('results', results), ('untyped', untyped), ('outs', outs), ('callbacks', callbacks), ('memory', memory), ('structs', structs)]
        only = os.environ.get('MC_ONLY', ' '.join(p[0] for p in parts)).split()
        for n, f in parts:
            if n in only:
                f(c)


if __name__ == '__main__':
    main()
