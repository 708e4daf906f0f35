"""C21: regular expressions match what Perl 5 syntax says."""
import os, sys, re, functools, warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from driver import *
import seq

warnings.simplefilter('ignore')


# ------------------------------------------------------------------ patterns
# A pattern is a tuple: (text, kind, nullable, quantifiable)
# kinds: 'atom' can be followed by a postfix operator, 'post' cannot, 'cat', 'alt'
class Gen:
    def __init__(self, atoms, posts, groups, alt=True):
        self.atoms, self.posts, self.groups, self.alt = atoms, posts, groups, alt
        self.cache = {}

    def atom(self, n):
        """Quantifiable items of size n."""
        if n == 1:
            return [a for a in self.atoms]
        r = []
        if n >= 2:
            for g in self.groups:
                r += [(g % x[0], x[1]) for x in self.regex(n - 1)]
        return r

    def item(self, n):
        """Atoms with at most one postfix operator."""
        k = ('i', n)
        if k not in self.cache:
            r = list(self.atom(n))
            if n >= 2:
                for t, null in self.atom(n - 1):
                    for p, m in self.posts:
                        if null and m:
                            continue        # a loop over something that can be empty
                        if t in ('^', '$', '\\b', '\\B') or t.startswith('(?=') or t.startswith('(?!'):
                            continue
                        r.append((t + p, null or p[0] in '*?' or p.startswith('{0')))
            self.cache[k] = r
        return self.cache[k]

    def cat(self, n):
        k = ('c', n)
        if k not in self.cache:
            r = list(self.item(n))
            for i in range(1, n):
                r += [(x[0] + y[0], x[1] and y[1]) for x in self.item(i) for y in self.cat(n - i)]
            self.cache[k] = r
        return self.cache[k]

    def regex(self, n):
        k = ('r', n)
        if k not in self.cache:
            r = list(self.cat(n))
            if self.alt:
                for i in range(1, n - 1):
                    r += [(x[0] + '|' + y[0], x[1] or y[1]) for x in self.cat(i) for y in self.regex(n - 1 - i)]
            self.cache[k] = r
        return self.cache[k]


A, B = ('a', False), ('b', False)
DOT, SET, NSET = ('.', False), ('[ab]', False), ('[^a]', False)
BOL, EOL = ('^', True), ('$', True)
STAR, PLUS, OPT = ('*', True), ('+', True), ('?', True)
LSTAR, LPLUS, LOPT = ('*?', True), ('+?', True), ('??', True)
R2, R12, R1, R01 = ('{2}', True), ('{1,2}', True), ('{1,}', True), ('{0,1}', True)
FAM = [
    # name, generator, size quick, size thorough, alphabet, longest subject, the same in the thorough tier
    ('case', Gen([A, ('B', False), ('[^A]', False), ('[a-b]', False), ('\\1', True)], [STAR], ['(%s)']), 4, 4, 'aAbB', 3, 4),
    ('basic', Gen([A, B, DOT], [STAR, PLUS, OPT], ['(%s)']), 5, 6, 'ab', 4, 5),
    ('lazy', Gen([A, B], [STAR, LSTAR, LPLUS, LOPT], ['(%s)']), 5, 5, 'ab', 4, 5),
    ('repeat', Gen([A, B], [R2, R12, R1, R01], ['(%s)', '(?:%s)']), 4, 5, 'ab', 5, 6),
    ('sets', Gen([('[ab]', False), ('[^a]', False), ('[a-b]', False), ('[^b-c]', False), ('\\w', False), ('\\W', False), ('\\d', False), ('\\s', False), ('[\\w]', False), ('[^\\s]', False), ('[]a]', False), ('[a-]', False)],
                 [STAR], ['(%s)']), 3, 4, 'ab1 -', 3, 3),
    ('anchors', Gen([A, B, BOL, EOL, ('\\b', True), ('\\B', True)], [STAR, OPT], ['(%s)']), 4, 5, 'ab ', 3, 4),
    ('lookahead', Gen([A, B, DOT], [STAR, OPT], ['(?=%s)', '(?!%s)', '(%s)']), 4, 5, 'ab', 4, 5),
    ('backreferences', Gen([A, B, ('\\1', True)], [STAR, OPT], ['(%s)']), 5, 6, 'ab', 5, 6),
]


def strings(alpha, n):
    r = ['']
    last = ['']
    for _ in range(n):
        last = [x + c for x in last for c in alpha]
        r += last
    return r


def q(s):
    return s.replace("'", "''")


def expected_line(p, subjects):
    # a reference to a group that took no part in the match matches the empty string
    r = re.compile(p.replace('\\1', '(?(1)\\1|)') if '\\1' in p else p)
    out = []
    for s in subjects:
        m = r.search(s)
        if not m:
            out.append('-')
            continue
        out.append(','.join('~' if m.start(i) < 0 else 'e0' if i and m.start(i) == m.end(i) else '%d:%d' % (m.start(i) + 1, m.end(i))
                            for i in range(m.re.groups + 1)))
    return ' '.join(out)


def valid(p):
    try:
        re.compile(p)
    except re.error:
        return False
    # a backreference must follow its group
    i = p.find('\\1')
    if i >= 0:
        j = p.find('(', 4 if p.startswith('(?i:') else 0)
        if j < 0:
            return False
        # closed before
        d, k = 0, j
        while True:
            if p[k] == '\\':
                k += 2
                continue
            d += p[k] == '('
            d -= p[k] == ')'
            if d == 0:
                break
            k += 1
        if k > i:
            return False
    return True


def main():
    with Check('C21') as c:
        for name, gen, nq, nt, alpha, lq, lt in FAM:
            if os.environ.get('MC_ONLY', name) != name:
                continue
            pats, seen = [], set()
            for n in range(1, (nt if THOROUGH else nq) + 1):
                for t, _ in gen.regex(n):
                    if name == 'case':
                        t = '(?i:%s)' % t
                    if t not in seen and valid(t):
                        seen.add(t)
                        pats.append(t)
            subj = strings(alpha, lt if THOROUGH else lq)
            if name == 'anchors':
                subj = subj[1:]             # Python before 3.14 is wrong about \\B in the empty string
            pf = os.path.join(c.b.work, 'c21-%s.pat' % name)
            with open(pf, 'w') as f:
                f.write('\n'.join(pats) + '\n')
            code = r"""
 | subj pats k |
 subj := #(%s).
 pats := FileStream open: '%s' mode: FileStream read.
 k := 0.
 [ pats atEnd ] whileFalse: [ | p |
   p := pats nextLine.
   k \\ n = shard ifTrue: [ | r |
     r := p asRegex.
     subj do: [ :s | | m |
            m := s =~ r.
            m matched
              ifFalse: [ out nextPut: $- ]
              ifTrue: [ 0 to: m size do: [ :i | | v |
                 i > 0 ifTrue: [ out nextPut: $, ].
                 v := m intervalAt: i.
                 v isNil ifTrue: [ out nextPut: $~ ] ifFalse: [
                 i = 0 ifTrue: [ out print: m from; nextPut: $:; print: m to ] ifFalse: [
                 v isEmpty ifTrue: [ out nextPut: $e; print: (m at: i) size ]
                           ifFalse: [ out print: v first; nextPut: $:; print: v last ] ] ] ] ].
        out space ].
     out nl ].
   k := k + 1 ]
""" % (' '.join("'%s'" % q(s) for s in subj), pf)

            def exp(shard, n, pats=pats, subj=subj):
                for i in range(shard, len(pats), n):
                    yield pats[i], expected_line(pats[i], subj) + ' '
            seq.table(c, name, code, exp, weight=len(subj), keyfn=lambda d, w, g, name=name: '%s:%s' % (name, d))
        derived(c)


# ------------------------------------------------------- operations built on the search
DPATS = ['a', 'aa', 'ab', 'a+', 'a*', 'b?', '^', '$', '^a', 'a$', 'a|b', 'aba', '(a)b', '(a)|b', '(a*)b', '(a)(b)?', 'x', '(x)*', 'b*a', '[ab]', 'a(?=b)', '(?!a)', '\\s+', 'a\\s']
OPS = """=~:from: occurrencesOfRegex:from:to: allOccurrencesOfRegex:from:to: onOccurrencesOfRegex:from:to:do: copyFrom:to:replacingRegex:with: copyFrom:to:replacingAllRegex:with: tokenize:from:to: indexOfRegex:from:to: matchRegex:from:to:"""
DCODE = r"""
 | subj pats k iv |
 subj := #(%s).
 pats := #(%s).
 iv := [ :r | r isNil ifTrue: [ '-' ] ifFalse: [ r from printString, ':', r to printString ] ].
 k := 0.
 pats do: [ :p |
   subj do: [ :s |
   k \\ n = shard ifTrue: [ | pr try |
     try := [ :t :b | | v | out nextPutAll: t; nextPut: $=. v := [ b value ] on: Error do: [ :e | e return: '!', e messageText ]. out nextPutAll: v; nextPutAll: '; ' ].
     pr := [ :coll | (coll inject: '' into: [ :x :y | x, (y isString ifTrue: [ y ] ifFalse: [ iv value: y ]), ',' ]), '.' ].
     1 to: s size + 1 do: [ :f | f - 1 to: s size do: [ :t | | w |
        try value: 'index' value: [ | i | i := s indexOfRegex: p from: f to: t. i isNil ifTrue: [ '-' ] ifFalse: [ i isEmpty ifTrue: [ 'e' ] ifFalse: [ i first printString, ':', i last printString ] ] ].
        try value: 'search' value: [ | r | r := s searchRegex: p from: f to: t. r matched ifTrue: [ iv value: r ] ifFalse: [ '-' ] ].
        try value: 'count' value: [ (s occurrencesOfRegex: p from: f to: t) printString ].
        try value: 'all' value: [ pr value: (s allOccurrencesOfRegex: p from: f to: t) ].
        try value: 'alldo' value: [ w := OrderedCollection new. s allOccurrencesOfRegex: p from: f to: t do: [ :r | w add: r ]. pr value: w ].
        try value: 'on' value: [ w := OrderedCollection new. s onOccurrencesOfRegex: p from: f to: t do: [ :r | w add: r ]. pr value: w ].
        try value: 'token' value: [ pr value: (s tokenize: p from: f to: t) ].
        try value: 'sub' value: [ s copyFrom: f to: t replacingRegex: p with: [ :r | '<', r match, '>' ] ].
        try value: 'suball' value: [ s copyFrom: f to: t replacingAllRegex: p with: [ :r | '<', r match, '>' ] ] ] ].
     try value: 'exact' value: [ (s ~ p) printString, (s matchRegex: p) printString ].
     try value: 'subw' value: [ s replacingRegex: p with: [ :r | '<', r match, '>' ] ].
     try value: 'suballw' value: [ s replacingAllRegex: p with: [ :r | '<', r match, '>' ] ].
     try value: 'csubw' value: [ s copyReplacingRegex: p with: '<>' ].
     try value: 'csuballw' value: [ s copyReplacingAllRegex: p with: '<>' ].
     out nl ].
   k := k + 1 ] ]
"""


def dmodel(p, s):
    r = re.compile(p)
    o = []

    def search(f, t):
        """First match in s between the indices f and t (1-based)."""
        if f > t + 1:
            return None
        m = r.search(s[:t], f - 1)
        return m and (m.start() + 1, m.end())

    def scan(f, t, adjacent=False):
        """Successive matches; an empty one right after another match does not count."""
        i, prev = f, None
        while i <= t + 1:
            m = search(i, t)
            if m is None:
                return
            b, e = m
            if b > e and b == prev:
                i = b + 1
                # look again one further on
                continue
            yield m
            prev = e + 1
            i = e + 1 if e >= b else b

    def iv(m):
        return '-' if m is None else '%d:%d' % m

    def sub(f, t, ms, repl):
        x, i = '', f
        for b, e in ms:
            x += s[i - 1:b - 1] + repl(s[b - 1:e])
            i = e + 1
        return x + s[i - 1:t]
    br = lambda x: '<' + x + '>'
    for f in range(1, len(s) + 2):
        for t in range(f - 1, len(s) + 1):
            m = search(f, t)
            ms = list(scan(f, t))
            o.append('index=' + ('e' if m and m[0] > m[1] else iv(m)))
            o.append('search=' + iv(m))
            o.append('count=%d' % len(ms))
            o.append('all=' + ''.join(s[b - 1:e] + ',' for b, e in ms) + '.')
            o.append('alldo=' + ''.join(iv(x) + ',' for x in ms) + '.')
            x, i, on = search(f, t), f, ''
            while x is not None:            # here empty matches may follow another match
                on += iv(x) + ','
                x = search(max(x[1], x[0]) + 1, t)
            o.append('on=' + on + '.')
            tok, i = [], f
            for b, e in ms:
                if (b, e) == (f, f - 1):
                    continue                # nothing before it
                tok.append(s[i - 1:b - 1])
                i = e + 1
            if i <= t:                      # no empty string at the end
                tok.append(s[i - 1:t])
            o.append('token=' + ''.join(x + ',' for x in tok) + '.')
            o.append('sub=' + sub(f, t, ms[:1], br))
            o.append('suball=' + sub(f, t, ms, br))
    full = r.fullmatch(s)
    m0 = r.match(s)
    x = 'true' if m0 and m0.end() == len(s) else 'false'
    ms = list(scan(1, len(s)))
    o.append('exact=%s%s' % ('true' if r.search(s) else 'false', x))
    o.append('subw=' + sub(1, len(s), ms[:1], br))
    o.append('suballw=' + sub(1, len(s), ms, br))
    o.append('csubw=' + sub(1, len(s), ms[:1], lambda x: '<>'))
    o.append('csuballw=' + sub(1, len(s), ms, lambda x: '<>'))
    return '; '.join(o) + '; '


def derived(c):
    subj = strings('ab ', 4 if THOROUGH else 3) + ['aaaa', 'aabaa', 'abab', 'ab ab']
    pats = DPATS

    def exp(shard, n):
        k = 0
        for p in pats:
            for s in subj:
                if k % n == shard:
                    yield '%s on %r' % (p, s), dmodel(p, s)
                k += 1
    seq.table(c, 'derived operations', DCODE % (' '.join("'%s'" % q(s) for s in subj), ' '.join("'%s'" % q(s) for s in pats)), exp, weight=50)


if __name__ == '__main__':
    main()
