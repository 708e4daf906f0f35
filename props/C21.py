P = dict(
 id='C21', title='Regular expressions find what Perl 5 syntax says',
 statement='''For every pattern in the documented Perl-like syntax (characters, sets and classes, groups, alternation, greedy and lazy repetition, counted repetition, anchors and word boundaries, look-ahead, back-references, case-insensitive patterns) and every subject string, =~ finds the leftmost match Perl finds, with the same extent and the same text in each group (a reference to a group that took no part matches the empty string). The operations built on the search (~, matchRegex:, indexOfRegex:, occurrencesOfRegex:, allOccurrencesOfRegex:, onOccurrencesOfRegex:do:, replacing and copyReplacing one or all, tokenize:, each also from:to:) act on exactly the successive non-overlapping matches, and leave the other characters alone.''',
 over=['inputs'],
 quantifier='''for every pattern up to a size over each family of constructs, and every subject string up to a length over a small alphabet, and every from:to: range''',
 why='''Backtracking goes wrong for particular nestings of constructs on particular subjects; a handful of hand-written cases cannot reach them.''',
 files=['lib-src/regex.c', 'libgst/re.c', 'kernel/Regex.st'],
 mechanism=[('re_compile_pattern, pre_match, pre_search, pre_compile_fastmap', 'lib-src/regex.c'), ('_gst_re_search, pattern cache', 'libgst/re.c'), ('searchRegexInternal:from:to: and what is built on it', 'kernel/Regex.st')],
 technique='bounded exhaustive enumeration of patterns and subjects on the real code, compared with an independent backtracking matcher',
 note='''Every pattern of up to 3-5 constructs in 8 families (27,000 patterns) on every subject of up to 3-5 characters over 2-5 letters (about 1 million searches), and 24 patterns with every derived operation on 44 subjects and every range. Outside: loops over a body that can be empty, modifiers that apply to a part of a loop (the engine does not restore them when it backtracks), \\G, POSIX classes, multiline mode.''',
 design='''A grammar generates all patterns up to a size for each family; each is compiled once and searched in all subjects, and the extent of the match
and of each group is compared with Python's re (a different implementation of the same syntax and semantics). For the derived operations
a Python model is written from the method comments on top of re.search restricted to a range. The quick tier takes about 20 s.''')
