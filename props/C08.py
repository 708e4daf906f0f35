P = dict(
 id='C08', title='Compiled code does what the source says',
 statement='''A method, or a block, does exactly what its source says: expressions are evaluated in order and once, assignments are seen by every block that shares the variable, each activation has its own temporaries, which start as nil, conditionals, loops and boolean connectives (inlined or not) run the right blocks and answer the right value, a caret returns from the method from any depth of blocks. This holds at any size: numbers of arguments, temporaries, variables, literals and statements, nesting depths, lengths of branches, and values of constants. A program that exceeds a limit of the system is rejected with an error, never miscompiled.''',
 over=['inputs', 'histories'],
 quantifier='''for every program of the grammar up to the size bound, in three contexts, and for every size up to the bounds of each construct''',
 why='''The compiler inlines control structures, computes jump lengths and stack depths by hand, and a peephole optimizer rewrites what it emits; each combination of neighbouring constructs and each size around a boundary takes a different path.''',
 files=['libgst/comp.c', 'libgst/opt.c', 'libgst/byte.c', 'libgst/byte.h', 'libgst/gst-parse.c', 'libgst/lex.c', 'libgst/sym.c', 'libgst/tree.c', 'libgst/vm.def', 'libgst/interp-bc.inl'],
 mechanism=[('_gst_compile_method, compile_block, compile_while_loop, compile_to_by_do, compile_if_statement', 'libgst/comp.c'), ('_gst_optimize_bytecodes, optimize_basic_block, _gst_verify_method', 'libgst/opt.c'), ('_gst_declare_temporaries, _gst_find_variable', 'libgst/sym.c')],
 technique='bounded exhaustive enumeration of programs, compiled and run by the real code, against a reference interpreter of the syntax tree',
 note='''All 245,086 programs of up to 5 nodes over the whole grammar and 22,180 (259,588) of up to 5 (6) over a smaller one, each as a method, a block, and a block in a block; 18,000 (30,000) programs of one construct at each size. Outside: doits, and methods of over 200,000 bytes of bytecodes.''',
 design='''A program is a syntax tree over: messages that log their arguments, assignments to temporaries and instance variables, blocks (evaluated at once,
with an argument, or kept in a variable and evaluated later), inlined conditionals, ifNil: forms, and:/or:, to:do:, whileTrue and its variants, repeat,
timesRepeat:, cascades, brace arrays, carets. All trees up to a number of nodes are enumerated; a Python interpreter of the tree gives the log, the answer
and the final instance variable, the VM compiles and runs the source text. Excluded: the value of loops, loop counters captured by a block that outlives the
iteration, endless recursion. The second family takes one construct and sweeps a size over every value up to the bound (0 to 300 statements, 60 nested
blocks, 100 temporaries, jumps of every length around 256 and, in the thorough tier, 65536 bytes, constants around powers of two, 512 lines): beyond the
documented limits, an error of the compiler is accepted, a wrong answer never. The third gives every instance variable of classes of up to 258 (400)
variables a different value through setters and reads it back through getters, blocks and instVarAt:.''')
