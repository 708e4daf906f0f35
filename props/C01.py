P = dict(
 id='C01', title='Garbage collection is invisible: no collection changes what a program does',
 statement='''Whenever a collection happens (a scavenge, a full collection, a compaction, an increment of the sweep, growth of the heap, at any allocation whatever) each reachable object keeps its identity, class, identity hash, size and contents, references between objects stay what they were wherever both lie (new, survivor, old, fixed space), and an unreachable object never comes back. Therefore every program gives the same result as if memory were infinite, also where the virtual machine and its compiler hold references of their own across an allocation.''',
 over=['histories', 'crash_points'],
 quantifier='''for every placement of collections among the allocations of a program, and every sequence of operations on the heap (allocate, link, unlink, tenure, fix, become, copy, hash, collect) up to the bound''',
 why='''Whether a pointer held across an allocation is stale depends on a collection falling on that very allocation; in a test run a collection falls on one allocation in some ten thousand, always the same ones.''',
 files=['libgst/oop.c', 'libgst/oop.h', 'libgst/dict.inl', 'libgst/interp.c', 'libgst/comp.c', 'libgst/prims.def', 'libgst/alloc.c', 'libgst/mpz.c', 'kernel/ObjMemory.st'],
 mechanism=[('_gst_scavenge, cheney_scan, scan_grey_pages, _gst_mark_an_oop_internal, _gst_sweep_oop, incremental sweep, alloc_oop', 'libgst/oop.c'), ('empty_context_stack, _gst_fixup_object_pointers', 'libgst/interp.c'), ('remembered (grey) page tracking by write protection', 'libgst/oop.c'), ('INC_ADD_OOP registry for C references', 'libgst/oop.h'), ('become:', 'libgst/dict.c')],
 technique='exhaustive choice of the allocation and kind of collection on the real VM, and bounded exhaustive sequences of heap operations against a reference heap',
 note='''25 workloads, each allocation times 4 kinds of collection (one collection per execution, two in the thorough tier for the small ones), and 16 periodic patterns of collections; all sequences of 4 (5) heap operations from three alphabets of 12 or 13. Spaces a scavenge leaves are overwritten at once, so that stale pointers do not go unnoticed. The check does not prove what other primitives do.''',
 design='''`GST_MODEL_CHECK` adds a hook in `_gst_alloc_obj` and friends. **Workloads** (`checks/C01.py`, 25 small programs over all parts of the VM that hold references across allocations: large integers, strings,
the symbol table, growth of collections, exceptions, contexts, the compiler, classes, processes, become:, sends that fail, C memory, regex, allInstances, generators ...): at each allocation the explorer (fork at each choice) tries nothing, a scavenge, a
full collection with an increment of the sweep, a compaction, two scavenges; and whole runs with a collection at every n-th allocation. The result must be the known one for all of them. After each collection the dead
semispace and the used part of eden are filled with garbage.
**Sequences**: all sequences of operations on a small heap of nodes held by three roots, where collections of each kind are operations like others; after each, the graph that can be reached is printed (after
further collections and garbage) and must equal that of a model of the heap in Python. **Sweep**: for each number of dead objects modulo the size of a step of the incremental sweep and 0 to 3 allocations between steps, all that is alive must survive.
Three defects that it found were repaired: objects to be finalized were dropped, the compiler read moved objects, and the sweep could be left unfinished, so that live objects were overwritten (this one crashed another check, C16, by chance; the part of the check for it was written then).''')
