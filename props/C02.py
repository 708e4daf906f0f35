P = dict(
 id='C02', title='Weak references, ephemerons and finalization follow reachability',
 statement='''A slot of a weak object becomes nil, and the weak object is sent #mourn, exactly when a full collection (global, compacting or incremental) finds the object in it unreachable from strong references. An ephemeron is sent #mourn once per such collection exactly if its key is reachable only through weak objects and ephemerons whose own keys are unreachable; it is passed on with its key and value, and objects reachable from a mourned ephemeron are kept. No collection of any kind, scavenges included, clears a slot or mourns an ephemeron whose object is strongly reachable, or mourns twice. An object sent #addToBeFinalized is sent #finalize once after it becomes unreachable, also if an equal object is registered, and not if #removeToBeFinalized was sent in between; #finalize may make it reachable or register it again. Weak sets, weak-key and weak-value dictionaries lose exactly the entries whose object became unreachable, also after growing, being copied, and having entries removed or added again.''',
 over=['histories', 'inputs'],
 quantifier='''for every graph of two plain objects, two ephemerons and a weak object, every pair of root sets before and between two collections, every kind of collection, and every history of registrations, weak collection operations and collections up to the stated depth''',
 why='''Whether a reference counts depends on the shape of the whole graph, on which objects are old, and on the order in which the collector finds ephemerons; the tests have a handful of graphs, each collected once.''',
 files=['libgst/oop.c', 'libgst/oop.h', 'libgst/oop.inl', 'libgst/prims.def', 'kernel/WeakObjects.st', 'kernel/Object.st', 'kernel/HomedAssoc.st', 'kernel/ProcSched.st'],
 mechanism=[('_gst_make_oop_weak, check_weak_refs, scan_grey_objects, cheney_scan, copy_oops, mark_ephemeron_oops, mourn_objects, _gst_sweep_oop, queue_put, _gst_incremental_gc_step, _gst_finish_incremental_gc', 'libgst/oop.c'), ('WeakSet, WeakKeyDictionary, WeakValueLookupTable', 'kernel/WeakObjects.st'), ('Object>>addToBeFinalized, Object class>>finalizableObjects', 'kernel/Object.st')],
 technique='exhaustive enumeration of object graphs, root sets and kinds of collection, and of operation sequences, on the real VM, compared with a reachability model',
 note='''22,500 graphs × 81 pairs of root sets × eight kinds and orders of collections (15.5 million graph runs in 220 s). Scavenges are judged for soundness only, because they treat old objects as reachable. The order in which several objects are mourned or finalized in one collection is not specified here.''',
 design='''*graphs*: two plain objects with one slot, two ephemerons with key and value, and a weak object that refers to all four; slots range over {nil, K1, K2, E1, E2} (and an integer for
keys). All graphs are built in one process; roots are dropped in two steps (R1 > R2), with a collection after each, of the kinds compacting, global, incremental with any number of
steps, and scavenges, with subsets of the objects tenured before. The oracle computes strong reachability as a fixpoint in which an ephemeron's key and value are followed only once its key is reached.
The run is repeated if an unplanned collection happened in between. *finalization* compares all sequences of nine to twelve operations (register, unregister, drop, link, resurrect, collect) with the same model, for
objects equal to others too. *collections* does it for the six weak classes, with growing and copying. The check found, and led to repairs of: ephemerons mourned while the key was reachable through another ephemeron, and
crashes; weak dictionaries that hold their keys after growing, copying and rehashing; equal registered objects that are never finalized.''')
