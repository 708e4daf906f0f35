P = dict(
 id='C15', title='Sequenceable collections behave as finite sequences',
 statement='''After any sequence of additions, removals, insertions and replacements an OrderedCollection (and a LinkedList) holds exactly the sequence the operations define, in that order, and an operation on a missing element or an index out of range fails and changes nothing. An Interval enumerates exactly its arithmetic progression, prints and compares like it, and equal ones hash equally. The queries and copying operations of Array, String, Symbol, ByteArray and OrderedCollection (indexing, searching, slicing, replacing, concatenating, reversing, enumerating) answer what the mathematical sequence prescribes for every content and index.''',
 over=['histories', 'inputs'],
 quantifier='''for every sequence of operations up to the bound from an empty collection, and every receiver over a small alphabet up to length 3-4 with every argument in and around its bounds''',
 why='''Wrap-around, growth and shifting in OrderedCollection depend on the position of the contents in the underlying array, that is on the history; a handful of examples visits a few.''',
 files=['kernel/OrderColl.st', 'kernel/SeqCollect.st', 'kernel/ArrayColl.st', 'kernel/Interval.st', 'kernel/LinkList.st', 'libgst/dict.inl', 'libgst/prims.def'],
 mechanism=[('OrderedCollection addFirst/addLast/primRemoveIndex:, growBy:shiftBy:', 'kernel/OrderColl.st'), ('Interval', 'kernel/Interval.st'), ('index_oop_spec, index_oop_put_spec', 'libgst/dict.inl')],
 technique='bounded exhaustive exploration of operation sequences on the real code, in lockstep with an executable model',
 note='''Every sequence of up to 4 (quick) operations of the full set and longer ones of the add/remove set; tables of all receivers and arguments. Outside: RunArray and MappedCollection, which are broken in several ways at this commit, and results the protocol leaves open.''',
 design='''All sequences of operations up to the depth are run from scratch on the real VM (8 shards), each result and the whole observable state is
printed, and the lines are compared with those of a Python list model enumerated in the same order: each element of the space is a model trace
replayed on the implementation. Queries are tables (receiver x argument). Quick: about 800k elements, 15 s. Not covered: RunArray (its reverse,
add:, first: fail) and MappedCollection>>keysAndValuesDo: are defective here and not on the path of the core guarantee; ReadStream over an
OrderedCollection; copyReplaceAll: with an empty pattern; out of range copyReplaceFrom: on OrderedCollection (accepted).''')
