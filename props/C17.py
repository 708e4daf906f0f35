P = dict(
 id='C17', title='Sorting sorts, and sorted collections stay sorted',
 statement='''sorted, sort, asSortedCollection, each with or without a sort block, answer a permutation of the elements in the order of the block, for every arrangement of distinct, equal and sort-block-equal elements. A SortedCollection holds, after any history of additions, removals at either end or by value or index, bulk additions, changes of the sort block and copies, exactly the elements added and not removed, in order: first, last, at:, do:, removeFirst, removeLast, indexOf:, includes: and occurrencesOf: all agree with that.''',
 over=['histories', 'inputs'],
 quantifier='''for every history up to the bound, and for every weak ordering of up to 5 (6) elements, every array of zeros and ones of up to 10 (13), every permutation of 7 (8) and structured arrays of up to 100 (1000) elements''',
 why='''The collection switches lazily between a heap, a sorted array and a merge; which one is used, and what it leaves behind, depends on the whole history.''',
 files=['kernel/SortCollect.st', 'kernel/OrderColl.st', 'kernel/SeqCollect.st', 'kernel/ArrayColl.st', 'kernel/Collection.st', 'libgst/dict.inl'],
 mechanism=[('merge, makeHeap, percolateUp, percolateDown, sortFrom:to:', 'kernel/SortCollect.st'), ('sort, sorted:', 'kernel/SeqCollect.st')],
 technique='bounded exhaustive exploration of operation sequences on the real code, in lockstep with an executable model',
 note='''All sequences of up to 5 (6) of 12 operations, 3 (4) of 29, and 5 (7) of 10 bulk operations; 8,450 arrays through 12 sort entry points. Outside: sort blocks that are not total preorders, or that fail.''',
 design='''As C15, with a sorted Python list as the model; after each sequence the whole state is observed on a copy. The arrays cover every pattern
of order and ties up to a length (what a comparison sort does depends on nothing else), then zero-one arrays, permutations and structured arrays that
exercise the recursion; ties are pairs with a different identity, checked to be a permutation in the order of the block.''')
