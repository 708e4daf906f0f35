P = dict(
 id='C33', title='Indexed and raw storage: what fits is read back, nothing else is touched',
 statement='''For objects of every indexed shape (8 to 64 bit integers, floats, characters, Unicode characters, object pointers), with any number of indexed and fixed instance variables: storing a value of the element type at an index within bounds succeeds and exactly that value (rounded for floats) is read back, and no other element, instance variable or object changes; storing any other value or using any other index, however large or small, fails and changes nothing. The same holds for C-typed accesses inside a ByteArray, for block copies (including overlapping and between classes of different shape) and for searches, whose result is the index of an element equal to the argument or none.''',
 over=['inputs'],
 quantifier='''for every shape, every size up to the bound, every index in and around the bounds and at the powers of two where arithmetic wraps, every boundary value of every element type, every access path''',
 why='''A wrong bound or conversion shows for one shape at one size, index or value (an odd number of trailing bytes, 2^63, an index that wraps around); the failure is silent corruption.''',
 files=['libgst/dict.inl', 'libgst/prims.def', 'libgst/oop.h', 'kernel/Object.st', 'kernel/ByteArray.st', 'kernel/ArrayColl.st', 'kernel/String.st'],
 mechanism=[('index_oop_spec, index_oop_put_spec, to_c_uint_64, is_c_uint_64, cobject_index_check', 'libgst/dict.inl'), ('VMpr_ArrayedCollection_replaceFromToWithStartingAt, indexOfStartingAt, CObject_at', 'libgst/prims.def')],
 technique='exhaustive enumeration of bounded inputs on the real VM against an executable model',
 note='''About 410k elements (quick): 13 shapes x 0-2 fixed variables x sizes x indexes x 85 values x 3 access paths; block copies for all sizes up to 3-4 and all ranges. Bounds: small objects only; 64-bit host.''',
 design='''Tables enumerated twice, on the real VM and in Python, compared line by line; the object accessed lies between two others allocated next to it
and all three are dumped after each store, so a wild store is seen as well as a wrong value. Indexes include 2^28..2^64 and their negatives, where
index * element size or the conversion to int wraps; values include every power of two boundary +-1 of every type, characters, floats and other
objects. Block copies: every (size, size or itself, start, stop, source start). This check found and we fixed: reads out of bounds of objects
without indexed variables, INT_MAX/UINT_MAX refused, signed shorts read back unsigned, 64-bit unsigned values of 2^63 and above read back wrong,
block copies and searches with truncated or negative indexes (a VM crash), searches finding elements of another type.''')
