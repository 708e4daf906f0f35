P = dict(
 id='C05', title='A send runs the method that lookup finds at that moment',
 statement='''Sending a message, from any call site, through perform: or through super, runs the method found by searching the class of the receiver and its superclasses as they are at that moment, with exactly the receiver and arguments given, however often the site ran before with other receivers or other definitions: after a method is added, replaced or removed anywhere in the hierarchy, on the class side too, after the superclass of a class changes, after the class of an object changes or its identity is swapped, and however many selectors and classes compete for the caches. This includes the selectors that the compiler treats specially (class, size, at:, at:put:, value, arithmetic and comparisons). A message that is not found reaches doesNotUnderstand: with its selector and arguments; performing with the wrong number of arguments is an error.''',
 over=['inputs', 'histories'],
 quantifier='''for every sequence of changes up to the depth, with every call site warmed after each change; for every pair of a class and a selector of a table larger than the cache; for every number of arguments up to 16''',
 why='''Methods are found through a global cache and caches of special sends, which every kind of change has to invalidate; a stale entry shows only when a site ran before a change of the right kind in the right place.''',
 files=['libgst/interp.c', 'libgst/interp-bc.inl', 'libgst/vm.def', 'libgst/dict.c', 'libgst/dict.inl', 'libgst/prims.def', 'libgst/comp.c', 'kernel/MethodDict.st', 'kernel/Behavior.st', 'kernel/CompildMeth.st', 'kernel/AnySOS.st'],
 mechanism=[('_gst_find_method, lookup_method, create_args_array, check_send_correctness, _gst_invalidate_method_cache', 'libgst/interp.c'), ('_gst_send_message_internal, _gst_send_method', 'libgst/interp-bc.inl'), ('_gst_find_class_method', 'libgst/dict.c'), ('AT_SPECIAL, SIZE_SPECIAL, CLASS_SPECIAL, VALUE_SPECIAL', 'libgst/vm.def'), ('MethodDictionary>>at:put:, remove:, removeKey:ifAbsent:', 'kernel/MethodDict.st')],
 technique='bounded exhaustive enumeration of sequences of changes on the real VM, against a model of lookup',
 note='''27,900 sequences (depth 3; thorough: 758,000, depth 4) of 30 changes over four classes with 18 probes after each; 992 (31,000) over special selectors with 75 probes; 3,600 pairs of class and selector, each toggled; 969 argument lists. The class named by super is bound at compile time.''',
 design='''Four classes, with instances of each; the changes are additions of methods of each kind the VM distinguishes (answering a literal, self, an instance
variable, ordinary, with a super send), removals, new superclasses, changeClassTo:, become:, doesNotUnderstand: overrides, class-side methods, flushes and
scavenges. After each change, a set of call sites compiled once sends to all objects (one monomorphic, one through perform:, one with four receivers, with and
without arguments, respondsTo:, class-side); the results after the last change are compared with a model of lookup in Python. The special selectors are
overridden and removed one by one in two variable classes whose instances share call sites with arrays, strings, integers and blocks. The third family has
more classes and selectors (3,600; thorough 7,200) than the cache has entries, walks all pairs in eleven orders, and toggles each method between walks. The
fourth checks the arguments of sends, performs and unknown messages of 0 to 16 arguments with each count given. The check found, and led to repairs of,
stale methods after superclass:, and an error printed when a method with integer literals is copied.''')
