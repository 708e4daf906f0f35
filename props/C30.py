P = dict(
 id='C30', title='A name means the variable that the documented search finds',
 statement='''In a method, a name that is an argument or temporary of an enclosing block or of the method means the innermost of these, else the instance variable of the class or its superclasses, else the variable that the documented search finds: for the class and each superclass in turn its class pool, then its shared pools with their superspaces (a namespace before its superspace, left to right, without what the environment reaches anyway), then its environment and superspaces not shared with the superclass's environment, each followed by the pools imported into it combined in the same way. Reading and assigning act on that same variable and on no other; in a statement outside a class the current namespace takes the place of the environment; a dotted name starts from that search and continues through each named namespace and its superspaces, imports excluded; an undeclared capitalised name reads nil; assigning an argument, declaring a name twice in one scope and an undeclared lower-case name are rejected.''',
 over=['inputs'],
 quantifier='''for every placement of two classes in a tree of five namespaces, every list of shared pools and imports up to a length, every subset of the eight places defining the name, and every subset of the scopes of two nested blocks, read and assigned at each depth''',
 why='''The order depends on how class hierarchy, namespace hierarchy, pools and imports interact; tests only exercise one or two arrangements, and a wrong order shows only when a name is defined in two places.''',
 files=['libgst/sym.c', 'libgst/dict.c', 'kernel/Class.st', 'kernel/AbstNamespc.st'],
 mechanism=[('_gst_compute_linearized_pools, add_shared_pool_resolution, combine_local_pools, visit_pool, add_namespace', 'libgst/sym.c'), ('_gst_find_variable, find_local_var, instance_variable_index', 'libgst/sym.c'), ('_gst_namespace_association_at', 'libgst/dict.c')],
 technique='bounded exhaustive enumeration of class, namespace, pool and scope arrangements on the real compiler, compared with a model of the documented search',
 note='''Search order: 2 classes placed in 5 namespaces in all ways, up to 2 shared pools in the class (3 in the thorough tier), 1 in the superclass, 8 lists of imports of one namespace and 3 of another (27,700 arrangements), each with 256 variables, one for every subset of the 8 places. Assignments (5,575 arrangements), statements (225) and dotted names (4,973) likewise. Local names: every subset of 8 scopes, read and assigned at 3 depths (1,536 methods). Outside: pools that are LookupTables, name clashes among instance variables added later, variables declared after the use.''',
 design='''The model is a transcription of the long comment in sym.c (the documented search), not of its code. For each arrangement the check builds the classes,
sets pools and imports, compiles one method that reads 256 variables (or assigns 255 of them, or reads them by dotted name), runs it and compares all values.
The quick tier takes about 100 s.''')
