P = dict(
 id='C29', title='Values cross between Smalltalk and C unchanged',
 statement='''A C call-out passes each argument to C as the documented C type and value (integers reduced to the width of the declared type), or is refused without the function being called, and answers the Smalltalk value of what C returned, for every parameter and result type, number of parameters and mix of them; with #unknown, #self and #variadic each value is passed by its class. Out parameters show what C stored, and only there; other arguments are not affected. Callbacks receive the values C passed and return to C the value of the block, also when nested and when collections run in between. CObject accesses read and write exactly the bytes that C would, and those outside garbage-collected storage are refused and touch nothing; pointer arithmetic and the size, alignment and offsets of CStruct and CUnion are those of the C compiler.''',
 over=['inputs', 'histories'],
 quantifier='''for every type with every boundary value, every signature of up to three parameters, long ones that overflow the registers, every sequence of up to three calls through one call site, every field list up to four fields, and every offset in and around small storage''',
 why='''The marshalling code dispatches on pairs of type and class, caches call descriptions, and copies memory by computed sizes; errors show only for particular pairs, widths or orders.''',
 files=['libgst/cint.c', 'libgst/callin.c', 'libgst/dict.c', 'libgst/dict.inl', 'libgst/prims.def', 'kernel/CCallable.st', 'kernel/CFuncs.st', 'kernel/CCallback.st', 'kernel/CObject.st', 'kernel/CStruct.st', 'kernel/CType.st'],
 mechanism=[('_gst_invoke_croutine, smalltalk_to_c, c_to_smalltalk, push_smalltalk_obj, get_ffi_type, closure_msg_send, _gst_make_closure', 'libgst/cint.c'), ('_gst_to_cstring, _gst_to_wide_cstring, _gst_to_byte_array, _gst_set_oopstring, _gst_set_oop_unicode_string, _gst_set_oop_bytes', 'libgst/dict.c'), ('cobject_index_check, cobject_value, to_c_int_64, from_c_int_64, from_c_uint_64, is_c_uint_64', 'libgst/dict.inl'), ('VMpr_CObject_at, VMpr_CObject_derefAt, VMpr_CObject_atPut', 'libgst/prims.def'), ('CCompound class>>declaration:inject:into:', 'kernel/CStruct.st')],
 technique='bounded exhaustive enumeration of calls, accesses and layouts on the real VM, against generated C code and the C compiler',
 note='''158,000 elements: 1,380 pairs of type and value, 44,000 calls over 2,700 signatures (thorough: all triples of 20 types), 5,200 sequences of untyped arguments, 2,850 uses of out parameters, 14,000 callbacks, 83,000 memory accesses, 5,400 layouts. Only this platform's ABI (x86-64); non-local returns through C frames are not explored.''',
 design='''The check generates C functions that render what they received into text, bit for bit, and compiles them into shared libraries that the VM loads; the oracle is the
table of parameter conversions in the manual, in Python, and gcc for layouts. *parameter types* pairs 20 types with 69 values: each is accepted with the documented
value or refused with the call counter unchanged. *signatures* calls every pair and triple of types with three values for each, and 1,500 long ones. *untyped arguments*
sends all sequences of up to three values of 18 kinds through the same #unknown, #self, #variadic and #variadicSmalltalk call sites. *out parameters* lets C
write every position of strings, byte arrays and wide strings of every small size, and pointers through #cObjectPtr, also with collections during the call.
*callbacks* covers all pairs of argument and result type with boundary values, 1,200 signatures, and all nests of depth 3 of 13 actions (collections, errors, process
switches, further call-outs and callbacks). *memory accesses* reads and writes each type at each offset of malloced and garbage-collected storage and compares the
dump of all the bytes. *layouts* compares 2,700 structures and unions with gcc. The check found, and led to repairs of: float results read as doubles, long double
results, arguments and callbacks, large integers passed as floating point, a crash for a SmallInteger as variadic arguments, a heap overflow for wide strings,
and the size of unions.''')
