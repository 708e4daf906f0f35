P = dict(
 id='C16', title='Sets, bags and dictionaries are maps; equality and hash are consistent',
 statement='''Whatever the history of additions, removals, replacements, copies and rehashes, and however the hash values of the keys collide, a Set or IdentitySet holds exactly the elements added and not removed, once each; a Bag holds each the right number of times; a Dictionary, LookupTable or IdentityDictionary maps each key to its last value. The identity and weak variants do the same, with keys compared by identity where so documented, and weak ones drop nothing that is referenced. Copies are independent, enumeration visits each element once, a missing key fails without any change. Equality is reflexive, symmetric and transitive, and equal objects have the same hash and find each other in hashed collections, across number, string, collection, date and time classes.''',
 over=['histories', 'inputs'],
 quantifier='''for every sequence of operations up to the bound, for each of several collision patterns of the keys (including wrap-around at the end of the table and growth), and every pair and triple of a set of values''',
 why='''Deletion in open addressing goes wrong only for particular arrangements of colliding keys, reached by particular histories.''',
 files=['kernel/HashedColl.st', 'kernel/Set.st', 'kernel/Bag.st', 'kernel/HashedColl.st', 'kernel/Dict.st', 'kernel/LookupTbl.st', 'kernel/IdentDictionary.st', 'kernel/LookupKey.st', 'libgst/dict.c', 'libgst/dict.inl', 'kernel/Float.st', 'kernel/Fraction.st', 'kernel/AnsiDates.st'],
 mechanism=[('identity_dictionary_at_put, _gst_dictionary_add, remove', 'libgst/dict.c'), ('whenFullDo, rehashObjectsAfter:, findIndex:', 'kernel/HashedColl.st'), ('hash and = of numbers and dates', 'kernel/Float.st')],
 technique='bounded exhaustive exploration of operation sequences on the real code, in lockstep with an executable model',
 note='''Sequences of up to 4 operations (7 for additions and removals in the thorough tier) for 5-10 collision layouts of three keys plus a filler batch, and all pairs and triples of 123 values. Outside: nil as a key, concurrent modification.''',
 design='''As C15: three keys are chosen at run time so that their home slots in the table are those of the layout (equal, adjacent, at the wrap-around),
as integers or as objects with equality of their own; the operations add and remove them, add and remove a batch of 8 fillers (growth), copy
and keep using copy and original, rehash. After each sequence the whole state is observed through about 20 queries and compared with a Python
dict. Equality: a 123 x 123 table of values checks symmetry, reflexivity, hash agreement, membership and transitivity (123^3 triples). The identity and weak classes run the same sequences with keys that are equal but not identical. The check found, and
led to repairs of: IdentitySet lost elements when it grew, weak sets and dictionaries mixed hash and identityHash, WeakValueLookupTable could not be rehashed,
and equal WeakKeyIdentityDictionaries had different hashes.''')
