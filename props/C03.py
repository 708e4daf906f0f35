P = dict(
 id='C03', title='A snapshot resumes the state it was taken in',
 statement='''An image saved by ObjectMemory snapshot:, whenever it is saved, contains every reachable object: when it is loaded, mapped or read, at the same or another address, again and again, objects have the same class, size, contents, identity, read-only and weak attributes, and the Smalltalk processes that were running, waiting, delayed or suspended continue as in the process that saved. The save answers false in the image being saved and true in the resumed one, and dependents are notified of #aboutToSnapshot, #finishedSnapshot and #returnFromSnapshot accordingly. If any step of the save fails, or the process is killed, the file is the complete previous image or the complete new one; a failure is reported, leaves the previous image and no other file, and execution continues. A truncated file, or one whose signature, word size or version does not match, is refused when loaded.''',
 over=['histories', 'crash points', 'inputs'],
 quantifier='''for every graph of three objects, every shape, size, attribute and volume of objects, every chain of up to three ways of loading and saving (four in the thorough tier), every bytecode of the programs at which the snapshot is taken, every failure or kill at each system call of the save, and every truncation explored''',
 why='''Whether the image is right depends on layout, size thresholds, where the collector and scheduler were, and what the operating system answered; tests save one image and load it once.''',
 files=['libgst/save.c', 'libgst/oop.c', 'libgst/dict.c', 'libgst/interp.c', 'libgst/sysdep/posix/files.c', 'kernel/ObjMemory.st', 'kernel/ProcSched.st', 'kernel/Delay.st'],
 mechanism=[('_gst_save_to_file, save_to_fd, full_write, buffer_write, make_oop_table_to_be_saved, save_all_objects, save_object, fixup_object, load_snapshot, load_file_version, load_oop_table, load_normal_oops, restore_all_pointer_slots', 'libgst/save.c'), ('_gst_init_oop_table, _gst_init_mem', 'libgst/oop.c'), ('_gst_init_dictionary_on_image_load', 'libgst/dict.c'), ('ObjectMemory class>>changed:', 'kernel/ObjMemory.st')],
 technique='exhaustive fault injection at every system call of a save, and fork-based exploration of a snapshot at every bytecode, with the images resumed on the real VM',
 note='''46,656 graphs in 48 chains, 7,900 objects in 12 chains, 52 volumes of up to 13 MB in 12 chains, 25,000 snapshots of three programs, 826 faults, 8,080 truncations and 2,180 damaged headers, 209 histories of processes. Images are loaded on this platform only (no change of byte order or word size). C call-outs and callbacks in progress are not explored, and kills are of the process, not of the machine (unsynced data).''',
 design='''A preloaded shim makes mapping the file fail (the image is then read) or puts the object table elsewhere, far away or overlapping the old place (all pointers are relocated), and counts and fails the system
calls on the image directory. *graphs* stores all graphs of three objects with two slots over {nil, A, B, C, 5, $x} in one image, and loads, mutates and saves it through
each chain of modes, checking contents and identity of all. *shapes* has objects of all 14 shapes with 0 to 3 fixed variables and 48 sizes around the thresholds, read-only, fixed,
weak and ephemeron. *volumes* has up to 13 MB (40 MB in the thorough tier) of small, medium, large or fixed objects, so that the loaded objects and the object table exceed every limit. *snapshots of programs* uses the explorer to take a snapshot at every bytecode of three programs (blocks and exceptions, collections and become:, processes and
locks); the saver and the resumed images must all compute the same result. *faults* makes every system call of a save fail with ENOSPC (lasting), EIO, EINTR, EACCES, or store half of the data, or
kills the process before or after it; then judges the file, the answer, the directory, later saves, and the continued execution. *damaged* cuts an image at 8,000 places and
changes header bytes; a changed primitive table checksum must load through lookup by name. *processes* combines ten ways of waiting and the notifications. The check found, and
led to repairs of: a failed or interrupted save destroyed the previous image; a truncated image crashed the VM; so did one with few free object table entries,
and one that exceeds the old space limit when it cannot be mapped at its address (this happened once in 5,000 starts with the image of the repository's own ANSI tests).''')
