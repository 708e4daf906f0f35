P = dict(
 id='C26', title='Digests and compressed streams are right however the data is cut',
 statement='''MD5 and SHA1 digests of any data are the standard ones, whatever its length (including beyond 2^32 bits or bytes) and however it is divided into calls that add a character, a string, or a stream, and a partial digest or a copy does not disturb the computation. What is written on a compressing stream (raw, zlib or gzip), or read through one, in pieces of any size, with flushes of any kind in between, is one complete standard compressed stream of exactly that data. Reading from an inflating stream, with any mixture of single and bulk reads, peeks, searches, skips, positioning and resets, delivers exactly the original bytes, whatever the buffer size and however the compressed data arrives. Damaged data is reported as an error, and truncated data or data followed by something else ends the stream; nothing loops forever.''',
 over=['inputs', 'histories'],
 quantifier='''for every length, every division into two or four parts, every sequence of stream operations up to a depth, with sizes around the buffer sizes, and every single damaged byte of small streams''',
 why='''Block and buffer boundaries are carried from call to call in the C code and in the streams; an error needs a particular division of the data or a particular sequence of reads around a boundary.''',
 files=['packages/digest/md5.c', 'packages/digest/sha1.c', 'packages/digest/digest.c', 'packages/digest/digest.st', 'packages/digest/md5.st', 'packages/digest/sha1.st', 'packages/zlib/zlib.c', 'packages/zlib/ZLibStream.st', 'packages/zlib/ZLibReadStream.st', 'packages/zlib/ZLibWriteStream.st'],
 mechanism=[('md5_process_bytes, md5_process_block, md5_finish_ctx', 'packages/digest/md5.c'), ('sha1_process_bytes, sha1_process_block, sha1_finish_ctx', 'packages/digest/sha1.c'), ('zlib_wrapper', 'packages/zlib/zlib.c'), ('fillBuffer, position:, reset', 'packages/zlib/ZLibReadStream.st'), ('flushBuffer:, next:putAll:startingAt:', 'packages/zlib/ZLibWriteStream.st')],
 technique='bounded exhaustive enumeration of divisions of the data and of operation sequences on the real modules, against Python hashlib and zlib',
 note='''177,000 digest computations; lengths around 2^28 to 2^32 + 2^29 bytes; 18,000 sequences of writes (depth 3, thorough 4), 4,600 compressed sources, 150,000 (more in thorough) sequences of reads, 163,000 damaged streams.''',
 design='''The modules are compiled from packages/digest and packages/zlib and loaded in the VM with the Smalltalk classes. Digests: every length up to 700 (1300) of four
patterns, added at once, as a stream and by character; every length up to 200 (400) divided at every place, with a partial digest and a copy at the division;
four parts of 16 sizes around 56, 64 and 128 with partial digests in between. The length counters are driven through the C functions with more than 4 GB,
with the digest finished at 18 lengths around each boundary. Compressing writes: all sequences of puts, bulk writes of sizes around the buffer size and
flushes, for buffers of 8, 100 and 16384; the result must decompress, completely and without a rest, to the data. Reads: all sequences of 33 operations of the
protocol for buffers of 8, 1000 and 16384, with the source giving all, or one byte at a time, against a position in a byte string; the sequence ends with the
rest of the data. Damage: every truncation, every value of every byte of small streams, first two bytes, data after the end, compared with what zlib itself
decides. The check found, and led to repairs of, writes after a buffer was filled exactly, input lost with a small buffer, wrong data after a reset, and
endless loops when positioning at the end, on data after the end and on a preset dictionary.''')
