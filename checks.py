"""Which harness runs decide which property, and how the manifest describes it."""
MC = 'model_checking'
HOOK_COMMITS = ['dd8c4e6', '7793784', '5582edd']
ALL = ['C%02d' % i for i in range(1, 21)]
DEC = [dict(name='asan', harness='h_dec.cpp', variant='asan'), dict(name='asm', harness='h_dec.cpp', variant='fast')]
TRUST = ' Trusts the reference codec (src/refdec.h, src/refenc.h), the compiler and the harness runtime (src/mc_rt.cpp).'
COD = 'h_codec.cpp'
SCH = 'h_sched.cpp'
SCHT = 'stateless model checking: systematic schedule exploration of the real library under a controlled scheduler'
def sch(*names): return [dict(name=n, harness=SCH, variant='sched', shards=24) for n in names]
CST = 'h_cstream.cpp'
CSJ = [dict(name='seq', harness=CST, variant='small', shards=40), dict(name='timers', harness=CST, variant='small', shards=24), dict(name='steps', harness=CST, variant='small', shards=24)]
CSB = 'with the real constants all sequences of 2 operations over 13 and of 4 over 4 in 2-6 configurations; with reduced ones all sequences of 2 operations over 40 and of 4 over 12 (thorough: 3 and 5) in 11 configurations (single/dual buffer, 1-3 threads, overlap, reset interval, timeout, background work as late or as early as possible), 27 constant step sizes x 5 output sizes, all flush positions near the end of a dictionary, all patterns of 7 (10) timer expiries in 11 call sequences'
HUGE = [dict(name='huge', harness='h_huge.cpp', variant='fast', shards=8)]
REAL = [dict(name='real', harness=CST, variant='fast', shards=40)]
REALQ = [dict(name='real', harness=CST, variant='fast', shards=40, thorough_only=True)]
REALT = [dict(name='realasan', harness=CST, variant='asan', shards=40, args=['--jobname', 'real'], thorough_only=True)]
CHECKS = {
    'C01': dict(level=MC, jobs=HUGE + [dict(name='large', harness=COD, variant='asan', shards=40), dict(name='small', harness=COD, variant='small', shards=40), dict(name='tiny', harness=COD, variant='fast', shards=24), dict(name='tinyasan', harness=COD, variant='asan', shards=40, args=['--jobname', 'tiny'], thorough_only=True), dict(name='struct', harness=COD, variant='fast', shards=24), dict(name='dicts', harness=COD, variant='fast', shards=40, thorough_only=True)],
                bounds='one-shot compression of more than 4 GiB with 1 and 3 threads; all strings over 2 letters to 16 bytes, 3 to 10, 6 to 5; runs 0-620, periods 2-40, one repeat of every length at many distances; chunk-sized segments in all triples; pairwise parameter corners; all dictionary sizes 4096-4162 with 2.5 dictionaries of input, 1-6 threads, every length to 4160 (reduced minimum sizes)',
                note='Every input, parameter set and thread count of the bounded space is compressed into exactly FL2_compressBound bytes between guard pages, decoded by an independent decoder and by the library, and compared.' + TRUST),
    'C02': dict(level=MC, jobs=HUGE + [dict(name='large', harness=COD, variant='fast', shards=40), dict(name='small', harness=COD, variant='smallf', shards=40), dict(name='tiny', harness=COD, variant='fast', shards=24), dict(name='struct', harness=COD, variant='fast', shards=24), dict(name='steps', harness=CST, variant='small', shards=40)],
                bounds='one-shot compression of more than 4 GiB; as C01; streaming in constant steps; block structure: dictionary sizes 4096-16384 x overlap 0-14 x reset interval 0-4 x threads 1-4 x input length around block ends',
                note='Every output of the bounded space is parsed by a strict reference decoder which enforces the declared dictionary size, chunk sizes, reset rules, end marker, hash presence and value.' + TRUST),
    'C08': dict(level=MC, jobs=[dict(name='bound', harness=COD, variant='fast', shards=40), dict(name='capacity', harness=COD, variant='small', shards=40)],
                bounds='all capacities 0..bound+2 of results to 200 bytes and around the size of longer ones, 1 and 3 threads, hash/properties on and off; noise of 0-39 bytes, around every chunk and slice size, 1-8 threads at the real bound; all decompression capacities',
                note='Every capacity of the bounded space with guard pages and canaries around the destination.' + TRUST),
    'C20': dict(level=MC, jobs=[dict(name='omit', harness=COD, variant='small', shards=40), dict(name='omitreal', harness=COD, variant='asan', shards=16)],
                bounds='36 inputs (0-9000 bytes) x strategies x threads x one-shot/streaming x hash setting x 4 dictionary sizes x earlier use; all 256 property bytes through every function',
                note='Every raw stream of the bounded space is compared with the reference decoder and decoded through FL2_initDCtx and FL2_initDStream_withProp at several splits.' + TRUST),
    'C03': dict(level=MC, jobs=HUGE + [dict(name='hugec', harness='h_huge.cpp', variant='fastc', shards=8, args=['--jobname', 'huge'])] + DEC, bounds='more than 4 GiB through both kinds of API, distances to 2^32-1; all symbol sequences to depth 4 (8 property sets), 3 (all 75 property sets), 5 (2 property sets), all chunk sequences to depth 4, all lengths x history, all distance slots, dictionary wrap offsets',
                note='Every stream in the bounded space is decoded by both decoder implementations through every API and compared with an independent reference decoder.' + TRUST),
    'C04': dict(level=MC, jobs=DEC, bounds='all strings over the header alphabet to 14 bytes, every truncation, every 1-byte substitution, insertion and deletion of the base streams, illegal chunk sequences, distances beyond history, header size offsets',
                note='Every malformed string of the bounded space, each through every decoding API in guard-paged buffers under ASan, with the verdict of a strict reference decoder; uninitialised use is found by decoding under three memory fill patterns.' + TRUST),
    'C05': dict(level=MC, jobs=HUGE + [dict(name='split', harness='h_dstream.cpp', variant='asan'), dict(name='node', harness='h_dstream.cpp', variant='small'), dict(name='asm', harness='h_dstream.cpp', variant='fast', thorough_only=True)],
                bounds='more than 4 GiB with 1 and 2 threads; all compositions of input and output of short streams, all two-point splits and all fixed step sizes of longer ones, 1-4 threads, all input-node boundary offsets, memory limits swept in steps of 8-40 bytes, trailing data, idle calls, all pairs of successive streams',
                note='Every division of input and output of the bounded space on the real streaming decoder (single- and multithreaded), data, positions and return values compared at every call.' + TRUST),
    'C06': dict(level=MC, jobs=HUGE + REAL + CSJ + REALT, bounds='more than 4 GiB in one stream; ' + CSB, note='Every call sequence of the bounded space on the real streaming compressor; every finished stream is decoded by the strict reference decoder and compared; every documented loop must finish within a bounded number of calls.' + TRUST),
    'C07': dict(level=MC, jobs=REALQ + CSJ + REALT, bounds=CSB, note='Every call sequence of the bounded space; at each completed flush the output delivered so far is decoded by the reference decoder and must give everything supplied.' + TRUST),
    'C18': dict(level=MC, jobs=[dict(name='params', harness='h_mem.cpp', variant='small', shards=16), dict(name='levels', harness='h_mem.cpp', variant='fast', shards=16), dict(name='limit', harness='h_dstream.cpp', variant='small', shards=40)],
                bounds='all levels x 7 thread counts x buffer modes at real sizes; 9 dictionary sizes x strategies x chain logs x buffer resize x threads x modes with full-length operations; decoders x threads x stream shapes; memory limits swept in steps of 8-40 bytes',
                note='The peak of live bytes requested by the library in every configuration of the bounded space is compared with the estimates and the limit.' + TRUST),
    'C19': dict(level=MC, jobs=HUGE + REALQ + CSJ + [dict(name='dsplit', harness='h_dstream.cpp', variant='asan', shards=24), dict(name='dnode', harness='h_dstream.cpp', variant='small', shards=24)] + sch('async', 'adec'), bounds='more than 4 GiB in one stream in both directions; ' + CSB + '; decompression: all two-point splits and fixed steps, all input-node boundary offsets',
                note='Progress and remaining output are read after every call of every sequence of the bounded space and compared with what has been supplied and delivered.' + TRUST),
    'C21': dict(level=MC, jobs=sch('apart'), technique=SCHT,
                bounds='all pairs of 20 kinds of work (compression one-shot and streaming, 3 strategies, both match tables, 1-2 threads; decompression one-shot and streaming of whole, corrupt and truncated streams, 1-2 threads; counting processors; estimates; queries), deviation bound 2 (1 where two of them are multithreaded), and 80 triples at bound 1; switches between calls, at every synchronisation operation and at every unordered access, including those to the static data of the library',
                note='Every schedule within the deviation bound; the results of each thread are compared byte for byte with those of the same work alone.' + TRUST),
    'C10': dict(level=MC, jobs=[dict(name='pool', harness='h_pool.cpp', variant='sched')],
                bounds='1-3 threads, all operation sequences to length 3, deviation bounds 1-4, all timer expiries, spurious wake-ups',
                technique='stateless model checking: systematic schedule exploration of the real pool under a controlled scheduler',
                note='All interleavings within the deviation bound at every synchronisation operation and racy access; a happens-before monitor runs in every execution.' + TRUST),
    'C09': dict(level=MC, jobs=sch('compress', 'decompress'), technique=SCHT,
                bounds='compression: 2-4 threads, 3 strategies, 4 kinds of input, both match tables, 1-3 operations on one object; decompression: 13 streams (whole, corrupt, truncated, output too small) x one-shot and streaming in 5 step sizes x 2-6 threads; deviation bound 1-3 chosen per scenario by its number of scheduling points (reported as cases at bound k)',
                note='Every schedule within the deviation bound at every synchronisation operation, atomic and racy access; output bytes, results and consumed input are compared with those of the default schedule or of a single thread.' + TRUST),
    'C11': dict(level=MC, jobs=sch('async', 'deep', 'adec') + [dict(name='timers', harness=CST, variant='small', shards=24)], technique=SCHT,
                bounds='compression: 19 call sequences x 7 configurations (dual buffer, timeout, 1-2 threads), bound 1, 3 (4) of them bound 2; decompression: 13 streams x 7 step sizes and thread counts with a timeout, bound 1-3; all patterns of 7 (10) timer expiries in 11 call sequences',
                note='Every schedule and every timer expiry within the deviation bound; every call, position, return code and the finished stream are checked as for synchronous streaming, with the reference decoder.' + TRUST),
    'C12': dict(level=MC, jobs=sch('ccancel', 'dcancel', 'deepcancel'), technique=SCHT,
                bounds='compression: 5 configurations x 7 stages x 6 ways to go on (cancelled, freed, started anew, changed settings, one-shot, timeout removed); decompression: 5 streams x 1-3 threads x whole and piecewise input x 5 ways to go on; deviation bound 1-2 and all timer expiries within it',
                note='Every schedule within the bound, so that cancelling or freeing meets the worker threads at every scheduling point; later operations are compared with those of a new object, and freed memory is checked at every access.' + TRUST),
    'C14': dict(level=MC, jobs=HUGE + DEC + [dict(name='steps', harness=CST, variant='small', shards=24), dict(name='tiny', harness=COD, variant='fast', shards=16), dict(name='large', harness=COD, variant='fast', shards=24)], bounds='more than 4 GiB with a right and a wrong hash; content lengths 0..200 with every hash bit, all 255 wrong values and permutations of every hash byte, all single-bit data changes of the base streams',
                note='Every altered stream of the bounded space through every decoding API and split.' + TRUST),
    'C13': dict(level=MC, jobs=[dict(name='ctx', harness='h_reuse.cpp', variant='small', shards=24), dict(name='deepctx', harness='h_reuse.cpp', variant='small', shards=40), dict(name='dec', harness='h_reuse.cpp', variant='small', shards=40), dict(name='ctxreal', harness='h_reuse.cpp', variant='fast', shards=24)],
                bounds='compression: all pairs (thorough: triples) of 40 operations - complete, failing, abandoned or cancelled at 8 stages, 8 settings - and all sequences of 4 (5) of 9 core operations, in 6 configurations; at real sizes all pairs (triples) of one-shot and streaming operations with 7 dictionary sizes of 1-64 MiB; decompression: all triples (sequences of 4) of 34 operations - complete, truncated at every stage, corrupt, starved, bad property - for contexts and streams, 1-4 threads, pairs (triples) with timers',
                note='Every sequence of operations of the bounded space on one object; the outcome of each operation (result, output bytes, settings in force, declared properties, decoded data, memory growth) is compared with that on a new object.' + TRUST),
    'C15': dict(level=MC, jobs=[dict(name='params', harness='h_reuse.cpp', variant='small', shards=24), dict(name='paramsreal', harness='h_reuse.cpp', variant='fast', shards=24, args=['--jobname', 'params'])],
                bounds='every parameter x every value around both ends of the range, all powers of two and 64-bit corners x 4 starting points; all sequences of 3 (thorough: 4) settings over 70; all levels; 25 thread counts x 5 kinds of object; 13 processor counts x 80 descriptions in /proc/cpuinfo x 5 forms; all error codes; 13 stages of an operation x all parameters x 3 values; equal settings reached in 3 ways give equal bytes for all levels',
                note='Every setting of the bounded space is compared with a model of the documented ranges, tables and locking.' + TRUST),
    'C16': dict(level=MC, jobs=[dict(name='oom', harness='h_oom.cpp', variant='small', shards=40)],
                bounds='compression one-shot/stream/dual x 1-4 threads x 4 dictionary sizes x 3 strategies x timeout x 3 sizes, fresh and after 4 kinds of earlier operation; decompression one-shot/stream x 1-4 threads x timeout x 3 streams x 4 input steps, fresh and after 3 others',
                note='For every scenario every single allocation, every allocation from one on, and every thread creation is made to fail in turn, at creation and during the operation, which is then retried or freed; leaks, uses after free and wrong data are found by exact accounting, ASan and the reference decoder.' + TRUST),
    'C17': dict(level=MC, jobs=HUGE + DEC, bounds='totals of more than 4 GiB; all chunk sequences to depth 3 with every truncation, all header size field corners, all control bytes, all substitutions in the base streams',
                note='Reported size compared with the reference decoder and with real decompression on every stream of the bounded space.' + TRUST),
}
NOT_APPLICABLE = [dict(property=i, reason='check under construction') for i in ALL if i not in CHECKS]
