CHECKS = {}
def reg(id, src, quick, rule, **kw): CHECKS[id] = dict(src=src, quick=quick * 2, thorough=kw.pop("thorough", quick * 12), rule=rule, **kw)
reg("C01", "c01_mpi.c", 200000, "A case imports four random big integers (0-10 limbs, limbs biased to 0, all-ones and powers of two, both signs) and applies 1-14 random operations with random destination/operand aliasing, comparing every variable with a reference big integer after each. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: some operation had two operands of at least two machine words.")
reg("C02", "c02_bitmap.c", 1500000, "A case performs 1-6 bitmap operations on random contents (constant, sparse, edge words; garbage beyond the length; aliased destination) with run-time lengths 0-700 or one of 30 compile-time lengths, and compares every bit with a per-bit evaluation. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Rarely maps of millions of bits. Non-trivial: some operation spanned several words or had a compile-time length or was a range operation.")
reg("C03", "c03_bitwalk.c", 4000000, "A case builds one or two bitmaps (run-time length 0-1000 or one of 19 compile-time lengths; dense, sparse, edge-word contents, garbage beyond the length) and performs 2-12 searches plus 1-4 iterations, each compared with a per-bit scan. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: several words or a compile-time length.")
reg("C04", "c04_bits.c", 1500000, "A case evaluates one group of word-level helpers (bit scans, rotations, logarithms/counts/masks, alignment/rounding/clamping, single-bit operations and generated flag accessors) on boundary-biased words and compares with naive definitions; compile-time constants are checked once per process. Every case is non-trivial (distinct by its draws).", configs=["asan", "nobuiltin"], share={"nobuiltin": 0.5})
reg("C05", "c05_convert.c", 2000000, "A case performs 1-8 unaligned accesses at random offsets of a guarded buffer, or evaluates every byte-order, swap, reversal and decimal helper on a boundary-biased word, or converts an array (in place or not), or computes four double-word sums, differences, products and quotients compared with 128-bit arithmetic. Every case is non-trivial (distinct by its draws).")
reg("C06", "c06_checked.c", 4000000, "A case evaluates the checked and saturating sum, difference and product of two boundary-related values of one of eight types against 128-bit arithmetic, or packs and extracts a random field of a random register, or encodes an error code and an ordinary pointer. Every case is non-trivial (distinct by its draws).")
reg("C07", "c07_matrix.c", 250000, "A case imports four matrices (1-12 rows and columns, boundary-biased elements) and applies 1-8 random operations with random destination and operands (aliased or not, compatible or not), comparing the shape and every element of all matrices with a schoolbook computation; rarely an outer product whose element count exceeds the index type. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: an operation produced more than one element.")
reg("C08", "c08_array.c", 1000000, "A case performs 1-25 operations (push, pop, peek, resize, reserve, reset, release, impossible requests, single allocation failures) on an array of 1-64 byte elements and compares length, capacity, allocation and every byte with a plain sequence. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Rarely arrays of gigabytes in reserved address space. Non-trivial: the storage was moved while it held elements.")
reg("C09", "c09_fifo.c", 600000, "A case performs 1-40 operations (single and block insertion, extraction and peeking, reset) on one of ten statically or dynamically sized FIFOs of 1-16 byte elements, with positions often starting just below 2^32 or 2^64, and compares every result with a plain queue. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Rarely queues of gigabytes in reserved address space. Non-trivial: more elements than the capacity passed through.")
reg("C10", "c10_record.c", 400000, "A case performs 1-30 record operations on one of eight record FIFOs or eight record ring buffers (one- and two-byte headers, 1-12 byte elements, positions often near their wrap) with record lengths around the free space, the capacity and the header limit, comparing every record with a list of records. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Rarely queues of gigabytes in reserved address space. Non-trivial: the buffer wrapped and a record was extracted while others were stored.")
reg("C11", "c11_ringbuf.c", 600000, "A case performs 1-40 operations on one of ten ring buffers, comparing with a bounded queue that drops the oldest, or checks the circular count and space macros for a random index pair. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Rarely queues of gigabytes in reserved address space. Non-trivial: more elements than the capacity passed through, or a macro case.")
reg("C12", "c12_list.c", 1000000, "A case performs 2-30 operations on three lists sharing twenty members (doubly linked, singly linked or bucket lists) and random iterations of every kind, with deletions during the safe ones, and compares all links and visits with plain sequences. Non-trivial: some list held at least three members.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C13", "c13_ilist.c", 600000, "A case performs 2-60 insertions and deletions of 48 members with few distinct keys and compares the iteration order with a stably sorted sequence after each. Non-trivial: an equal member was inserted after the first member of some group had been deleted.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C14", "c14_sort.c", 500000, "A case sorts an array (0-1500 elements of 1-300 bytes; random, sorted, reversed, organ-pipe, constant and nearly sorted keys) and searches it, or sorts a list of the same shapes, and compares with an insertion sort, the multiset of elements and a linear search. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Some searches run over up to 2^46 imaginary elements. Non-trivial: at least three elements.")
reg("C15", "c15_rbtree.c", 150000, "A case performs 2-110 (rarely 200-900) insertions, deletions, replacements and lookups on a tree (plain or with cached first node, augmented with a subtree maximum or not, unique or repeated keys; random, rising or falling keys) and after each checks order, colours, black heights, parent links, augmented values and a random traversal against a sorted sequence. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: more than six members and two deletions.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C16", "c16_segtree.c", 250000, "A case performs 2-80 (rarely 100-500) insertions and deletions of nested, touching, equal and extreme intervals in the built-in (unsigned long) or a user-defined (int) interval tree, checks every subtree summary and compares range queries with a scan. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: a query after a deletion returned several of more than five intervals.")
reg("C17", "c17_heap.c", 250000, "A case performs 2-80 (rarely 100-500) insertions and removals (top or any member; random, rising, falling keys; both orders) and checks the heap order, the completeness, all links, positions, and a random traversal after each. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: more than six members and two removals.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C18", "c18_btree.c", 90000, "A case performs 2-120 (rarely 300-1200) operations (insertion, update, removal, vetoed removal, conflicts, failed allocations, deletion while iterating, release) on a B-tree with a built-in or a custom layout (1-3 key words, 4-9 keys per node), random or sequential non-zero keys at boundary bases and values that may equal keys, and compares lookup, neighbours of present and absent keys, ends and iterations with an array. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Rarely nodes of hundreds of keys and keys of up to 40 words. Non-trivial: at least two levels and a removal.")
reg("C19", "c19_skiplist.c", 150000, "A case performs 1-70 (rarely 100-500) insertions (some without memory), removals, lookups and resets on a skip list of 1-16 levels with random, rising or falling, unique or repeated keys and five shapes of the level lottery, and compares all levels, both directions and every iteration kind with a multiset. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: several levels, more than four members and a removal.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C20", "c20_radix.c", 120000, "A case performs 1-40 (rarely 60-300) allocations (some without memory), releases, lookups and preallocations on a radix array of one of twelve element sizes (1-256 bytes) with indices near 0, block borders, powers of the fan-out, shared neighbourhoods and the end of the index range, and checks every element's place and content, first, last, next, previous and nine iteration kinds (some deleting) against a sorted array. Non-trivial: more than three elements and a release.")
reg("C21", "c21_hashmap.c", 90000, "A case performs 1-70 (rarely 150-800) additions, sets, updates, appends (some without memory), deletions (some while shrinking fails), lookups and releases on a hash map with one of six hash functions (constant, colliding, high-bit, mixing), default or custom growth rules and few or many distinct keys, and compares every lookup and one of four iterations with a multiset. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: more than four entries and a deletion.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C22", "c22_hashtbl.c", 300000, "A case adds and deletes up to 200 nodes (repeated keys, strided keys, boundary bases) in a static or run-time hash table of 2-1024 buckets and checks emptiness, all eight iterations (whole table, one bucket, safe with deletions) and the bucket of keys against a set. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: more than three members.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C23", "c23_bloom.c", 600000, "A case performs 1-80 additions, queries and flushes on a Bloom filter of 0-12 hash functions (seven families, many colliding) and 1-5000 bits (or impossible capacities), comparing every answer with the set of positions marked since the last flush. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: some addition found its key already present in a filter of several words.")
reg("C24", "c24_cache.c", 250000, "A case performs 1-60 (rarely 250) obtains (all flag combinations), puts, commits, deletions, renames and resets on an LRU or LFU cache of 2-32 elements and 40 tags (colliding hashes, limited pending changes) and compares every element's state, tag and references, every tag's lookup, the internal lists and all counters with a model. Rarely up to 512 elements and 400 tags. Non-trivial: the cache was full and something was evicted.")
reg("C25", "c25_policy.c", 250000, "The same histories as for C24, judging in addition which element is recycled: an unused one while there is any, otherwise the one released longest ago (LRU) or one of the smallest use count (LFU); some caches use a policy of the check's own, registered, found by name and removed again, whose calls are compared with what the cache must tell a policy. Rarely up to 512 elements and 400 tags. Non-trivial: the cache was full and something was evicted.")
reg("C26", "c26_memalloc.c", 250000, "A case performs 1-50 (rarely 200) allocations, releases and reallocations (sizes near the largest gap, the free space, zero and SIZE_MAX) in a region of 50-20000 bytes with first, best or worst fit, and checks that blocks are inside, disjoint and keep their contents, that chunks tile the region and merge, and the free space; at the end the whole region is allocated again. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Rarely regions of gigabytes in reserved address space. Non-trivial: more than three blocks and two releases.")
reg("C27", "c27_allocpool.c", 400000, "A case performs 1-80 allocations (sizes at the remaining space, zero, near SIZE_MAX; alignments up to 2^63), releases and resets on a pool at any address and checks containment, alignment, disjointness, contents and refusals. Some cases have hundreds to hundreds of thousands of blocks outstanding, and some in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Every case is non-trivial (distinct by its draws).")
reg("C28", "c28_respool.c", 400000, "A case performs 1-50 insertions, searches, removals and releases (single, found, all) on two pools sharing 24 resources whose release action destroys them, and compares with sequences. Non-trivial: a pool held more than two resources.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C29", "c29_nomem.c", 250000, "A case performs a history on an array, big integers, matrices, a B-tree, a hash map, a skip list, a radix array or a state machine whose allocator fails on a drawn pattern (one position, from a position on, any subset), next to a twin or model that never fails and skips the operations that reported failure, comparing contents after each; or creates and uses FIFOs, ring buffers, Bloom filters, caches, text searchers, word lists and string copies under such failures until they succeed. The default allocator is replaced by one that raises an alarm, and the platform's is watched. Non-trivial: some operations failed for lack of memory and some did not.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C30", "c30_base.c", 600000, "A case encodes 0-70 (rarely 4000) bytes in base 32 or 64, compares with a bit-stream reference, decodes the text again, and decodes a random text over the alphabet, damaged with illegal bytes or padding at random positions or not. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Length functions up to 2^60. Non-trivial: more than three bytes.")
reg("C31", "c31_ascii85.c", 600000, "A case encodes 0-40 (rarely 3000) bytes with zero and all-ones groups, compares with the definition, decodes the text into a buffer of the advertised length, and decodes a copy with an illegal character, a cut group or a short form inside a group. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Length functions up to 2^60. Non-trivial: more than one group.")
reg("C32", "c32_digest.c", 200000, "A case feeds one to three messages (lengths 0-20000, biased to block borders; about fifteen of 2^29 and some of 2^32 bytes) to interleaved contexts of random algorithms in random pieces (empty, block-completing, unaligned) and compares the digests with reference implementations over the whole message. Rarely updates of megabytes. Non-trivial: at least one block.", configs=["asan", "plain"], share={"plain": 0.3})
reg("C33", "c33_crc.c", 1500000, "A case computes one of ten checksums (exported and inline) of 0-80 (rarely 3000) bytes at one of sixteen alignments with a random initial value, whole and in up to six pieces, and compares with bitwise division. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: at least eight bytes.", configs=["asan", "alt"], share={"alt": 0.4})
reg("C34", "c34_arc4.c", 200000, "A case performs 1-20 transformations (empty, in place, unaligned) and rekeyings on two interleaved contexts with keys of 1-1000 bytes and compares with a reference RC4. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: more than eight bytes were transformed.")
reg("C35", "c35_hash.c", 1500000, "A case hashes 0-40 (rarely 600) bytes at one of eight alignments, a string of any byte values (biased to the carry borders), or a word, or draws 2-40 values from two interleaved generators (any seed, reseeded), and compares with references (lookup3, PJW over 32 bits, golden-ratio multiplication, LFSR113). Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: a key of several blocks or more than four values.")
reg("C36", "c36_textsearch.c", 250000, "A case searches a text of 0-90 (rarely 2000) bytes (random, two-letter, mixed-case, edge bytes, mostly equal) for a pattern of 1-9 (rarely 60) bytes (taken from the text, damaged by a bit or a case change, periodic, or random) with all three algorithms, continues to the later occurrences, repeats the search in random blocks (Knuth-Morris-Pratt), and sometimes registers algorithms; compares with a naive scan. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: a pattern of several bytes found beyond the start.")
reg("C37", "c37_levenshtein.c", 400000, "A case computes the distance of two strings (0-12, rarely 150 characters, from small or large alphabets, or one an edited copy of the other; terminated or of given length) with random costs and compares with the recurrence evaluated over suffixes in 64 bits, exchanges the strings, and uses memory with random content or none. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: two strings of several characters at a positive distance.")
reg("C38", "c38_argv.c", 600000, "A case splits a line of 0-60 (rarely 1500) characters with many, few or only blanks and compares count, words, terminator and independence with a scan. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: several words.")
reg("C39", "c39_scnprintf.c", 600000, "A case prints one to three texts (strings up to 60000 bytes, padded numbers, cut strings, mixed directives, texts that cannot be formatted) through both entry points into buffers of any size around the length, zero and one included, and compares with the complete text. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: the text was cut.")
reg("C40", "c40_strings.c", 1500000, "A case classifies a random byte in all classes (all bytes and the constant forms once per process), names an error number, duplicates a text with a bound (terminated or not, around its length, near SIZE_MAX), or searches the first difference, one to four times, and compares with definitions. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: a duplicate that was cut or a difference behind the first byte.")
reg("C41", "c41_fsm.c", 400000, "A case builds a random machine of 2-8 states (parents, entry chains, exception handlers, guards, pushes, pops, cross transitions, missing destinations) and feeds 1-30 events, some with failing actions or no memory, resets and forced errors, comparing results, the exact list of actions with their arguments, current and previous state and the stack with a model. Rarely a machine of 40 states or thousands of nested pushes. Non-trivial: more than two transitions were taken.")
reg("C42", "c42_notifier.c", 500000, "A case performs 2-40 registrations, unregistrations and notifications (stop and remove requests, call limits, subscribers unregistering themselves or others while called; few distinct or extreme priorities) with sixteen subscribers and checks who is called, the order, the counts, the result and the chain. Rarely up to 400 subscribers. Non-trivial: a notification met more than three subscribers.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C43", "c43_atomic.c", 400000, "A case performs 1-25 atomic operations or reference-count operations on boundary-biased values, where another thread's write may be placed right before any compare-and-exchange (drawn), and compares reported and left values with a sequential model; or places releases by other holders right before and right after a reference-count operation; or lets 2-4 threads run 300 rounds of every operation on shared words (or release 1500 objects at the same moment) and compares totals, tickets, exchanged tokens and last releases. Non-trivial: more than three operations or several threads.", configs=["asan", "plain"], share={"plain": 0.5}, racy=True)
reg("C44", "c44_limit.c", 1500000, "A case presents 1-40 events (times at, before and behind the interval borders, time zero, negative times, idle times up to the range of the clock, resets) to a rate limiter or a token bucket of random interval and capacity and compares every decision and the counters with a model in 128 bits. Rarely a crowd of up to 80000 events. Non-trivial: an event was refused and a later interval began or tokens were generated.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C45", "c45_log.c", 400000, "A case logs one message (text of 0-60000 bytes biased to the buffer size, 0-3 level marks, any default and record level, with or without tag and colour) to a callback, the console streams or the default logger, and compares delivery, level, text, length and result with the definition; or parses a random level prefix; or uses a level macro. Some cases in a few hundred or thousand are very large (past the 8-, 16- and 17-bit limits of lengths, counts and positions). Non-trivial: a message near or beyond the buffer size or a prefix of several marks.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C46", "c46_llist.c", 300000, "A case performs 1-40 additions (single, batches), single and complete removals on a lock-free list, where another thread's addition or removal may be placed right before any compare-and-exchange (drawn), and compares with a stack after each; or lets 1-4 producers add 400 nodes each while a consumer removes. Non-trivial: the list held more than three nodes, or several threads.", configs=["asan", "plain"], share={"plain": 0.5}, racy=True)
reg("C47", "c47_once.c", 600000, "A case calls four of 1536 run-once sites (each usable once per process) 2-30 times with random conditions, or performs a history of bindings, updates, clears and calls of two actions, or runs guarded scopes left by fall-through, return, break, continue or hand-out. Non-trivial: a fresh site with a false and a repeated true condition, a rebound and cleared action, or several kinds of scope.", configs=["asan", "alt"], share={"alt": 0.3})
reg("C48", "c48_allocator.c", 200000, "A case makes three allocators (and the default one) over tables holding drawn subsets of recording operations and issues a history of (array) allocation, zero-allocation, resize and free requests with drawn sizes, also zero, huge and unrepresentable ones, replacing the default allocator and the default table on the way; operations may deny. Non-trivial: both a table's and the platform's operations were reached, and some block was resized or request refused.", configs=["asan", "plain", "alt", "clang"], share={"plain": 0.3, "alt": 0.3, "clang": 0.3})
reg("C49", "c49_vocabulary.c", 600000, "A case takes one group of the vocabulary (times, macros, once-accesses, containers, groups, dummies, constants, argument mapping, reports) and evaluates it on drawn values, places and structure layouts. Non-trivial: times of different signs, words whose upper half and bit 31 are set, or a member inside a middle element of an array of structures.", configs=["asan", "plain", "alt", "clang"], share={"plain": 0.5, "alt": 0.3, "clang": 0.5})
reg("C50", "c50_independence.c", 40000, "A case draws 2 to 8 programs (27 kinds: each works on containers, codecs, machines or buffers of its own and digests all it observes), takes the digest of each one alone, then runs them again while others run inside their callbacks and allocators (up to three deep), or in 2 to 4 threads, also of the same kind. Non-trivial: at least two programs ran inside others, or threads ran.", configs=["asan", "plain", "tsan", "alt"], share={"tsan": 0.15, "alt": 0.5}, racy=True)
reg("C51", "c51_setup.c", 400000, "A case draws one of 37 kinds of object and a script, sets the object up in each way its type offers (static initialiser, expression, definition, setup function over garbage, release of a used one), performs the script on each (15-60 operations) and compares everything observed. Non-trivial: at least two ways and more than three observations.", configs=["asan", "plain", "alt"], share={"plain": 0.5, "alt": 0.3})
reg("C52", "c52_misuse.c", 2000000, "A case performs a history on lists of each kind, a priority list, a tree, an interval tree, a heap, a block allocator, reference counts or a structure of the library built on them, mixes misuses of every watched kind in, and compares the bytes of the whole structure before and after each misuse and what reached the log after every operation. Non-trivial: at least one misuse was refused.", configs=["asan", "clang"], share={"clang": 0.3})
reg("C53", "c53_work.c", 40000, "A case draws one of 10 structures and 1-40000 members in one of 7 orders (ascending, descending, random, alternating ends, runs, rising and falling, swapped), with or without many equal ones, performs insertions, searches and deletions and counts what each asks of the caller: comparisons, hashes, allocations, bytes. Non-trivial: at least 500 members in other than random order.", configs=["asan", "plain"], share={"plain": 0.5})
reg("C54", "c54_reading.c", 400000, "A case draws one of 26 kinds (a structure with random content, or data and tables passed as read-only), builds it in an arena, asks it through every reading operation of its kind twice, compares the arena byte by byte, write-protects the arena, asks everything again, and in some cases from three threads at once. Non-trivial: more than five answers.", configs=["asan", "plain", "tsan"], share={"plain": 0.5, "tsan": 0.1})
reg("C55", None, 25000, "A case is a case of the generator of another property (C01 to C54, but for the deliberate misuse of C52), run with its model in builds that watch how the library computes: UndefinedBehaviorSanitizer (signed overflow, shifts, alignment, null, bounds, bool, division), MemorySanitizer (values never stored, allocated memory counting as such), no optimisation, and another compiler's strongest. Non-trivial by the rule of that property.", configs=["ubsan", "msan", "O0", "O3"], thorough_configs=["ubsan", "msan", "O0", "O3", "gccO3"],
    technique="property-based testing: the generators and models of the other properties under UndefinedBehaviorSanitizer and MemorySanitizer, and the same cases compared between compilers and optimisation levels; shrinking", thorough=1250000, scale={}, compared=["asan", "O0", "O3", "gccO3"], without=["C52"], assumptions="The sanitizers and compilers are trusted. A call through a function pointer of another but compatible type and the addition of zero to a null pointer, which every supported platform defines, are not counted. A case whose model fails in every build alike is left to that model's property; the builds that only differ in optimisation skip the generators with several threads.")

# cases of gigabytes: how many in a quick run (six times as many in a thorough one)
GIANT = {"C02": 96, "C03": 64, "C30": 16, "C31": 8, "C33": 24, "C34": 1, "C35": 6, "C36": 12, "C37": 8, "C38": 2, "C40": 32}
GIANT_WHAT = {"C02": "bitmaps of billions of bits", "C03": "bitmaps of billions of bits", "C30": "gigabytes of input or text", "C31": "gigabytes of input", "C33": "gigabytes of input", "C34": "gigabytes of input", "C35": "gigabytes of input", "C36": "texts or patterns of gigabytes", "C37": "strings of gigabytes, one of them empty or short", "C38": "lines or words of gigabytes", "C40": "strings and regions of gigabytes"}
for _id, _n in GIANT.items():
    CHECKS[_id]["rule"] = CHECKS[_id]["rule"].replace(" Non-trivial:", " In the configuration giant, every case has %s (mapped so that they cost little memory). Non-trivial:" % GIANT_WHAT[_id], 1)
    _c = CHECKS[_id]; _c["configs"] = _c.get("configs", ["asan"]) + ["giant"]; _c["share"] = dict(_c.get("share", {}), giant=_n / _c["quick"])
