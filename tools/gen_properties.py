#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it can be reviewed and kept in step)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I="inputs"; H="histories"; F="fault_sequences"; C="configurations"; S="schedules"

# ---------------------------------------------------------------- numbers and bits
prop("C01","Big-integer arithmetic is exact for every operand, sign and aliasing",
 "Addition, subtraction, multiplication, truncated division and remainder, shifts, bitwise and comparison operations on multi-precision integers, with another big integer or with a machine word, return the mathematically exact result for operands of every magnitude and sign. The result is the same when the destination is one of the operands, the operands that are not destinations are left unchanged, division by zero is refused, and a zero result compares equal to zero whatever the signs it came from.",
 [I,H],"all operand values (including all-ones limbs, zero, negative numbers, different lengths), all operations, destination aliasing patterns, and sequences of operations on the same objects",
 "testsuite/mpi runs a handful of fixed operand pairs of a few limbs; carries through all-ones limbs, multi-limb divisors, negative operands and aliased destinations are never produced.",
 ["src/mpi.c","include/bfdev/mpi.h","include/bfdev/dword.h"],
 [("limb carry/borrow propagation","src/mpi.c mpa_add/mpa_sub/mpa_addi"),("Knuth division","src/mpi.c mpa_divrem"),("sign handling","src/mpi.c bfdev_mpi_add/sub/mul/div")],
 observe=["bfdev_mpi_write/bfdev_mpi_read/limb array, bfdev_mpi_cmp"])
prop("C02","Bitmap bulk operations agree with bit-by-bit evaluation",
 "For every bitmap length (also lengths that are not a multiple of the word size), filling, zeroing and copying, range set and clear, and, or, xor, and-not, complement, masked replacement, shifts, equality, union-equality, intersection, emptiness and fullness give exactly what applying the operation bit by bit would give. Only the bits of the given range are interpreted, a mutating operation never changes storage outside the words covering its range, and the answer does not depend on whether the length is a compile-time constant.",
 [I,C],"all bitmap contents, lengths, offsets, shift counts, garbage in bits beyond the length, and constant versus run-time lengths",
 "No test of the suite exercises the bitmap operations; word-boundary lengths, partial last words and constant-length fast paths need generated sizes.",
 ["src/bitmap.c","include/bfdev/bitmap.h","include/bfdev/bitmap-comp.h"],
 [("last word masking","include/bfdev/bits.h BFDEV_BIT_LOW_MASK, src/bitmap.c"),("constant-size fast paths","include/bfdev/bitmap.h")])
prop("C03","Bit searches and bit iteration find exactly the matching bits",
 "Searching a bitmap for the first, next, last or previous set or clear bit, or for the first or next position where two bitmaps combine to a set bit, returns the true position of that bit, or the bitmap length when there is none, for every length and starting offset. Iterating over set or clear bits, forwards or backwards, visits each matching position exactly once in order, and the answer is the same for constant and run-time lengths.",
 [I,C],"all bitmap contents, lengths, start offsets, constant versus run-time lengths",
 "testsuite/bitwalk walks a few fixed patterns of one or two lengths; boundary offsets, non-word-multiple lengths and constant-length paths are not reached.",
 ["src/bitwalk.c","include/bfdev/bitwalk.h","include/bfdev/bitwalk-comp.h"],
 [("word scan with start/end masks","src/bitwalk.c"),("single-word constant fast path","include/bfdev/bitwalk.h")])
prop("C04","Word-level bit and integer-math helpers match their definitions",
 "Find-first, find-last and n-th bit primitives, rotations, population count, parity, bit masks, base-2 logarithms, power-of-two tests and roundings, alignment, rounding-division, minimum, maximum and clamping helpers return the mathematically defined value for every argument in their domain. Single-bit set, clear, flip, change and test-and-modify operations affect exactly the addressed bit and report its previous value.",
 [I],"all 32- and 64-bit words biased to boundaries, all shift counts and bit indices, constant and run-time arguments",
 "examples/log2 and friends evaluate a few constants; the domain is all words and both the compile-time and the run-time implementation.",
 ["include/bfdev/bitops.h","include/bfdev/log2.h","include/bfdev/math.h","include/bfdev/align.h","include/bfdev/popcount.h","src/popcount.c","include/bfdev/bits.h","include/bfdev/bitflags.h","include/bfdev/bitops-endian.h","include/bfdev/asm-generic/builtin-clz.h","include/bfdev/asm-generic/builtin-ctz.h","include/bfdev/asm-generic/builtin-ffs.h","include/bfdev/asm-generic/builtin-ffsuf.h","include/bfdev/asm-generic/builtin-fls.h","include/bfdev/asm-generic/builtin-flsuf.h","include/bfdev/asm-generic/bitops.h","include/bfdev/minmax.h"],
 [("generic bit scan","include/bfdev/asm-generic/*.h"),("const/dynamic selection","include/bfdev/log2.h")])
prop("C05","Byte-order, unaligned and bit-reversal conversions are exact involutions",
 "Reading and writing 16-, 32- and 64-bit values at any address in little- or big-endian order produces exactly that byte layout and round-trips, array conversions agree with element-wise conversion also in place, and byte swaps and bit reversals match their definition and undo themselves. Binary-coded-decimal conversions round-trip over their range, and double-word addition, subtraction, multiplication and division return the exact 128-bit result.",
 [I],"all values, all misalignments, array lengths, constant and run-time arguments",
 "No test checks values of these helpers; each has a constant and a run-time implementation that can drift apart on single bits.",
 ["include/bfdev/byteorder.h","include/bfdev/unaligned.h","include/bfdev/swab.h","include/bfdev/bitrev.h","src/bitrev.c","include/bfdev/bcd.h","src/bcd.c","include/bfdev/dword.h","include/bfdev/asm-generic/dword.h","src/dword.c","include/bfdev/asm-generic/byteorder.h","include/bfdev/asm-generic/swab.h","include/bfdev/asm-generic/unaligned.h","include/bfdev/byteorder/little-endian.h"],
 [("arch endian accessors","include/bfdev/asm-generic/unaligned.h, swab.h"),("lookup tables","src/bitrev.c, src/bcd.c")])
prop("C06","Checked arithmetic saturates and bit-field packing is lossless",
 "The overflow-checked addition, subtraction and multiplication helpers report overflow exactly when the true result does not fit the operand type; the saturating forms return the exact result when it fits and the all-ones value of the type otherwise. Packing a value that fits into a bit-field and extracting it again returns the value and touches no bit outside the field, and error-pointer encoding distinguishes every error code from every ordinary pointer and round-trips the code.",
 [I],"all operand pairs of each width and signedness, all contiguous field masks, all error codes and pointers",
 "No test computes at the type boundaries for all widths.",
 ["include/bfdev/overflow.h","include/bfdev/bitfield.h","include/bfdev/errptr.h"],
 [("builtin overflow checks","include/bfdev/overflow.h"),("mask shift by first set bit","include/bfdev/bitfield.h")])
prop("C07","Matrix operations compute the exact algebraic result in the right shape",
 "Matrix addition, subtraction, transposition, copying and multiplication over machine words yield, modulo the word size, the value the definition gives for every element, with the mathematically correct number of rows and columns, also when the destination is one of the operands for the element-wise and product operations. Operands that are not the destination stay unchanged, operations on incompatible shapes are refused, and element access addresses row-major storage and rejects out-of-range positions.",
 [I,H],"all shapes up to a bound including 1xN and non-square, all element values, aliasing patterns, sequences reusing a destination",
 "examples/matrix runs one fixed example without checking the result.",
 ["src/matrix.c","include/bfdev/matrix.h"],
 [("shape checks and result resize","src/matrix.c"),("row-major indexing","include/bfdev/matrix.h")])
# ---------------------------------------------------------------- containers
prop("C08","The growable array behaves as a sequence of elements",
 "Under every history of appending, reserving, resizing, popping and peeking at the tail, resetting and releasing, a growable array holds exactly the elements an ideal sequence would, in order and byte for byte, and its length, capacity and element access report that state. Growing never loses or alters elements, removing more than the array holds is refused without a change, and all memory is returned on release.",
 [H,I,F],"all operation histories, element sizes, counts, and allocation failures at any point",
 "testsuite/array pushes elements in a few fixed patterns; mixed removal, reservation and allocation-failure histories are not sampled.",
 ["src/array.c","include/bfdev/array.h"],[("capacity growth","src/array.c array_resize"),("index bookkeeping","src/array.c")])
prop("C09","The byte/element FIFO is first-in first-out and never exceeds its size",
 "Under every history of inserting, extracting, peeking (single elements and blocks), resetting and querying, a FIFO delivers the elements in insertion order without loss, duplication or alteration, including after its internal positions wrap around. Block insertion accepts exactly as many elements as there is free space, a full FIFO refuses single insertions, an empty one refuses extraction, and the reported used and free counts always match.",
 [H,I],"all operation histories, element types and sizes, capacities, transfer lengths",
 "testsuite/fifo runs fixed fill/drain patterns for a few element types.",
 ["src/fifo.c","include/bfdev/fifo.h"],[("free-running in/out indices with mask","src/fifo.c"),("two-part copy at wrap","src/fifo.c")])
prop("C10","Record FIFOs keep record boundaries and contents",
 "In record mode each insertion stores one record and each extraction returns exactly one record, in insertion order, with its original length and content, for one- and two-byte length headers and across buffer wrap-around. A record FIFO refuses as a whole a record that does not fit, without disturbing stored records; a record ring buffer discards whole oldest records to make room and shortens a record that exceeds its capacity, reporting the shortened length. Peeking does not consume, and reading with a shorter buffer consumes the whole record.",
 [H,I],"all histories of record insertions and extractions, record lengths, header sizes, capacities, read buffer sizes",
 "The suite has no record-mode history with more than one record stored at once.",
 ["src/fifo.c","src/ringbuf.c","include/bfdev/fifo.h","include/bfdev/ringbuf.h"],[("record header poke/peek","src/fifo.c fifo_record_poke/peek, src/ringbuf.c"),("space check","src/fifo.c")])
prop("C11","The ring buffer keeps exactly the newest data",
 "A ring buffer of capacity N holds, after every history of insertions and extractions, the newest at most N elements inserted and not yet extracted, in order, discarding the oldest ones first when it overflows. Extraction and peeking deliver the oldest retained elements first, element insertion reports whether old data was overwritten, and circular-buffer count and space computations partition the capacity for all index pairs.",
 [H,I],"all operation histories, capacities, element types, transfer lengths larger and smaller than the capacity; all head/tail pairs",
 "examples/ringbuf runs one fixed pattern and does not compare against the expected content.",
 ["src/ringbuf.c","include/bfdev/ringbuf.h","include/bfdev/circle.h"],[("overwrite accounting","src/ringbuf.c"),("count/space macros","include/bfdev/circle.h")])
prop("C12","Linked lists preserve exactly the caller's sequence",
 "Under every history of head and tail insertion, insertion around a member, deletion, replacement, swapping, moving and splicing, circular doubly linked lists, singly linked lists and hash-bucket lists contain exactly the members of the ideal sequence in the same order in both link directions where there are two. Iteration in each direction, from a given member, and deletion-safe iteration visit exactly those members once, and first, last, emptiness and position tests agree. With link checking enabled, linking a member next to itself or deleting a removed member is refused and changes nothing.",
 [H],"all operation histories over several lists and nodes",
 "testsuite/list, hlist and slist each run single operations on fresh lists; compositions such as splice into a rotated list or deletion during iteration are not sampled.",
 ["include/bfdev/list.h","include/bfdev/slist.h","include/bfdev/hlist.h","src/list-debug.c","src/slist-debug.c","src/hlist-debug.c"],[("pointer splicing primitives","include/bfdev/list.h"),("link sanity checks","src/list-debug.c, src/slist-debug.c, src/hlist-debug.c")])
prop("C13","The priority-indexed list stays sorted and stable",
 "Under every history of insertions and deletions, an indexed priority list iterates over exactly its current members in comparison order, with members comparing equal kept in insertion order. Deleting any member, including the first of a group of equal members, never affects the order of later insertions.",
 [H],"all insertion and deletion histories with many equal keys",
 "examples/ilist inserts random keys and deletes them in order; deleting a group leader and inserting afterwards is never done.",
 ["src/ilist.c","include/bfdev/ilist.h"],[("index chain of group leaders","src/ilist.c bfdev_ilist_add/del")])
prop("C14","Sorting is an ordered permutation and searching is exact",
 "Sorting an array with any consistent comparison yields the same elements in non-decreasing order for every element size and count, and sorting a linked list additionally keeps elements that compare equal in their original order. Binary search on sorted data finds a matching element exactly when one exists.",
 [I],"all element sizes, counts and contents including duplicates, sorted and reversed runs; all keys",
 "The suite sorts one random array of one element size and does not check that the result is a permutation.",
 ["src/sort.c","include/bfdev/sort.h","src/list-sort.c","include/bfdev/bsearch.h","src/bsearch.c"],[("heap sort","src/sort.c"),("bottom-up merge","src/list-sort.c"),("binary search","src/bsearch.c")])
prop("C15","Red-black trees stay ordered, balanced and complete",
 "Under every history of insertions, lookups, removals and replacements (with and without first-node caching) a red-black tree contains exactly the inserted and not removed nodes; in-order traversal in both directions visits them in key order, and pre- and post-order traversals each visit every node exactly once in their defined order. After each operation no red node has a red child, every path has the same number of black nodes, lookups find a node exactly when its key is present, and the cached first node is the minimum.",
 [H],"all histories of insert, delete, replace, lookup over many keys with duplicates refused or grouped",
 "examples/rbtree inserts random data and deletes it; balance and order invariants are not asserted.",
 ["src/rbtree.c","include/bfdev/rbtree.h","include/bfdev/titer.h"],[("rebalancing","src/rbtree.c fixup"),("cached leftmost","include/bfdev/rbtree.h")])
prop("C16","Interval-tree queries report exactly the overlapping intervals",
 "A segment (interval) tree, and an augmented red-black tree in general, keeps its per-subtree summary correct under every history of insertion and removal. Querying a range returns, first and then repeatedly next, exactly the stored closed intervals that overlap it, each once, ordered by start.",
 [H,I],"all insert/remove histories and all query ranges, with nested, touching and duplicate intervals",
 "examples/segtree inserts random intervals without comparing query answers to a scan.",
 ["include/bfdev/segtree.h","src/segtree.c","include/bfdev/rbtree.h","src/rbtree.c"],[("subtree max propagation","include/bfdev/rbtree.h augmented callbacks"),("search pruning by subtree max","src/segtree.c")])
prop("C17","The heap always exposes its extreme element",
 "Under every history of insertions, removals of arbitrary members and removals of the top, a linked heap holds exactly its current members, its top compares before or equal to every other member, and repeatedly removing the top yields the members in sorted order. Its shape stays a complete binary tree, positional lookup returns the member at that position, and level-order and post-order iteration visit every member once.",
 [H],"all histories of insert, delete-any, delete-top, for min- and max-orderings with duplicates",
 "examples/heap drains a random heap without checking order or arbitrary removals.",
 ["src/heap.c","include/bfdev/heap.h"],[("sift up/down by node exchange","src/heap.c"),("position path from index bits","src/heap.c bfdev_heap_find")])
prop("C18","The B-tree is an exact ordered map",
 "Under every history of insertion, update, lookup, removal, ordered iteration and destruction, a B-tree maps exactly the inserted and not removed non-zero keys to their values, for 32-bit, 64-bit, pointer-sized and longer keys. Inserting a present key is refused without change or resolved by the caller's conflict handler, first, last, next and previous key queries agree with the sorted key set, iteration enumerates it in order exactly once, and all node memory is returned.",
 [H,I,C],"all histories over many keys, all key layouts, including histories that split and merge nodes at several levels",
 "examples/btree inserts random keys and removes them in the same order without a reference.",
 ["src/btree.c","src/btree-utils.c","include/bfdev/btree.h"],[("node split on insert, merge/borrow on remove","src/btree.c"),("descending key order","src/btree.c")])
prop("C19","The skip list is an exact ordered multiset",
 "Under every history of insertion, removal and lookup, a skip list contains exactly the inserted and not removed keys; level-0 iteration visits them in comparison order in both directions, and a lookup finds a key exactly when it is present. A failed insertion leaves the list as it was, and resetting or destroying it releases every element once.",
 [H,F],"all operation histories, level limits, duplicate keys, and allocation failures at any insertion",
 "examples/skiplist inserts and looks up random data without failures or removals in between.",
 ["src/skiplist.c","include/bfdev/skiplist.h"],[("random level promotion","src/skiplist.c"),("per-level linking","src/skiplist.c")])
prop("C20","The radix array is an exact sparse map from index to element",
 "Under every history of allocating, looking up and freeing elements at arbitrary indices (up to the whole index range), each present index keeps a distinct element whose content is preserved, absent indices are reported as absent, and the first, last, next and previous present-element queries walk the tree without inventing or skipping a present element. Once a range was charged, allocating any element of it needs no further memory. Releasing the array returns all memory, and a failed allocation leaves the contents unchanged.",
 [H,I,F],"all histories of alloc/find/free over sparse indices of all magnitudes, element sizes, and allocation failures",
 "examples/radix allocates a few sequential offsets.",
 ["src/radix.c","include/bfdev/radix.h"],[("level growth and shrink","src/radix.c"),("per-block population bitmap","src/radix.c")])
prop("C21","The hash map is an exact map under all insertion policies",
 "Under every history of add, set, update, append, lookup and delete operations, a hash map contains exactly the entries an ideal map would: add refuses present keys, set replaces or inserts, update refuses absent keys, append keeps duplicates. Growing and shrinking the table, colliding hashes and failed allocations never lose, duplicate or resurrect an entry, and iteration visits each entry once. The table grows and shrinks exactly when the map's own policy says so; without one it keeps at least the minimum of buckets and a number of buckets proportional to the entries.",
 [H,I,F],"all operation histories, policies, hash functions including constant ones, and allocation failures at any resize",
 "examples/hashmap inserts distinct random keys without collisions or failed resizes.",
 ["src/hashmap.c","include/bfdev/hashmap.h"],[("bucket resize and rehash","src/hashmap.c"),("strategy handling","src/hashmap.c")])
prop("C22","Static hash tables keep members retrievable by their key",
 "A hash table of any supported size contains exactly the nodes added and not removed; iterating over all buckets visits each member once, iterating over the bucket of a key visits every member added with that key, and the table is empty exactly when it has no member. The bucket chosen for a key is always within the table and depends only on the key, and runs of consecutive keys are spread evenly over the buckets.",
 [H,I],"all add/delete histories, table sizes and keys",
 "examples/hashtbl adds a few keys to one table size.",
 ["include/bfdev/hashtbl.h","include/bfdev/hash.h","include/bfdev/hlist.h"],[("multiplicative hash to table bits","include/bfdev/hash.h"),("bucket iteration","include/bfdev/hashtbl.h")])
prop("C23","The Bloom filter has no false negatives and forgets only on flush",
 "After any history of additions, every added key is reported as possibly present until the next flush, whatever the hash functions, number of hashes and capacity; a flush leaves a filter that reports every key absent. A query never changes the filter, an addition reports whether the key already appeared present, and an answer of present implies that all of the key's hash positions were set by earlier additions.",
 [H,I,C],"all histories of push, peek and flush, capacities, hash counts and hash functions",
 "examples/bloom pushes and peeks a few keys and never queries after a flush.",
 ["src/bloom.c","include/bfdev/bloom.h"],[("k bit positions modulo capacity","src/bloom.c")])
prop("C24","The cache returns each tag's own element and never evicts pinned ones",
 "Under every history of obtaining, getting, releasing, setting, deleting, committing and resetting, a cached tag is always found at the same element until it is evicted or deleted, no two live elements carry the same tag, and the total number of elements is constant. An element in use is never recycled, evicted or handed out for another tag, a full cache of pinned elements refuses new tags, and used, change, hit and miss accounting matches the history. Tags are opaque to the cache, null pointers included, and a cache without both of its tag operations cannot be created.",
 [H,C],"all operation histories, cache sizes, pending limits, both replacement algorithms",
 "examples/cache obtains and puts random tags without checking identity, pinning or accounting.",
 ["src/cache/cache.c","src/cache/lru.c","src/cache/lfu.c","include/bfdev/cache.h"],[("reference counts and element status","src/cache/cache.c"),("tag hash table","src/cache/cache.c")])
prop("C25","Cache replacement follows the chosen policy",
 "When an unused element must be recycled, the least-recently-used algorithm picks the element released longest ago and the least-frequently-used algorithm picks an element with the smallest use count among the unreferenced ones. Elements that were never used are consumed before any cached element is evicted, and looking up a cached element protects it from eviction while it is held. A policy registered by the user is found under its name, holds exactly the unreferenced elements, is told of every use and reuse, and its choice is the one recycled; incomplete policies and names already taken are refused, and an unregistered policy is gone.",
 [H],"all access histories, cache sizes",
 "Nothing in the suite observes which element is evicted.",
 ["src/cache/lru.c","src/cache/lfu.c","src/cache/cache.c"],[("LRU list order","src/cache/lru.c"),("LFU heap order","src/cache/lfu.c")])
# ---------------------------------------------------------------- memory
prop("C26","The block allocator hands out disjoint memory and loses none",
 "Under every history of allocation, reallocation and freeing inside a fixed region with any search strategy, returned blocks lie inside the region, are large enough, aligned and disjoint, keep their contents until freed and across reallocation, and an impossible request returns nothing and changes nothing. The reported free space always matches the blocks in use, and after everything is freed the whole region can be allocated again in one piece.",
 [H,I,C],"all operation histories, region sizes, request sizes including zero and huge ones, search strategies",
 "testsuite/memalloc allocates and frees fixed sizes; fragmentation, in-place growth and exhaustion histories are not sampled.",
 ["src/memalloc.c","include/bfdev/memalloc.h"],[("split and coalesce of chunks","src/memalloc.c"),("first/best/worst fit search","src/memalloc.c")])
prop("C27","The pool allocator serves disjoint, aligned memory within its arena",
 "Every block obtained from a fixed pool lies inside the pool, satisfies the requested alignment, does not overlap a block handed out since the pool was last empty, and keeps its contents; exhausted requests fail cleanly. The pool becomes wholly available again when the last outstanding block is freed or it is reset.",
 [H,I],"all histories of alloc, free, reset with all sizes and alignments",
 "examples/allocator makes a few allocations without checking overlap.",
 ["src/allocpool.c","include/bfdev/allocpool.h","src/allocator.c","include/bfdev/allocator.h"],[("bump pointer with alignment","src/allocpool.c"),("outstanding block count","src/allocpool.c")])
prop("C28","Resource pools release every resource exactly once",
 "A resource pool holds exactly the resources inserted and not yet removed or released; finding returns a matching resource of the pool, removing detaches it without releasing it, and releasing detaches it and calls its release action exactly once with the caller's data. Releasing all releases each remaining resource exactly once in reverse order of insertion and leaves a reusable, empty pool.",
 [H],"all histories of insert, find, remove, release, find-and-remove, find-and-release, release-all",
 "examples/respool runs one insertion/release pattern.",
 ["src/respool.c","include/bfdev/respool.h"],[("list of nodes with release callback","src/respool.c")])
prop("C29","Containers survive allocation failure without corruption or leaks",
 "If any single memory allocation or any set of allocations fails during an operation on a library object that takes a caller-supplied allocator, the operation either completes in full without that memory or reports failure, and the object remains valid: when failure is reported, the contents visible before the operation are unchanged, and later operations behave normally. Every object returns to its allocator exactly the blocks it obtained from it, each once, and uses no other allocator.",
 [F,H],"all failing positions in all operation histories of arrays, FIFOs, ring buffers, big integers, B-trees, skip lists, radix arrays, hash maps, Bloom filters, caches, matrices, state machines, text searchers and formatted strings",
 "The suite never makes an allocation fail.",
 ["src/allocator.c","src/array.c","src/btree.c","src/hashmap.c","src/radix.c","src/skiplist.c","src/cache/cache.c","src/bloom.c","src/mpi.c","src/matrix.c","src/fsm.c","src/fifo.c","src/ringbuf.c","src/textsearch/textsearch.c"],[("error paths after every allocation","the create/insert/resize functions of each container")])
# ---------------------------------------------------------------- codecs and digests
prop("C30","Base32 and Base64 follow the standard and round-trip",
 "Encoding any byte string in base 32 or base 64 produces exactly the padded text the standard defines, of the advertised encoded length, and decoding it returns the original bytes. Decoding text that contains a byte outside the alphabet before any padding is refused, and neither direction reads or writes outside buffers of the advertised lengths.",
 [I],"all byte strings of all lengths; all texts with corrupted positions",
 "examples/base32 and base64 encode one fixed buffer size.",
 ["src/crypto/base32.c","src/crypto/base64.c","include/bfdev/base32.h","include/bfdev/base64.h"],[("group encoder/decoder state machines","src/crypto/base32.c, base64.c")])
prop("C31","Ascii85 follows its definition and round-trips",
 "Encoding any byte string in Ascii85 produces, for each four-byte group (the last one zero-padded), the five base-85 digits or the short form for an all-zero group, with the reported length within the advertised maximum. Decoding such text returns the original bytes padded with zeros to a whole group together with the right length, again within the advertised maximum, text with illegal characters or an incomplete group is refused, and neither direction accesses memory outside its buffers.",
 [I],"all byte strings of all lengths with zero groups at any position; all corrupted texts",
 "examples/ascii85 encodes one random buffer of whole groups.",
 ["src/crypto/ascii85.c","include/bfdev/ascii85.h"],[("group encoding and zero short form","src/crypto/ascii85.c")])
prop("C32","Message digests equal the standard for every message and chunking",
 "The MD5, SHA-1, SHA-224 and SHA-256 digests of a message equal the published algorithms' result for messages of every length, and do not depend on how the message is split into update calls or on the alignment of the data. Independent contexts do not influence each other, and finishing writes exactly the digest's length.",
 [I,H],"all messages and lengths around block boundaries, all chunkings, alignments, interleavings of contexts",
 "examples/crypto hashes one fixed buffer in one call.",
 ["src/crypto/md5.c","src/crypto/sha1.c","src/crypto/sha2.c","include/bfdev/crypto/md5-base.h","include/bfdev/crypto/md5.h","include/bfdev/crypto/sha1-base.h","include/bfdev/crypto/sha1.h","include/bfdev/crypto/sha2-base.h","include/bfdev/crypto/sha2.h","include/bfdev/md5.h","include/bfdev/sha1.h","include/bfdev/sha2.h"],[("partial block buffering","include/bfdev/crypto/*-base.h"),("padding and length","include/bfdev/crypto/*-base.h")])
prop("C33","Checksums equal the polynomial definition and are incremental",
 "Each cyclic redundancy check of the library equals the bit-by-bit remainder of its polynomial for every message, length, alignment and initial value. Checksumming a concatenation equals continuing from the checksum of the first part.",
 [I],"all messages, lengths, alignments, initial values and split points, for all ten checks",
 "examples/crc prints one value per algorithm.",
 ["src/crypto/crc-ccitt.c","src/crypto/crc-itut.c","src/crypto/crc-rocksoft.c","src/crypto/crc-t10dif.c","src/crypto/crc16.c","src/crypto/crc32.c","src/crypto/crc4.c","src/crypto/crc64.c","src/crypto/crc7.c","src/crypto/crc8.c","include/bfdev/crypto/crc-ccitt-inline.h","include/bfdev/crypto/crc-inline.h","include/bfdev/crypto/crc-itut-inline.h","include/bfdev/crypto/crc-rocksoft-inline.h","include/bfdev/crypto/crc-t10dif-inline.h","include/bfdev/crypto/crc16-inline.h","include/bfdev/crypto/crc32-inline.h","include/bfdev/crypto/crc4-inline.h","include/bfdev/crypto/crc64-inline.h","include/bfdev/crypto/crc7-inline.h","include/bfdev/crypto/crc8-inline.h","scripts/gen-crc.c","scripts/gen-crc16.c","scripts/gen-crc16be.c","scripts/gen-crc32.c","scripts/gen-crc32be.c","scripts/gen-crc64.c","scripts/gen-crc64be.c","scripts/gen-crc8.c","include/bfdev/crc.h"],[("slicing-by-8 loop","include/bfdev/crypto/crc-inline.h"),("generated tables","scripts/gen-crc*.c")])
prop("C34","The stream cipher equals RC4 and streams continuously",
 "For every key of every length the cipher stream equals the published RC4 keystream, transforming data twice with equal state restores it, and splitting data into arbitrary pieces, empty ones included, or transforming in place gives the same bytes as one call.",
 [I,H],"all keys, key lengths, messages, chunkings, in-place and separate buffers",
 "examples/arc4 encrypts and decrypts one fixed buffer.",
 ["src/crypto/arc4.c","include/bfdev/arc4.h"],[("state carried between calls","src/crypto/arc4.c")])
prop("C35","Hash functions and the pseudo-random generator are deterministic references",
 "The general-purpose hash functions return, for every key, length, initial value and data alignment, the value their published algorithms define, and depend only on the key bytes. The pseudo-random generator yields, from the same seed, the same sequence its published recurrence defines, wider values consume the same stream, and separate states are independent.",
 [I,H],"all keys, lengths, alignments, seeds and draw sequences",
 "The suite prints some values without reference.",
 ["src/jhash.c","include/bfdev/jhash.h","src/stringhash.c","src/prandom.c","include/bfdev/prandom.h","include/bfdev/hash.h"],[("Jenkins mix","include/bfdev/jhash.h, src/jhash.c"),("Tausworthe steps","src/prandom.c")])
# ---------------------------------------------------------------- text
prop("C36","Text search finds exactly the occurrences of the pattern",
 "For every text and non-empty pattern over all byte values, each search algorithm (Knuth-Morris-Pratt, Boyer-Moore, Sunday) returns the position of the first occurrence, or none when there is none, and with the case-insensitive flag compares letters without regard to case. The answer does not depend on the algorithm, continuing a search reports the next occurrence behind the last one, the way the text is divided into blocks does not matter, and the search never reads outside the text.",
 [I,C],"all texts and patterns including repetitive ones, bytes above 127, patterns longer than the text, letter cases, algorithms",
 "examples/textsearch searches one fixed sentence with one pattern.",
 ["src/textsearch/textsearch.c","src/textsearch/kmp.c","src/textsearch/bm.c","src/textsearch/sunday.c","src/textsearch/linear.c","include/bfdev/textsearch.h"],[("failure function","src/textsearch/kmp.c"),("bad character and good suffix shifts","src/textsearch/bm.c"),("next character shift","src/textsearch/sunday.c")])
prop("C37","Edit distance is the true minimum cost",
 "The weighted edit distance of two strings equals the minimum total cost over sequences of insertions, deletions, substitutions and adjacent transpositions with the given costs, as defined by the restricted-transposition recurrence, for all strings, empty ones included. With unit costs it is zero exactly for equal strings, symmetric, and bounded by the longer length.",
 [I],"all string pairs and weights",
 "examples/levenshtein compares a fixed list of words.",
 ["src/levenshtein.c","include/bfdev/levenshtein.h"],[("three-row dynamic programme","src/levenshtein.c")])
prop("C38","Argument splitting yields exactly the words of the line",
 "Splitting a line into an argument vector returns exactly its maximal runs of non-blank characters, in order, with the right count and a terminating null entry, for every line including empty and blank ones. The input is not modified and the result is released completely.",
 [I],"all lines over blanks and other characters",
 "No test of the suite splits generated lines.",
 ["src/argv.c","include/bfdev/argv.h"],[("word scan","src/argv.c")])
prop("C39","Formatted printing is bounded, terminated and complete",
 "Bounded formatted printing never writes outside the given buffer, always terminates it when it has room, returns the number of characters actually stored, and stores exactly the prefix of the full text that fits. When the text cannot be formatted nothing is stored.",
 [I,F],"all buffer sizes including zero and one, all texts and argument values",
 "The suite only prints short texts into large buffers.",
 ["src/scnprintf.c","include/bfdev/scnprintf.h"],[("clamped return value","src/scnprintf.c"),("formatting failure","src/scnprintf.c")])
prop("C40","String duplication, comparison, character class and error-name helpers are exact",
 "Duplicating a string or a bounded part of it yields an independent terminated copy of exactly that text, and difference queries return the first position whose byte differs from the given one, or none. Character classification and case conversion agree with the ASCII definition for every ASCII character, for constant and run-time arguments alike, and every defined error number, positive or negative, has its own name and description while undefined numbers have none.",
 [I],"all strings, bounds and bytes, all error numbers",
 "No test of the suite covers these helpers.",
 ["src/libc/string.c","src/libc/strdup.c","src/libc/ctype.c","include/bfdev/ctype.h","include/bfdev/string.h","src/errname.c"],[("class table","src/libc/ctype.c"),("bounded copy","src/libc/strdup.c"),("sorted name table","src/errname.c")])
# ---------------------------------------------------------------- control
prop("C41","The state machine executes exactly the specified hierarchical semantics",
 "For every state graph and event sequence the state machine takes the first transition of the current state, then of its ancestors, whose event type and guard match, or else the one the state's exception handler supplies. It descends into entry states and runs the exit action of the state that holds the transition (not when pushing), the transition's action and the entry action of the destination (not when popping) in this order exactly once each, only the transition's action when the state returns to itself; a push remembers that state for a later pop, and a cross transition offers the same event to the new state at once. Unmatched events change nothing, a failing action ends the transition with the current state kept, a missing destination leads to the error state, and the reported result (changed, unchanged, self-loop, finished, error) and the current and previous state match.",
 [H,I],"all state graphs within a bound (nesting, entry states, guards, stack operations, cross events, failing actions) and event sequences",
 "examples/fsm runs one string recogniser.",
 ["src/fsm.c","include/bfdev/fsm.h"],[("transition lookup with parent fallback","src/fsm.c"),("state history and stack","src/fsm.c")])
prop("C42","Notifier chains call each eligible subscriber once in priority order",
 "Notifying a chain calls the registered subscribers in priority order, each at most once, never one that is unregistered, and respects the call limit, stopping when a subscriber asks to stop and unregistering it when it asks to be removed; the reported call count and result match. Registration and unregistration in any order keep the chain exact.",
 [H],"all register/unregister/notify histories, priorities, return values and call limits",
 "examples/notifier registers a few subscribers and notifies once.",
 ["src/notifier.c","include/bfdev/notifier.h"],[("priority-ordered list","src/notifier.c"),("return flags","include/bfdev/notifier.h")])
prop("C43","Reference counts and atomic operations are exact",
 "Every atomic read-modify-write operation returns the defined old or new value and leaves the defined result, a conditional exchange succeeds exactly when the expected value was present, and concurrent operations lose no update. A reference count reports its last release exactly once, taking a reference only-if-nonzero never revives a dead object and adds exactly the requested amount otherwise, and it reports whether the object was alive. The checking build reports every use of a dead or leaked count, every release of more than is held and every addition beyond the greatest count as such, and never a legitimate operation.",
 [I,H,S],"all operand values and operation histories; concurrent histories of several threads (sampled)",
 "No test checks values; single-thread misuse of compare-and-exchange is invisible to the existing examples.",
 ["include/bfdev/refcount.h","include/bfdev/atomic.h","include/bfdev/cmpxchg.h","include/bfdev/asm-generic/atomic.h","include/bfdev/asm-generic/cmpxchg.h"],[("compare-and-swap loops","include/bfdev/refcount.h, asm-generic/cmpxchg.h")])
prop("C44","Rate limiting admits at most the budget per interval",
 "A rate limiter admits exactly the first budgeted number of events of each interval and counts every refused one; a new interval begins only after the previous one has elapsed, also when the clock is set back. A token bucket never grants more tokens than its capacity plus what the elapsed time generated, grants whenever the stored tokens cover the request, and never loses or starves because of a long idle time.",
 [H,I],"all event-time sequences (the time is an input), budgets, intervals, capacities, rates, request sizes",
 "examples/ratelimit and tokenbucket depend on the wall clock and assert nothing about totals.",
 ["src/ratelimit.c","include/bfdev/ratelimit.h","src/tokenbucket.c","include/bfdev/tokenbucket.h"],[("window reset","src/ratelimit.c"),("token generation and cap","src/tokenbucket.c")])
prop("C45","Logging filters by level and never overruns its message",
 "A message is delivered exactly once when its level is within the record level and not at all otherwise, the level being taken from the message prefix or the logger's default; a source file that defines a prefix of its own gets it before the text of every level macro. The delivered text is the optional level tag and colour codes around the formatted text, truncated within the message buffer, terminated and with the right length, for every text length, and the call returns what the writer returned.",
 [I,C],"all levels, record levels, flags, message lengths",
 "examples/log prints one message per level to the console.",
 ["src/log/log.c","src/log/level.c","src/log/color.c","include/bfdev/log.h","include/bfdev/level.h"],[("prefix parsing","src/log/log.c bfdev_log_level"),("bounded assembly","src/log/log.c log_emit")])
prop("C46","Lock-free lists lose and duplicate nothing",
 "A lock-free singly linked list delivers on delete-all exactly the nodes added since the last one, newest first, and single deletion removes the newest node; adding reports whether the list was empty before. With several concurrent producers and a consumer every added node is delivered exactly once.",
 [H,S],"all sequential histories; concurrent schedules (sampled)",
 "No test of the suite uses the lock-free list from more than one thread or checks its content.",
 ["src/llist.c","include/bfdev/llist.h","include/bfdev/cmpxchg.h"],[("compare-and-swap on the list head","src/llist.c")])
prop("C47","Run-once, action and scope-guard helpers run exactly as often as promised",
 "A run-once site executes its body exactly once over the life of the program, at the first call whose condition holds, and reports the condition itself. A bound action calls its function with the bound data, also after it is re-bound, and reports absence after it is cleared; a scope guard runs its cleanup exactly once for the object it still owns and never for an object handed out.",
 [H],"all call histories and conditions",
 "examples/once, action and guards print a fixed run.",
 ["include/bfdev/once.h","include/bfdev/action.h","include/bfdev/guards.h"],[("static flag","include/bfdev/once.h"),("cleanup attribute","include/bfdev/guards.h")])
prop("C48","The allocator interface forwards every request exactly and uniformly",
 "Allocating, zero-allocating, resizing and freeing through an allocator calls exactly the matching operation of that allocator once, with the exact byte count or block and the allocator's private data, and returns its result; an absent allocator means the replaceable default one, an absent operation table the default table, and an absent operation the platform's. A request for no bytes yields no block, freeing no block does nothing, resizing no block allocates, resizing to nothing frees, and an array request whose byte count is not representable is refused leaving the block alone. Platform memory is zeroed when asked for and keeps its contents across a resize.",
 [I,H,C],"all sequences of requests, sizes, element counts, allocators with every subset of operations present, default allocators and tables replaced or not",
 "No test of the suite uses an allocator of its own or checks what reaches it; the fallback combinations and unrepresentable array sizes are never produced.",
 ["src/allocator.c","include/bfdev/allocator.h","include/bfdev/overflow.h"],[("default and fallback selection","src/allocator.c alloc_ops"),("array size check","include/bfdev/allocator.h bfdev_malloc_array")])
prop("C49","The elementary vocabulary means what its names say",
 "Times compare by their 64-bit signed value and add and subtract exactly. A condition maps to bigger or less, swapping exchanges two objects of any type, repeated bytes, halves of words, array sizes, argument counts and single-bit constants are exact for every value. A member at any place of any structure leads back to exactly its structure, evaluating its argument once, a constant one to a constant one and, in the safe form, none to none; a structure group overlays exactly its members. Limits equal the platform's, size constants the power of two they name, machine types the width and sign they name, control-character names their codes. Dummy callbacks do nothing and give 0 or 1; argument mapping applies its function to each argument in order. Once-accesses keep the value at every width. A warning reports exactly when its condition holds and yields it, a bug whose condition holds is reported and does not return.",
 [I,C],"all values, types and structure layouts (sampled), every constant",
 "No test of the suite mentions these names; they are used throughout with a few values each.",
 ["include/bfdev/time.h","include/bfdev/macro.h","include/bfdev/uplower.h","include/bfdev/container.h","include/bfdev/struct.h","include/bfdev/callback.h","src/callback.c","include/bfdev/limits.h","include/bfdev/size.h","include/bfdev/types.h","include/bfdev/const.h","include/bfdev/stringify.h","include/bfdev/mhelper.h","include/bfdev/typecheck.h","include/bfdev/ascii.h","include/bfdev/bug.h","include/bfdev/asm-generic/rwonce.h","include/bfdev/compiler.h"],[("time comparison","include/bfdev/time.h"),("container_of","include/bfdev/container.h"),("limits","include/bfdev/limits.h")])
prop("C50","Operations on distinct objects never disturb each other",
 "An operation on objects of its own observes exactly the same results whether it runs alone, is run again, has any other operations of the library run inside its callbacks (comparisons, hash and find functions, allocators, writers, subscribers) or between its steps, or runs while other threads work on their own objects; without data races. The library keeps no hidden state that one object's use could leave for another's.",
 [S,H],"all interleavings of programs on disjoint objects, nested in callbacks or concurrent (sampled)",
 "The suite runs one operation at a time, on one thread, and no callback of it uses the library.",
 ["src/sort.c","src/log/log.c","src/cache/cache.c","src/textsearch/textsearch.c","src/levenshtein.c","src/argv.c","src/scnprintf.c","src/skiplist.c","src/hashmap.c","src/notifier.c","src/fsm.c","src/crypto/md5.c","src/crypto/sha1.c","src/crypto/sha2.c","src/mpi.c","src/matrix.c","src/allocator.c"],[("no writable statics outside the registries","src"),("message buffer on the stack","src/log/log.c")])
prop("C51","Every way of setting an object up gives the same object",
 "An object set up by its type's static initialiser, initialiser expression, definition macro or setup function behaves identically from then on, whatever the memory held before; and a container whose contents were released behaves like one freshly set up. This holds for the allocation tables and pools, arrays, queues, lists, trees, heaps, maps, big numbers, matrices, state machines, limiters, loggers, notifiers, pools, generators and digest contexts alike.",
 [I,H],"all ways of setting up, contents of the memory before and histories afterwards (sampled)",
 "The examples and tests set each type up in one way, in fresh memory.",
 ["include/bfdev/array.h","include/bfdev/mpi.h","include/bfdev/matrix.h","include/bfdev/fsm.h","include/bfdev/hashmap.h","include/bfdev/fifo.h","include/bfdev/ringbuf.h","include/bfdev/log.h","include/bfdev/notifier.h","include/bfdev/respool.h","include/bfdev/btree.h","include/bfdev/radix.h","include/bfdev/prandom.h","include/bfdev/allocator.h","include/bfdev/allocpool.h","include/bfdev/ratelimit.h","include/bfdev/tokenbucket.h"],[("static initialisers and setup functions","include/bfdev"),("release","src/mpi.c, src/array.c, src/matrix.c, src/btree.c, src/radix.c, src/hashmap.c")])
prop("C52","The structure checks refuse and report misuse, and only misuse",
 "With its checks enabled (the default build) the library leaves every structure exactly as it was and delivers a message of error level or graver to the default log when asked to delete a list, bucket, resource, tree, interval or heap member already deleted (also if one deletion mark is left), to link a member where it already is (next to itself, in the slot that holds it), to insert between list members that are not neighbours or at a broken link, to change a priority list one of whose links no longer matches its neighbour, or to free or resize a free block. Adding a member to a priority list again changes nothing. Misuse of a reference count is reported by operation and kind. Correct use, also by the library's own structures, is never reported.",
 [H,I],"all histories of correct use with misuse of every watched kind at any point (sampled)",
 "No test misuses a structure or looks at what is reported; the suite would not notice a check that refuses nothing, refuses too much, or is never reached.",
 ["src/list-debug.c","src/slist-debug.c","src/hlist-debug.c","src/rbtree-debug.c","src/heap-debug.c","src/ilist.c","src/memalloc.c","src/refcount.c","include/bfdev/list.h","include/bfdev/slist.h","include/bfdev/hlist.h","include/bfdev/rbtree.h","include/bfdev/heap.h","include/bfdev/poison.h"],[("link checks","src/list-debug.c, src/slist-debug.c, src/hlist-debug.c, src/rbtree-debug.c, src/heap-debug.c"),("integrity check","src/ilist.c ilist_head_check"),("block check","src/memalloc.c memalloc_check")])
prop("C53","Work and memory stay in proportion to the content",
 "Whatever the order of the keys, finding, inserting or deleting one of n members asks the caller for O(log n) comparisons in a red-black tree, interval tree, heap and B+ tree, and for O(log n) on average over a sequence in a skip list of distinct keys with levels enough for n; binary search asks O(log n); sorting an array or list asks O(n log n); a hash map and a cache whose hashes are random, consecutive or evenly spaced ask O(1) per operation on average, rehashing included; a priority list asks one per distinct priority. Appending n elements to an array reallocates O(log n) times. Arrays, hash maps (after deletions too), B+ trees and skip lists hold O(n) memory for what they contain.",
 [H,I],"all orders of insertion, search and deletion of 1 to 40000 members (sampled)",
 "A degenerate structure still gives right answers; the tests hold too few members, in one order, to notice, and count nothing.",
 ["src/rbtree.c","include/bfdev/segtree.h","src/heap.c","src/btree.c","src/skiplist.c","src/hashmap.c","include/bfdev/hashtbl.h","include/bfdev/hash.h","src/ilist.c","src/sort.c","src/list-sort.c","include/bfdev/bsearch.h","src/array.c","src/cache/cache.c"],[("balance","src/rbtree.c bfdev_rb_fixup_augmented"),("level choice","src/skiplist.c random_level"),("growth","src/array.c array_reqsize; src/hashmap.c hashmap_extend, hashmap_shrink"),("bucket choice","include/bfdev/hashtbl.h bfdev_hashtbl_index")])
prop("C54","Looking changes nothing, and many may look at once",
 "An operation that only reports leaves every byte of the structure it reports on, and of the data it is given to read, as it was (it stores nothing there, not even the same value), requests and releases no memory of the structure, and answers the same when asked again or asked by several threads at once. This holds for lookups, peeks, iterations, comparisons and state tests of arrays, queues, lists, trees, heaps, B+ trees, skip lists, radix trees, hash maps, bloom filters, caches (find), resource pools and bitmaps; for calling a notifier chain none of whose members asks to leave; for using state tables, sorted arrays and prepared searches; and for the operands, texts, patterns and tables of integer, matrix, bitmap, coding, checksum, digest, cipher, splitting, distance, copying and formatting operations.",
 [H,I,S],"random structures and read-only inputs of 26 kinds, read in random order, from one thread or three (sampled)",
 "A lookup that reorders or caches, or an operation that rearranges its operand, still gives the right answer in a test; only a write-protected structure or a second reader shows it.",
 ["src/array.c","src/fifo.c","src/ringbuf.c","include/bfdev/list.h","include/bfdev/slist.h","include/bfdev/hlist.h","include/bfdev/ilist.h","include/bfdev/rbtree.h","include/bfdev/segtree.h","src/heap.c","src/btree.c","src/skiplist.c","src/radix.c","src/hashmap.c","src/bloom.c","src/cache/cache.c","src/respool.c","src/notifier.c","src/bitmap.c","src/bitwalk.c","src/mpi.c","src/matrix.c","src/crypto/arc4.c","src/crypto/ascii85.c","src/crypto/base32.c","src/crypto/base64.c","src/crypto/crc-ccitt.c","src/crypto/crc-itut.c","src/crypto/crc-rocksoft.c","src/crypto/crc-t10dif.c","src/crypto/crc16.c","src/crypto/crc32.c","src/crypto/crc4.c","src/crypto/crc64.c","src/crypto/crc7.c","src/crypto/crc8.c","src/crypto/md5.c","src/crypto/sha1.c","src/crypto/sha2.c","src/argv.c","src/levenshtein.c","src/textsearch/bm.c","src/textsearch/kmp.c","src/textsearch/linear.c","src/textsearch/sunday.c","src/textsearch/textsearch.c","src/fsm.c","src/bsearch.c","src/scnprintf.c"],[("const operands","src/mpi.c bfdev_mpi_add and following; src/matrix.c"),("lookups","src/hashmap.c bfdev_hashmap_find; src/respool.c bfdev_respool_find; src/cache/cache.c bfdev_cache_find; src/btree.c bfdev_btree_lookup"),("searches","src/textsearch/")])
prop("C55","No answer rests on undefined behaviour, compiler or optimisation",
 "Used as documented, no operation of the library, on any input or history, executes what C leaves undefined: no signed arithmetic overflows, no shift reaches the width of its word, no access is misaligned for its type or goes through a null pointer or past the bounds of an array, no division is by zero, and no decision or result depends on a value that was never stored (memory from the allocator counts as such). Compiled without optimisation or with the strongest, by either compiler, every operation gives the same answers and the same contents. (Calling a hook through a function type that differs only in pointed-to types, and adding zero to a null pointer, are not counted.)",
 [I,H,C],"the generated inputs and histories of all other properties, in each of the builds (sampled)",
 "The tests run in one build on one machine, where overflow wraps, misaligned loads work and stale memory is often zero; another compiler or machine may do otherwise.",
 ["include/bfdev/unaligned.h","include/bfdev/asm-generic/unaligned.h","include/bfdev/bits.h","include/bfdev/bitops.h","include/bfdev/bitmap-comp.h","include/bfdev/bitwalk-comp.h","src/bitmap.c","src/bitwalk.c","src/mpi.c","src/dword.c","src/errname.c","src/scnprintf.c","src/btree.c","src/hashmap.c","src/skiplist.c","src/radix.c","src/array.c","src/fifo.c","src/ringbuf.c","src/memalloc.c","src/cache/cache.c","src/levenshtein.c","include/bfdev/time.h","include/bfdev/overflow.h","src/stringhash.c","src/jhash.c"],[("unaligned access","include/bfdev/asm-generic/unaligned.h"),("word masks and shifts","include/bfdev/bits.h; include/bfdev/bitops.h"),("stores before use","src/btree.c, src/skiplist.c, src/radix.c, src/cache/cache.c (allocated nodes)")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
