prop('C01', 'Endian codecs round-trip and swaps are exact, for every value',
 '''Encoding a 16/32/64-bit integer to bytes in little or big endian order and decoding it again returns the same value, the bytes are
 in the stated order, exactly the integer's width is written/read, and byte swapping reverses the bytes of its argument.''',
 ['inputs'], 'every 16, 32 and 64-bit value, every codec of inc/fast/encdec.h and swab of inc/fast/swab.h',
 'Tests sample a few constants out of 2^64 values.',
 ['inc/fast/encdec.h', 'inc/fast/swab.h'], [('enc_*/dec_* codecs', 'inc/fast/encdec.h'), ('swab*', 'inc/fast/swab.h')],
 note='Complete for all values: loop-free code, every obligation discharged by SAT.')
prop('C02', 'SPSC queue: FIFO, no loss or duplication, full/empty exact',
 '''For one producer and one consumer running concurrently under the C11 memory model, every item accepted by the SPSC bounded queue is
 delivered exactly once, in order and unmodified; a slot is never written while it may still be read nor read before its item is published.
 Enqueue fails only when the queue was full, dequeue only when it was empty, and the size/full/empty predicates and initialisation are exact when no other thread is active.''',
 ['schedules', 'inputs', 'histories'], 'every queue size, every index state, every interleaving and every permitted stale read of the peer\'s index',
 'A stress test reaches a few interleavings on a strongly ordered machine; wrong memory orders and wrap-around states are invisible to it.',
 ['inc/fast/spsc_bounded_queue.h'], [('index publication with release/acquire', 'SPSCQ_ENQ, SPSCQ_DEQ'), ('one slot kept free', '__spscq_full_p')],
 note='Rely/guarantee contract per operation, all sizes up to 2^20 slots in the proof; C11 release/acquire is axiomatised by ghost ownership; exactly one producer and one consumer assumed.')
prop('C03', 'MPMC bounded queue: each item delivered once, in position order',
 '''For any number of producers and consumers, every item accepted by the MPMC queue is placed at one position and delivered from exactly that position to exactly one consumer,
 unmodified, for blocking and non-blocking operations, under the C11 memory model; slots are accessed only by the thread owning them.
 A non-blocking enqueue (dequeue) fails only when it observed the queue full (empty) and then has no effect; creation rounds the size up to a power of two, reset empties it, and size/full/empty/capacity are exact when no other thread is active.''',
 ['schedules', 'inputs', 'histories'], 'every power-of-two size up to 2^16, every counter value below 2^62, all interleavings and permitted stale reads',
 'Stress tests reach few interleavings; ABA over rounds, wrong turn arithmetic at wrap-around and missing release/acquire do not show on x86.',
 ['inc/fast/mpmc_bounded_queue.h'], [('per-slot turn counters', 'MPMC_QUEUE_ENQ/DEQ'), ('ticket counters', 'MPMC_QUEUE_ENQ_WAIT/DEQ_WAIT')],
 note='Rely/guarantee contract per operation with loop contracts on the retry and wait loops; creation is checked for sizes 1..9 only (bounded). C11 release/acquire axiomatised; progress is not claimed.')
prop('C04', 'RTE ring: ranges enqueued/dequeued exactly once, in order, never past capacity',
 '''Concurrent bulk and burst operations of the RTE ring (single/multi producer, single/multi consumer) deliver every item exactly once, in order and unmodified, never overwrite an item not yet dequeued nor read one not yet enqueued,
 under the C11 memory model. Bulk is all-or-nothing, burst moves as many as possible, failures leave ring and table unchanged.
 Creation rounds up to a power of two and reserves room for all slots; count/free/full/empty are exact when no other thread is active.''',
 ['schedules', 'inputs', 'histories'], 'every ring size up to 2^31, item counts up to 2^32-1, head/tail positions below 2^62, all interleavings and permitted stale reads',
 'Tests run a few sizes on x86, where missing release orders, stale-tail underflow and wrap-around of unrolled copies never show.',
 ['inc/fast/ringbuf.h'], [('head CAS / tail hand-over', '__rte_ring_mp_do_enqueue, __rte_ring_mc_do_dequeue'), ('unrolled copies', '__store_ring, __load_ring')],
 note='Rely/guarantee contracts with loop contracts; copies proved separately and used through their function contract. Flag dispatchers bounded (4 slots). Extraction: the inline slot array is a separate array in the verified copy.')
prop('C05', 'Linked lists: every operation preserves order, membership and links',
 '''For lists of any length, inserting at the head, tail, before or after a node, removing a node, popping an end and joining lists with the DL_, SL_ and llist macros
 change exactly the specified position: the remaining nodes keep their order, forward and backward links agree, head/tail pointers are exact, and
 no other node is modified. Traversals visit every node once in order, also when the visited node is removed.''',
 ['inputs', 'histories'], 'every list length and position (links of an arbitrary well-formed neighbourhood), every operation of list.h and llist.h',
 'Tests build a few short lists; the effect on an arbitrary neighbourhood and end cases of every macro is not sampled.',
 ['inc/fast/list.h', 'inc/fast/llist.h'], [('DL_*/SL_* macros', 'inc/fast/list.h'), ('circular list', 'inc/fast/llist.h')],
 note='Local (footprint) contracts over the neighbourhood of the touched node; by the frame rule they hold for any length.')
prop('C06', 'Typed vectors: element order, values and capacity survive every operation',
 '''For a vector of any length and capacity, push/pop at either end, reserve/ensure, append, copy, swap, init (also from another vector) and reset yield exactly the sequence of elements the operation describes,
 unchanged and in order, with size <= capacity <= allocated room. Reserving yields at least the requested capacity, also from an empty vector.
 Shuffle yields a permutation, sample yields k elements from distinct positions of the source (every outcome equally likely for a uniform source), random element an element of the vector.''',
 ['inputs', 'histories'], 'every size and capacity up to 2^36, every element position (arbitrary witness), every random sequence',
 'Tests use a few sizes; growth boundaries, moves of the array and positions at the ends of every operation are not sampled.',
 ['inc/fast/vect.h'], [('amortised growth', '__vect_RESERVE'), ('shifting loops', 'VECT_PUSH_FRONT, VECT_POP_FRONT'), ('Fisher-Yates / reservoir', 'VECT_SHUFFLE, VECT_SAMPLE')],
 note='Loop contracts with a witness element; realloc/memcpy/memset by contract. Equal likelihood is bounded (n <= 4); iteration and sort delegation bounded (5 elements).')
prop('C07', 'Bitsets: every operation is exact on every bit; power-of-two arithmetic',
 '''A new bitset of n bits has room for all of them and all are clear; set, clear and test act on exactly the named bit; or/and/xor/andnot/not compute the set operation on every bit
 of the left operand and leave the right one alone; copy and duplicate are exact and independent. Align up/down, is-aligned, is-power-of-two and round up to a power of two are exact.''',
 ['inputs'], 'every size up to 2^45 bits, every bit position, every content; every 64-bit value for the arithmetic',
 'Tests touch single small sets; word boundaries and the last word are where such code breaks.',
 ['inc/fast/bitset.h', 'inc/utils/typeutils.h'], [('word loops', 'bitset_or/and/xor/andnot/not'), ('size rounding', '_BITSIZE_W')],
 note='Loop contracts with a witness word; stack-allocated variants bounded (up to 130 bits). The verified copy of the operations keeps the words in a separate array.')
prop('C08', 'Pools and arenas: live blocks are disjoint, aligned, in their memory',
 '''A block handed out by a memory pool lies inside a chunk of that pool, is aligned, and is disjoint from every other block in use, which keeps its contents; a returned block is handed out again; a pool with a limit hands out exactly
 that many blocks, and one without fails only when the memory manager fails. A pool created inside caller-supplied memory never uses anything outside it. Finalising releases each chunk exactly once.
 Blocks of an arena are aligned, at least as large as asked, disjoint, and allocation fails only when the memory manager does or the size is not representable; deleting releases each chunk once.''',
 ['inputs', 'histories'], 'every pool state (chunk fill, free list), every block size up to 2^31, every limit, every arena request size; failing memory managers',
 'Tests allocate a few thousand equal blocks from one pool; odd sizes, exhausted limits, caller memory and size overflows are not sampled.',
 ['src/mempool.c', 'src/arena.c', 'inc/utils/mempool.h', 'inc/utils/arena.h'], [('free list, chunk carving', 'mempool_alloc, mempool_free'), ('chunk refill', 'arena_alloc')],
 note='One-operation contracts from arbitrary valid states; short operation histories and from-memory pools are bounded. The verified copy computes pointer alignment from the object offset (equality with the real macro asserted).')
prop('C09', 'Hex decoding is exact and bounded; hex dumps show every byte',
 '''Decoding a hex string (either case, odd lengths padded with a zero nibble) yields exactly its bytes, fails exactly when a character is not a hex digit or the output is too small,
 and never touches memory outside the output. A hex dump shows, line by line, the offset, every byte in hex and its printable form, without gaps or repetition, and passes on the first error of the writer; a failing stream is reported.''',
 ['inputs'], 'every string length and content, every output size; dumps of any content, any writer failure',
 'Tests decode and dump a few fixed strings and never a failing stream.',
 ['src/str2hex.c', 'src/hexdump.c'], [('nibble loop', 'str2hex'), ('line layout', 'hex_dump_write')],
 note='str2hex by loop contract for every length; dump lines bounded (0..18 bytes).')
prop('C10', 'Base64 is exact in both directions and stays inside its buffers',
 '''Encoding produces the RFC 4648 characters with a line break after each 72 and the right padding, decoding yields the encoded bytes and ignores characters outside the alphabet, for any split into blocks and from every coder state;
 so decoding inverts encoding. The whole-buffer functions fail when the buffer is too small for the result and never access memory outside buffers and tables.''',
 ['inputs', 'histories'], 'every character and byte from every coder state (one step); blocks of several bytes and buffer sizes in a bounded domain',
 'Tests round-trip one fixed byte sequence with ample buffers.',
 ['src/b64_encode.c', 'src/b64_decode.c'], [('coder state machines', 'base64_encode_block, base64_decode_block'), ('buffer checks', 'base64_encode_buf, base64_decode_buf')],
 note='One-step contracts of both state machines are complete over states and characters; longer blocks, splits and buffer sizes are bounded.')
prop('C11', 'String copying, trimming, unquoting, line reading: exact, never overflow',
 '''Copying with strcopy or strlcpy never writes outside the stated destination size, always terminates the destination when it has room for a NUL, copies the longest prefix that fits and reports truncation as documented.
 Trimming removes exactly the white space at both ends, in place. Unquoting removes exactly one matching pair of quotes around the string and rejects a string with no closing quote, changing nothing.
 Reading a line yields exactly the bytes up to the line break (LF, CR or CR LF, which is consumed), terminated, within the buffer; end of file, read errors and lines too long are told apart.''',
 ['inputs'], 'every string and destination size up to 2^40 bytes for copy and trim; every input up to the stated bounds for unquote and line reading',
 'Tests copy a few short strings; the truncation boundary, all-space strings and missing quotes are not sampled.',
 ['src/strcopy.c', 'src/strlcpy.c', 'src/strtrim.c', 'src/strunquote.c', 'src/freadline.c'], [('bounded copy', 'strcopy, strlcpy'), ('in-place shift', 'strtrim')],
 note='Copy and trim: loop contracts, any length. strunquote (strings up to 6) and freadline (inputs up to 6, buffers up to 5) are bounded checks. C locale.')
prop('C12', 'String splitting: the fields between delimiters, in order and in place',
 '''Splitting a string with strsplit or strsplit_quick yields, in order, exactly the pieces between delimiter characters, each terminated in place: without squeezing, every delimiter ends a field (empty ones included; nothing after a final delimiter makes no field);
 with squeezing, the string is trimmed and a run of delimiters counts as one. Any byte value can be a delimiter. Comma-separated splitting also honours both kinds of quotes and escaped quotes;
 argument splitting honours quoted words. A caller-supplied array is never overrun and the call fails exactly when the fields do not fit (or a closing quote is missing).''',
 ['inputs'], 'every string up to 2^30 characters, every delimiter set and array size for plain and squeezing splits; every string up to the stated bounds for quotes',
 'Tests split a dozen literal strings; full arrays, bytes above 0x7f, runs at the ends and growth of the result array are not sampled.',
 ['src/strsplit.c', 'src/strsplit_csv.c', 'src/splitargs.c', 'src/bits.h'], [('split loops', '__split, __split_sqz'), ('growable array', '_stra_resize_if')],
 note='__split and __split_sqz: loop contracts with an arbitrary field and two arbitrary positions; CSV and argument splitting are bounded (4 characters). Argument splitting is specified for quotes at word boundaries only.')
prop('C13', 'Numbers and sizes in text are converted exactly; overflow is detected',
 '''strtou64 accepts any base from 2 to 36 (0 detects octal and hexadecimal), an optional sign and prefix, and either yields exactly the value of the digits, with the end pointer at the first character that is no digit of the base,
 or reports -ERANGE exactly when the value does not fit 64 bits; bad bases and foreign characters are -EINVAL. strtosize multiplies by the suffix's power of 1024 and reports -ERANGE exactly when the product does not fit.
 humanize_size prints the whole part and two truncated decimals in the largest unit not above the value.''',
 ['inputs'], 'every string up to 2^40 characters, every base, every 64-bit value and suffix',
 'Tests convert a dozen constants; overflow boundaries of bases other than 10 and of the multiplied sizes are not sampled.',
 ['src/strtosize.c', 'src/humanize.c'], [('cutoff test', 'strtou64'), ('suffix multiplier', 'strtosize')],
 note='strtou64 by loop contract against a 128-bit mathematical value; sign and prefix handling, and the composition with suffixes, also on bounded strings.')
prop('C14', 'IPv4 parsing accepts exactly dotted quads and masks, with the exact value',
 '''parse_ipv4 accepts exactly four decimal numbers 0..255 joined by dots and yields their value; parse_ipv4_and_mask also takes a prefix length 0..32 or a dotted mask, yields exactly that mask (32 if there is none) and rejects everything else;
 converting a mask to a prefix length accepts exactly contiguous masks; formatting prints the four octets. No string, however long, makes them read or write outside their buffers.''',
 ['inputs'], 'every string for parse_ipv4, every 32-bit address and mask; prefix texts up to the stated bound',
 'Tests parse a dozen literals; empty octets, /0, huge and overlong numbers are not sampled.',
 ['src/parse-ip.c'], [('octet scan', 'parse_ipv4'), ('mask shift', 'parse_ipv4_and_mask')],
 note='parse_ipv4 decides within 18 characters (checked), so the result holds for every string; parse_ipv4_and_mask is proved over the contracts of parse_ipv4 and dtoi for texts of any length.')
prop('C15', 'The fast hash table is a map from 64-bit keys to values',
 '''After any history of ht_probe, ht_replace, ht_remove and table splits, ht_find of any key (0 included) reports exactly the value the history assigns to it: probe inserts only when the key is absent and otherwise returns the value present,
 replace and remove affect only their key and report whether it was there, the node count is exact, splitting keeps every entry, and an operation never changes another key's value. Slots are reused before bags are added; deleting the table releases every bag.''',
 ['inputs', 'histories'], 'every state of a bag (fingerprints, keys, control bits), every key and bucket assignment; buckets of up to two bags',
 'Tests insert a word list and look it up; key 0, equal fingerprints, freed slots and full bags are not sampled systematically.',
 ['src/hashtable/fast-ht.c', 'inc/utils/fast-ht.h'], [('fingerprint and control word', '__update_fp, __clear_fp'), ('split', 'resize')],
 note='Bag-level functions are proved for every bag; table-level operations use their contracts and are bounded (2 buckets, up to 2 bags per bucket). Values are non-null. The bucket function is an uninterpreted function; SIMD by documented meaning.')
prop('C16', 'The chained hash table is a map; its iterators visit every item once',
 '''After any history of insert, replace, probe, remove and remove_if, looking a key up yields exactly the datum the history assigns to it; each operation reports exactly whether the key was there, destroys and frees exactly what it removes or replaces, and keeps the node, bucket and chain counts exact;
 growing the table keeps every item and its failure is harmless. Walking the table (callbacks, plain, sorted and per-key iterators) presents every item exactly once, sorted ones in order. Whatever the outcome, out of memory included, every lock taken is released.''',
 ['inputs', 'histories', 'faults'], 'every hash function, key and allocation failure on tables of one bucket with up to 3 nodes and of two buckets with up to 2 and 1 nodes',
 'The test inserts a word list and looks it up with locking off; failed allocations, held locks, sorted and per-key iterators are not sampled.',
 ['src/hashtable/hashtab.c', 'src/hashtable/hashtab_iter.c', 'src/hashtable/hashtab_imp.h'], [('insert, replace and probe', 'insert_internal'), ('split', 'resize'), ('iterators', '_mk_iter')],
 note='Bounded (table shapes above), the comparator proved. hash and cmp callbacks are functions of the key. One thread at a time: lock callbacks are checked for balance and against taking a held lock, races are not examined.')
prop('C17', 'ULIDs and UUIDs: exact layout, sortable, text round-trips, strict parsing',
 '''A generated ULID is the current time in milliseconds as 48 big-endian bits followed by 80 bits of system entropy; its text is exactly the base32 digits of the value, so texts sort as the values and times do. A generated UUID carries the version 4 and variant bits and 122 bits of entropy.
 Formatting then parsing gives the same 16 bytes; parsing accepts exactly texts of the right length with valid digits (32 digits and 4 dashes for a UUID; a value below 2^128 for a ULID). No call writes past the 16 bytes or the stated text size, and each reports a buffer that is too small.''',
 ['inputs'], 'every identifier, time, entropy and failure of its source, every buffer size, every text',
 'The tests generate and format a few identifiers without looking at the result and parse none.',
 ['src/ulid.c', 'src/uuid.c', 'src/uuid2str.c'], [('text codec', 'ulid_tostring, ulid_fromstring'), ('parser', 'uuid_fromstring')],
 note='All functions proved over their whole input domain (fixed sizes; texts longer than the accepted length are decided by strlen, shown up to 28/38 characters).')
prop('C18', 'Bloom and xor filters never deny an element that was put in',
 '''An element added to a standard, counting or scalable Bloom filter is found by every later lookup, whatever else was added and, for the counting filter, whatever was removed (removing succeeds exactly for elements that test present, and never costs another element its membership; full counters stay full).
 Probing reports whether the element tested present before, the element count is exact, growing a scalable filter keeps all earlier elements, and two filters compare equal exactly when parameters and bits agree.
 A xor filter that was built contains every key it was built from. No operation accesses memory outside the filter.''',
 ['inputs', 'histories'], 'every content of the bitmaps and counters, every element and hash, on small filters; xor filters of any size',
 'Tests insert a word list; full counters, removal of absent elements and the order in which a xor filter is filled are not sampled.',
 ['src/hashtable/bloom.c', 'src/hashtable/xorfilter.c'], [('probe and find', 'counting_bloom_probe, standard_bloom_probe'), ('assignment in peel order', 'Xorfilter_new8, Xorfilter_new16')],
 note='Bloom filters bounded (small m and k, one operation from any state); filling a xor filter is proved for any size against the peeling contract, peeling itself bounded (2 keys). Hashes are arbitrary functions. Marshalling is not covered.')
prop('C19', 'Growable strings: exact text, length and terminator; escapes invert',
 '''After any history of init, dup, append (text, character or another string), copy, truncate, chop, trim, unquote, reset and line reading, a growable string holds exactly the characters the operations describe, its length is exact,
 it is NUL terminated inside its capacity, and the other operand is unchanged; unquoting removes exactly one matching pair of quotes and refuses an unclosed one, changing nothing.
 Escaping replaces exactly the characters of the set (and the escape character itself), every byte value included; unescaping yields the bytes the escapes denote (letters, octal, decimal, hexadecimal), so it inverts escaping.
 Variable expansion replaces exactly each $name and ${name} by its value, leaves escaped dollars alone, and reports malformed and unknown names, emptying the string.''',
 ['inputs', 'histories'], 'every content, length and capacity up to 2^40 for the string operations; escapes, expansion and line reading on every string up to the stated bounds',
 'Tests escape and expand a dozen literals; copies, unquoting, bytes above 0x7f, hex escapes and capacity boundaries are not sampled.',
 ['src/gstring.c', 'src/escape.c', 'src/unescape.c', 'src/gstring_var.c', 'inc/utils/gstring.h'], [('growth', 'grow_if'), ('escape automaton', 'gstr_escape, parse_esc'), ('variable scan', 'getvar')],
 note='String operations proved for any size (gstr_trim by loop contracts); gstr_eq, gstr_readline, escape, unescape and variable expansion are bounded (2 to 5 characters). Operands are distinct objects; C locale; names in expansion are alphanumeric or one of $#@?*!<>%^&-_|:.')
prop('C20', 'Circular and blocking queues: FIFO, nothing lost or overwritten',
 '''The circular queue of queue.h delivers its elements in the order they were put in, unmodified; enqueue fails exactly when all slots but one are in use and dequeue exactly when it is empty, both without effect; size, full and empty are exact, and initialising (also with allocated slots) or resetting makes it empty.
 The blocking queue of syncq.h delivers, for any number of producers and consumers, every element exactly once and in the order of the critical sections: a slot is written only while free and read only while filled, under the lock, each operation waits for and announces exactly one slot or item, never waits while holding the lock, and always releases it.
 Its initialisation reports the error of a failing primitive.''',
 ['schedules', 'inputs', 'histories'], 'every queue size up to 2^32-1 (2^31-1 for the blocking queue), every index state, every interleaving of the critical sections',
 'The stress test runs one size on one machine; wrap-around states, credit accounting and failing primitives are not sampled. queue.h has no test.',
 ['inc/fast/queue.h', 'inc/fast/syncq.h'], [('index advance', '__next_wr, __next_rd'), ('semaphore credits and lock', 'SYNCQ_ENQ, SYNCQ_DEQ')],
 note='All proved. Monitor-style rely/guarantee for syncq.h: mutex and semaphores by their specification; fairness and progress are not claimed. A one-slot queue.h queue is excluded (it can hold nothing).')
