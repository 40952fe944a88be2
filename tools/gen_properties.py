#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the property texts live here, one call per property).
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
rows = []
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    rows.append({"id": id, "title": title, "statement": statement,
                 "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I, H, F, C = "inputs", "histories", "fault_sequences", "configurations"
B64 = ["encode/base64.c", "encode/base64.h"]
P("C01", "Base64 encoding produces exactly the RFC 4648 text in every dialect",
  "For every byte string and every dialect (two extra alphabet characters and an optional padding character, the standard ones when no options are given), encoding into a large enough buffer produces exactly the RFC 4648 text of those bytes in that dialect and returns its length. A zero terminator follows the text exactly when the buffer has room for it, and nothing else in the output buffer is touched.",
  [I, C], "every byte string (all contents, all lengths), every choice of the three dialect characters, every sufficient output size",
  "Tests encode the RFC's seven 'foobar' vectors and a few fixed strings with two dialects; no test varies all bytes, the tails and the dialect together.",
  B64, [("triples loop and one/two byte tails", "base64_encode"), ("alphabet table built from options", "base64_encode")], observe=["return value", "output buffer"])
P("C02", "Base64 encoder reports exact sizes and never writes past its buffer",
  "For every input size, dialect and output buffer size, the encoder asked without a buffer returns the exact text length plus one, and given a buffer smaller than the text it returns a negative error without writing anything. A buffer of exactly the text length succeeds, unterminated. When the text length cannot be represented in the return type the encoder fails with a negative value instead of returning a wrong size or writing out of bounds.",
  [I], "all 2^32 input sizes x all 2^32 output sizes, padded and unpadded",
  "Size arithmetic is only exercised for inputs of a few bytes; wrap-around needs inputs above 1.6 GB.",
  B64, [("needed size computation and check", "base64_encode")], observe=["return value", "bytes around the output buffer"])
P("C03", "Base64 decoding inverts encoding for every byte string and dialect",
  "Decoding the text that the encoder produced, with the same dialect, returns exactly the original bytes and their count, whether the padding is present, was disabled, or has been stripped from the text. Asked without a buffer the decoder returns exactly that count, and it succeeds with an output buffer of exactly that size, writing nothing beyond it.",
  [I, C], "every byte string and every dialect whose characters are distinct",
  "Round trips are tested for a handful of ASCII strings only.",
  B64, [("reverse table", "base64_decode"), ("tail handling", "base64_decode")], observe=["return value", "output buffer"])
P("C04", "Base64 decoder accepts exactly canonical text and is safe on any input",
  "For every sequence of input bytes (including bytes above 127) and every dialect, the decoder succeeds exactly when the input is the canonical text of some byte string, with or without its padding, and otherwise returns a negative error. It reads only the given input, writes at most the decoded length and never more than the output buffer size, and a too small output buffer is an error with nothing written.",
  [I, C], "arbitrary bytes of any length as input, any option characters, any output size",
  "Tests try a few malformed strings; 256 byte values per position and non-canonical tail bits are never covered, nor bytes >= 0x80.",
  B64, [("validation loop and tail-bit masks", "base64_decode"), ("padding removal", "base64_decode")], observe=["return value", "memory accesses"])
HEX = ["encode/hex.c", "encode/hex.h"]
P("C05", "Hex encoding is exact, bounded and correctly sized for every input",
  "For every byte string and either letter case, encoding yields two hexadecimal digits per byte, high digit first, returns the number of digits and terminates the text exactly when there is room for one more byte. A buffer smaller than two digits per byte gives -1 with nothing written, a missing buffer gives twice the size plus one, and sizes whose text length cannot be represented give a negative error.",
  [I], "all byte strings, both cases, all 2^32 input and output sizes",
  "Two fixed strings are tested; buffer limits and size wrap-around are not.",
  HEX, [("nibble loop", "hex_encode"), ("size checks", "hex_encode")], observe=["return value", "output buffer"])
P("C06", "Hex decoding accepts exactly even-length hex text and inverts encoding",
  "The decoder returns the number of decoded bytes and the bytes themselves exactly when the input has even length and consists only of the digits 0-9, a-f and A-F in any mix of case; every other input gives -1. It writes at most half the input size and never past the output buffer, a buffer smaller than that gives -1, and without a buffer it returns half the input size.",
  [I], "arbitrary input bytes of any length and any output size",
  "Tests decode one string in each case and one obviously bad digit; letters beyond f, mixed case and limits are not covered.",
  HEX, [("digit classification", "hex_decode")], observe=["return value", "output buffer"])
P("C07", "crc32 equals the reflected CRC-32 of the data for every input and length",
  "For every byte sequence of every length the result equals the standard CRC-32 (polynomial 0x04C11DB7 reflected, initial and final XOR of all ones), including lengths above what a signed 32-bit counter can hold. Exactly the given bytes are read.",
  [I], "all contents and all lengths of type size_t",
  "A dozen fixed vectors are tested; most of the 256 table entries combined with register states and all large lengths are not.",
  ["hash/crc32.c", "hash/crc32.h"], [("table driven loop", "crc32"), ("256 entry table", "crc32_table")], observe=["return value"])
P("C08", "FNV-1a 32/64 match the definition and can be computed incrementally",
  "For every starting value and every byte sequence the 32- and 64-bit functions return the FNV-1a hash defined by xor-then-multiply over the bytes in order. Hashing a sequence in any two consecutive pieces, feeding the first result into the second call, gives the same value as hashing it at once.",
  [I], "all starting values, contents, lengths and split points",
  "The published vectors are tested from the standard base only and never in pieces.",
  ["hash/fnv1a.c", "hash/fnv1a.h"], [("xor/multiply loop", "fnv1a_32, fnv1a_64")], observe=["return value"])
BUF = ["data/buffer.c", "data/buffer.h"]
BST = [("BUFFER.size/alloc/data", "byte count, capacity, heap block", "data/buffer.h BUFFER")]
P("C09", "BUFFER behaves as a byte sequence under any mix of operations",
  "After every sequence of insertions (raw or copying, at any offset up to the size), appends, removals (a range reaching past the end removes up to the end), reservations and shrinks, the buffer holds exactly the bytes an ideal sequence would, and reports that size and emptiness. Raw insertion returns the address where the inserted bytes live, inserting zero bytes is a successful no-op, and no access leaves the allocated block.",
  [I, H], "all operation sequences, offsets, lengths (including the largest size_t values for removals) and contents",
  "Tests run a few fixed scripts with small strings; offset/length interplay with capacity and shrinking thresholds is not explored.",
  BUF, [("memmove based gap opening/closing", "buffer_insert_raw, buffer_remove"), ("capacity rounding", "buffer_good_alloc_size")], BST, ["buffer contents", "buffer_size", "memory accesses"])
P("C10", "BUFFER capacity promises hold and failed growth changes nothing",
  "After a successful reservation of n bytes, n bytes can be appended without any further allocation. Whenever an allocation fails, or the requested total cannot be represented in size_t, the operation reports failure and the buffer keeps its contents, size and usability. This holds for every element count, including huge ones, for the buffer, stack and typed array front ends.",
  [I, H, F], "all sizes of type size_t, every allocation-failure pattern",
  "No test injects allocation failure or uses sizes near SIZE_MAX.",
  BUF, [("reserve/realloc arithmetic", "buffer_reserve, buffer_realloc, buffer_insert_raw")], BST, ["return value", "allocator calls"])
P("C11", "BUFFER resize, shrink, acquire, swap and clear preserve contents, no leaks",
  "Explicitly changing capacity keeps the contents (truncated only when the new capacity is smaller), shrinking never changes the contents and leaves at most a negligible part of the block unused, swapping exchanges two buffers completely, acquiring hands over exactly the current block and leaves an empty reusable buffer, and clearing leaves an empty reusable buffer. Over any such history every heap block is released exactly once by the end and never used after release.",
  [I, H, F], "all operation sequences, sizes and allocation outcomes",
  "Tests do not combine these operations nor check release of every block.",
  BUF, [("buffer_realloc/shrink/acquire/swap/fini", "data/buffer.c, data/buffer.h")], BST, ["buffer contents", "allocator calls"])
P("C12", "STACK is last-in first-out for every element type and value",
  "Values pushed with any of the typed or raw push functions are returned by the matching peek and pop functions in reverse order, bit for bit, for every value of every type and any interleaving of pushes and pops. Peeking never changes the stack, and the reported size is the number of bytes pushed and not yet popped.",
  [I, H], "all values of all nine element types plus raw blocks, all interleavings",
  "One test pushes a few fixed values of some types.",
  ["data/buffer.h", "data/buffer.c"], [("stack_push_*/peek_*/pop_*", "data/buffer.h")], observe=["returned values", "stack_size"])
P("C13", "Typed arrays behave as sequences of their element type",
  "For each of the nine element types, insert, append, set, get, remove and range remove/insert act on an array exactly as on an ideal sequence of that type: every other element keeps its value and order and the size counts elements. Acquired blocks hold the elements and their count, and element counts whose byte size overflows are refused.",
  [I, H], "all element types, indexes, element values and operation sequences",
  "Tests cover one or two element types with fixed values.",
  ["data/buffer.h", "data/buffer.c"], [("array_<type>_* wrappers", "data/buffer.h")], observe=["returned values", "array sizes"])
P("C14", "LIST keeps an exact doubly linked sequence under any operations",
  "After any sequence of append, prepend, insert before/after any member and remove of any member, head or tail, walking forward yields exactly the nodes an ideal sequence would hold, in order, ending at the end marker, and walking backward yields the reverse. Emptiness, head and tail agree with that sequence, removed nodes can be inserted again, and a node's payload is recovered from the node.",
  [H], "all operation sequences and positions",
  "Tests use a few fixed scripts.",
  ["data/list.h"], [("link updates", "list_insert_after/before, list_remove")], [("LIST.main", "sentinel", "data/list.h")], ["list_next/list_prev walk"])
P("C15", "SLIST keeps an exact singly linked sequence under any operations",
  "After any sequence of prepend, insert after any member (or at the front), and removal of the head or of any member given its predecessor, walking yields exactly the nodes an ideal sequence would hold, in order, and ends at the end marker. Emptiness and head agree with it.",
  [H], "all operation sequences and positions", "Tests use a few fixed scripts.",
  ["data/list.h"], [("link updates", "slist_insert_after, slist_remove")], observe=["slist_next walk"])
P("C16", "QLIST keeps an exact queue sequence and its tail under any operations",
  "After any sequence of append, prepend, insert after a member and removal of the head or of any member given its predecessor, walking yields exactly the nodes an ideal queue would hold, in order, and the tail is its last node (appending after any history extends the walk at the end). Emptiness and head agree with it.",
  [H], "all operation sequences and positions", "Tests use a few fixed scripts; tail maintenance after mixed removals is barely touched.",
  ["data/list.h"], [("tail updates", "qlist_insert_after, qlist_append, qlist_remove")], [("QLIST.tail", "last node or sentinel", "data/list.h")], ["qlist_next walk", "qlist_tail"])
HT = ["data/htable.c", "data/htable.h"]
HST = [("HTABLE.planes/n_planes/n", "bucket planes, their count, node count", "data/htable.h")]
P("C17", "Hash table is an exact set of nodes for any hash values and history",
  "For every history of inserts, removes and lookups with any hash function (including colliding ones), a lookup finds exactly the node inserted under an equal key and not yet removed, or nothing. Inserting an equal key fails and changes nothing, removal returns exactly the stored node, removing an absent key returns nothing, and the emptiness report is right.",
  [I, H], "all keys, all 32-bit hash values, all operation sequences",
  "Tests insert sequential integers with one hash; chosen collision patterns are not explored.",
  HT, [("plane-wise bucket chains", "htable_lookup_internal, htable_insert_internal, htable_remove")], HST, ["returned nodes"])
P("C18", "Hash table keeps every node findable across growth and shrinking",
  "When the table grows by a bucket plane or shrinks by merging planes, at any population and for any placement of nodes by their hash values, every stored node remains findable and removable exactly once and no removed node reappears. Growing and shrinking back repeatedly, down to an empty table and up again, preserves this.",
  [I, H], "all hash values relative to every plane size, populations crossing each growth and shrink threshold",
  "Tests cross thresholds only with one regular hash pattern, so chain merging during shrink is rarely exercised.",
  HT, [("plane append", "htable_grow"), ("plane merge", "htable_shrink")], HST, ["returned nodes"])
P("C19", "Hash table teardown visits each node once; allocation failure is clean",
  "Finishing a table calls the destructor exactly once for each node still stored and for no other, releases all internal memory and leaves an empty table that can be used again. When any allocation fails, an insertion either succeeds normally or returns failure with the table unchanged and fully usable, with no leak.",
  [H, F], "all populations, placements and allocation-failure patterns",
  "No test injects failures or counts destructor calls per node.",
  HT, [("htable_fini and plane release", "htable_fini, htable_free_all_planes")], HST, ["destructor calls", "allocator calls"])
RB = ["data/rbtree.c", "data/rbtree.h"]
RST = [("RBTREE_NODE.lc/r", "left link with color bit, right link", "data/rbtree.h")]
P("C20", "RB-tree insertion adds exactly one key and keeps a valid red-black tree",
  "Inserting a node into any valid tree fails (-1, tree unchanged) exactly when an equal node is present, and otherwise adds exactly that node so that the tree holds the old nodes plus the new one in comparator order. The result is again a valid red-black tree (black root, no red node with a red child, equal black heights), so depth stays at most twice log2(n+1).",
  [I, H], "every valid red-black tree and every inserted key",
  "Tests insert a few fixed permutations; rebalancing cases depend on shape and colors that fixed orders do not reach.",
  RB, [("lookup path + fixup", "rbtree_insert, rbtree_insert_fixup"), ("rotations", "rbtree_rotate_left/right")], RST, ["ordered walk", "comparator calls"])
P("C21", "RB-tree removal deletes exactly one key and keeps a valid red-black tree",
  "Removing by key from any valid tree returns exactly the stored equal node and leaves all other nodes in order, or returns nothing and changes nothing when no node is equal. The result is again a valid red-black tree (black root, no red node with a red child, equal black heights), and the removed node can be inserted again.",
  [I, H], "every valid red-black tree and every key",
  "Deletion has many shape/color cases (successor swap, red sibling, nephew rotations, propagation to the root) that the fixed tests do not all reach.",
  RB, [("successor swap", "rbtree_remove"), ("deficit fixup", "rbtree_remove_fixup")], RST, ["returned node", "ordered walk"])
P("C22", "RB-tree lookups and cursors agree with the stored order",
  "In every valid tree a lookup finds exactly the node equal to the key or nothing, walking from head by next visits all nodes in increasing order and from tail by prev in decreasing order. A cursor positioned by lookup moves to the true successor and predecessor, the current-node query agrees, and stepping past either end returns nothing and leaves the cursor on the last or first node.",
  [I], "every valid red-black tree, every key and every cursor position",
  "Tests walk a few trees end to end; direction changes and ends from every position are not covered.",
  RB, [("path stack navigation", "rbtree_next, rbtree_prev, rbtree_lookup_ex")], [("RBTREE_CURSOR.stack/n", "path from root to the current node", "data/rbtree.h")], ["returned nodes"])
P("C23", "RB-tree teardown yields every node exactly once and ends empty",
  "Repeatedly taking nodes from any valid tree with the cleaning step returns every node exactly once and then nothing, even when each returned node is freed immediately. Afterwards the tree is empty and usable.",
  [I], "every valid red-black tree shape and coloring",
  "Tests clean a few trees without checking that freed nodes are never touched.",
  RB, [("leftmost unlinking", "rbtree_fini_step")], RST, ["returned nodes", "memory accesses"])
VAL = ["data/value.c", "data/value.h"]
P("C24", "Scalar values are stored and read back exactly, with the right type",
  "For every boolean, integer, float (including NaN, infinities and signed zero) and double, initializing a value and reading it with the getter of its own type returns the identical bits, and the type query returns that type. Getters applied to a value of an unrelated type return their fixed failure value (minus one, all ones, or a null pointer), and finishing any scalar leaves a null value.",
  [I], "all values of every scalar type and every getter",
  "Tests read back a few constants.",
  VAL, [("tagged 16 byte storage", "value_init_simple, value_payload")], observe=["getter results"])
P("C25", "Numeric getters convert between types exactly as C rounding conversion",
  "For every stored number and every numeric getter, an integer result equals the stored value converted with C integer conversion, or, for a stored float or double whose rounded value fits the target, rounded to nearest with halves away from zero. Float and double results equal the correctly rounded value of the stored number.",
  [I], "all 2^32/2^64 stored values of each type and each getter whose result is representable",
  "Rounding is tested on small constants; values around 2^23, 2^52 and just below one half are not.",
  VAL, [("ROUNDF/ROUNDD and casts", "value_int32, value_uint32, value_int64, value_uint64, value_float, value_double")], observe=["getter results"])
P("C26", "value_is_compatible tells the truth about lossless integer conversion",
  "For every stored number and every integer target type, the compatibility query says yes exactly when the stored number is mathematically an integer within the range of the target type, in which case the getter of that type returns exactly that number. Every value is compatible with its own type, every number with float and double, and non-numeric values only with their own type.",
  [I], "all stored values of every type x all target types",
  "Tests use a few constants per type pair; boundaries of the ranges for floats and doubles are not covered.",
  VAL, [("value_is_compatible", "data/value.c")], observe=["return value"])
P("C27", "String values hold any bytes of any length, zero-terminated",
  "A string value initialized from any bytes of any length (embedded zero bytes and lengths that cross every storage and length-encoding boundary included) reports exactly that length and returns exactly those bytes followed by a zero byte. The source is not modified, a missing source means the empty string, allocation failure is reported and leaves a harmless null value, and finishing releases all memory.",
  [I, F], "all contents and all lengths of type size_t (0 to the largest allocatable), allocation failure",
  "Tests store a few short literals; lengths 13, 14, 127, 128, 16383, 16384, 2^28, 2^31 are boundaries of the format.",
  VAL, [("variable-length length prefix", "value_init_string_, value_string, value_string_length"), ("inline vs malloc storage", "value_init_ex")], observe=["value_string", "value_string_length"])
P("C28", "Array values behave as sequences under any inserts and removals",
  "After any sequence of append, insert at any index, remove and range remove with any index and count, an array value holds exactly the members an ideal sequence would, in order, each keeping its content, and reports that size. New members are null and marked new, out-of-range requests (including index plus count exceeding the largest size_t) fail and change nothing, and access by index or through the whole-array pointer agrees.",
  [I, H], "all operation sequences, all size_t indexes and counts",
  "Tests use small fixed scripts and never extreme counts.",
  VAL, [("growth, memmove, shrink", "value_array_insert, value_array_remove_range")], [("ARRAY size/alloc/value_buf", "member count, capacity, storage", "data/value.c")], ["value_array_get", "value_array_size"])
P("C29", "Array values release everything exactly once, also under failures",
  "Over any history of array operations on members that own memory (strings, nested arrays and dictionaries), every block is released exactly once by the time the array is cleaned or finished and none is used after release. When an allocation fails, the operation reports it, or silently keeps extra capacity, and the array contents are unchanged.",
  [H, F], "all operation sequences, nesting and allocation-failure patterns",
  "No test injects failures; leak detection is not part of the test run.",
  VAL, [("recursive release", "value_fini, value_array_clean, value_array_remove_range")], observe=["allocator calls"])
P("C30", "Dictionary values behave as an exact map from byte-string keys",
  "After any sequence of add, get-or-add and remove with any byte-string keys (embedded zeros, empty, long, prefixes of one another) a dictionary maps exactly the keys present to their values; get of an absent key gives nothing. Add fails for a present key whatever its value, get-or-add returns the existing value or a new one marked new, removing an absent key fails, other entries never change, and the size is exact.",
  [I, H], "every valid tree state, all keys and values, default and custom comparison functions",
  "Tests use a few ASCII keys and fixed orders.",
  VAL, [("red-black tree of nodes", "value_dict_get_, value_dict_get_or_add_, value_dict_remove_")], [("DICT root/size", "tree and entry count", "data/value.c")], ["value_dict_get", "value_dict_size"])
P("C31", "Dictionary enumeration is complete and correctly ordered",
  "Sorted enumeration (by walking or by fetching keys) yields every entry exactly once in comparator order (by default byte-wise with shorter prefixes first), and, when order is maintained, ordered enumeration yields every entry exactly once in insertion order, whatever removals happened between. A non-zero visitor result stops the walk immediately and is returned, and a key buffer of any size receives exactly the leading part that fits.",
  [I, H], "every tree state and insertion/removal history, all visitor results and buffer sizes",
  "Tests enumerate a couple of small dictionaries.",
  VAL, [("in-order stack walk", "value_dict_walk_sorted, value_dict_keys_sorted"), ("order list", "value_dict_walk_ordered, value_dict_keys_ordered")], [("order_head/tail/prev/next", "insertion-order list", "data/value.c")], ["visited keys and values"])
P("C32", "Dictionary stays a balanced tree after any insertions and removals",
  "Adding to or removing from a dictionary in any valid state leaves a valid red-black tree: black root, no red node with a red child, equal black heights, keys in comparator order. Hence any lookup makes at most twice log2(n+1) key comparisons.",
  [I, H], "every valid tree state and every key",
  "Rebalancing cases depend on shape and colors that the fixed test orders do not all reach.",
  VAL, [("rebalancing", "value_dict_fix_after_insert, value_dict_fix_after_remove, value_dict_rotate_left/right")], [("node color bit", "flag in the key's first byte", "data/value.c")], ["comparator calls", "value_dict_verify"])
P("C33", "Dictionaries release everything exactly once and survive failures",
  "Over any history of dictionary operations on keys and values that own memory, every block is released exactly once by the time entries are removed or the dictionary is cleaned or finished, and none is used after release. When any allocation fails during an add, the call returns nothing and the dictionary is unchanged; a cleaned dictionary is empty, keeps its comparison function and order mode and can be used again.",
  [H, F], "all operation sequences, nesting, allocation-failure patterns, dictionary modes",
  "No test injects failures or checks leaks.",
  VAL, [("node release", "value_dict_remove_, value_dict_clean, value_fini")], observe=["allocator calls", "dictionary contents"])
P("C34", "Path lookup resolves exactly the documented path grammar",
  "For every hierarchy and every path built of dictionary keys and bracketed indexes, looking up a path returns exactly the value reached by following the components one by one, with negative indexes counted from the end, extra slashes ignored, and the empty path giving the root. It returns nothing whenever a component is missing, out of range (however many digits the index has), malformed or applied to the wrong kind of value, never modifies the hierarchy and never reads outside the path or the hierarchy.",
  [I], "arbitrary path strings over arbitrary hierarchies",
  "Tests resolve a few well-formed paths; parsing corners and huge indexes are not covered.",
  VAL, [("path tokenizer", "value_path_ex")], observe=["returned value"])
P("C35", "Path building creates exactly the missing components and nothing else",
  "Building a path returns the existing value when the whole path exists, and otherwise creates just the missing trailing components with the container kinds the path demands, the last one being null and marked new. An empty index appends a new member, all pre-existing values keep their content, and the call returns nothing when an existing value has an incompatible type or an index is out of bounds.",
  [I, F], "arbitrary path strings, hierarchies and allocation failures",
  "Tests build a few well-formed paths.",
  VAL, [("allow_build branches", "value_path_ex")], observe=["returned value", "hierarchy contents"])
MC = ["mem/memchunk.c", "mem/memchunk.h"]
MST = [("MEMCHUNK.head/block_size/free_off", "block list, block size, bump offset", "mem/memchunk.h")]
P("C36", "memchunk allocations are disjoint, in bounds and stay intact",
  "For every block size and every sequence of request sizes, each successful allocation returns a region of the requested size that lies wholly inside memory obtained from the heap and overlaps neither any earlier allocation nor the allocator's own bookkeeping. Data written to one allocation is never disturbed by later allocations.",
  [I, H], "all block sizes (0 meaning the default), all request sizes and sequences, both initializers",
  "Tests use two or three fixed size patterns.",
  MC, [("bump allocation, big-request blocks", "memchunk_alloc")], MST, ["returned regions", "memory accesses"])
P("C37", "memchunk releases all memory at once and fails cleanly",
  "Finishing the allocator releases every heap block it obtained exactly once, for every allocation history. When the heap refuses memory, or when a request is so large that its size arithmetic cannot be represented, the allocation returns nothing and earlier allocations as well as later requests keep working.",
  [I, H, F], "all request sizes up to SIZE_MAX, all allocation-failure patterns",
  "No test injects failures or uses huge sizes.",
  MC, [("block list release", "memchunk_fini"), ("size checks", "memchunk_alloc")], MST, ["allocator calls", "returned pointers"])
P("C38", "MALLOCA/FREEA give usable memory and free exactly the heap blocks",
  "For every size and threshold expression, the macros return memory of at least the requested size that does not overlap other live memory, taken from the stack only when below the threshold and from the heap otherwise, or a null pointer when the heap refuses or the size is not representable. FREEA releases exactly the heap-backed blocks, exactly once, accepts null pointers and any pointer variable name, and never frees a stack block.",
  [I, C, F], "all size_t sizes, all thresholds (also tiny ones), expression arguments, allocation failure",
  "Tests use a couple of constant sizes.",
  ["mem/malloca.h"], [("mark word before the block", "MALLOCA_, FREEA, malloca_set_mark__")], observe=["allocator calls", "returned region"])
CL = ["misc/cmdline.c", "misc/cmdline.h"]
P("C39", "Command line tokens are classified and delivered exactly as documented",
  "For every option table and every argument vector, the callback receives, in order, exactly the events the documented grammar defines: short options (alone, grouped, with attached or following argument), long options with or without '=' argument, compiler-like prefix options, positional arguments, a lone dash, and everything after a double dash as positional. Each event carries the right option identifier and the exact argument text.",
  [I, C], "all argument strings (bytes, lengths, counts) and option tables (names, flags, order)",
  "Tests run a few dozen fixed command lines against one or two option tables.",
  CL, [("token dispatch", "cmdline_read"), ("short option groups", "cmdline_handle_short_opt_group")], observe=["callback invocations"])
P("C40", "Command line errors are reported right, abort promptly, and stay in bounds",
  "Unknown options, missing arguments and unexpected arguments are reported with their special identifiers and the guilty option name (an over-long name may be cut but is always terminated), in argument order. A non-zero callback result stops processing at once and is returned unchanged; otherwise zero is returned, and no argument, however long, makes the parser read or write out of bounds.",
  [I, C], "all argument strings of any length, all callback results",
  "Tests cover short option names only and few error combinations.",
  CL, [("name buffer", "cmdline_read auxbuf"), ("abort on callback result", "cmdline_read")], observe=["callback invocations", "return value"])
P("C41", "Helper macros compute their mathematical meaning for every value",
  "MIN, MAX, MIN3, MAX3, CLAMP (for ordered bounds) and ABS return the mathematically right value for all arguments of every integer and floating type, also when given compound expressions. SIZEOF_ARRAY, OFFSETOF and CONTAINEROF give the element count, the member offset and the container of any member pointer.",
  [I], "all argument values and operator mixes; all members",
  "Tests check a few constants.",
  ["misc/defs.h"], [("macros", "misc/defs.h")], observe=["macro values"])
MS = ["win32/memstream.c", "win32/memstream.h"]
MSS = [("MEMSTREAM.pos/size/refs/buffer", "seek position, data size, reference count, data", "win32/memstream.c")]
P("C42", "Memory stream reads and seeks exactly like a read-only file",
  "For every data size and every sequence of seeks (from start, current or end, any 64-bit offset) and reads of any length, a read delivers exactly the bytes at the current position up to the end, reports the count, advances the position, and signals end of data when at or beyond the end. A seek to a negative position or beyond 32 bits fails and keeps the position, and the reported new position is always the real one. Stat reports a read-only stream of the data's size.",
  [I, H], "all data, 64-bit seek offsets, read lengths and operation sequences",
  "The stream is Windows-only: its test is not even built here.",
  MS, [("Read/Seek", "memstream_Read, memstream_Seek")], MSS, ["method results", "output data"])
P("C43", "Memory stream copying and cloning transfer exactly the right data",
  "Copying to another stream transfers exactly the minimum of the requested count (any 64-bit value) and the remaining bytes from the current position, advances by what was written, reports it, and passes on a failure of the target. A clone reads the same data from the same position, afterwards independently of the original.",
  [I, H, F], "all positions, 64-bit counts, target behaviours and allocation failure",
  "The stream is Windows-only: its test is not even built here.",
  MS, [("CopyTo/Clone", "memstream_CopyTo, memstream_Clone")], MSS, ["method results", "target stream"])
P("C44", "Memory stream lifetime, interfaces and refusals follow the COM contract",
  "The object is released exactly when its reference count reaches zero and never before; interface queries succeed, adding a reference, exactly for the interfaces the stream implements and otherwise yield null with no reference added. Every creation failure returns a failing result and a null stream, and writing, resizing and locking are refused without changing anything.",
  [I, H, F], "all call sequences, interface identifiers and allocation/resource failures",
  "The stream is Windows-only: its test is not even built here.",
  MS, [("QueryInterface/AddRef/Release/create", "win32/memstream.c")], MSS, ["method results", "allocator calls"])
P("C45", "Memory stream reference counting is exact when threads share the stream",
  "When several threads, each owning a reference, add, query and release references of one stream concurrently, no reference is ever lost or counted twice: exactly one Release reports zero, that one destroys the object, nobody touches the object after its own last reference may have gone, and the object lives as long as any reference exists.",
  ["schedules"], "the operations of two and three threads, those of the later threads placed at any memory accesses of the earlier ones",
  "The stream is Windows-only, and no test uses threads.",
  MS, [("AddRef/Release/QueryInterface", "memstream_AddRef, memstream_Release, memstream_QueryInterface")], MSS, ["method results", "allocator calls"])
with open(OUT, 'w') as f:
    for r in rows: f.write(json.dumps(r) + "\n")
print(len(rows), "properties")
