#!/usr/bin/env python3
"""Writes properties.jsonl. P(id, title, statement, over, text, why, files, mechanism)"""
import json, os
OUT = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    OUT.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['src/mpack/' + f for f in files], mechanism=[dict(name=n, where='src/mpack/' + w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where='src/mpack/' + c) for a, b, c in state], observe_at=list(observe), hook_needed=None)))
Wc, Wh, Rc, Rh, Ec, Nc, Nh, Cc, Ch, Pc = 'mpack-writer.c mpack-writer.h mpack-reader.c mpack-reader.h mpack-expect.c mpack-node.c mpack-node.h mpack-common.c mpack-common.h mpack-platform.c'.split()
BUF = ('position/buffer/end', 'bytes not yet flushed and the room left', Wh)

P('W01', 'Integers are written byte-exactly in the shortest MessagePack form',
  'Writing any signed or unsigned integer of any width appends exactly the shortest MessagePack encoding of its value, non-negative signed values being encoded as unsigned. Unless an error is reported, every byte arrives in order and nothing else is written, whether or not the buffer had to be flushed first.',
  ['inputs', 'histories', 'configurations'], 'every value of every integer width, every fill level and size of the buffer, with and without a flush function, error or not, size-optimized or not',
  'Tests sample boundary values with a mostly empty buffer; 2^64 values times every buffer fill level and flush behaviour cannot be enumerated.',
  [Wc, Wh, Ch], [('mpack_write_u8..i64', Wc), ('mpack_encode_*', Wc), ('mpack_writer_ensure', Wc)], [BUF], ['buffer contents', 'flush callback'])
P('W02', 'Scalars and headers are written byte-exactly in the shortest form',
  'Writing nil, booleans, floats, timestamps, the headers of arrays, maps, strings, binary and extension objects, and any tag, appends exactly the shortest encoding the MessagePack specification gives for it. In old-specification compatibility mode the newer str8, bin and ext types are never produced: strings and binary use the raw formats and extension types are refused with an error and no output.',
  ['inputs', 'histories', 'configurations'], 'every value, length, extension type and timestamp (including out-of-range nanoseconds), every buffer state, both specification versions, builds with and without floating point support',
  'Lengths and timestamps range over 2^32 and 2^96 values; tests use a few per format and never a hand-made invalid tag or a buffer that is full in the middle of a header.',
  [Wc, Wh, Ch], [('mpack_write_tag', Wc), ('mpack_start_*', Wc), ('mpack_write_timestamp', Wc)], [BUF], ['buffer contents', 'flush callback'])
P('W03', 'Writing whole strings, binary and raw bytes emits header then data',
  'Writing a complete string, binary or extension object, or raw object bytes, appends the shortest header for its length directly followed by exactly the given data, for data smaller or larger than the buffer or the room left in it. If the data cannot be output completely an error is reported; the caller\'s data is never modified.',
  ['inputs', 'histories', 'configurations'], 'every length up to 4 GiB, every content, every buffer size and fill level, flush functions that fail at any call',
  'The interesting cases are combinations of data length, buffer size and fill level around each header boundary; tests cover a handful of them.',
  [Wc, Ch], [('mpack_write_str', Wc), ('mpack_write_bin', Wc), ('mpack_write_native_straddle', Wc)], [BUF], ['flush callback'])
P('W04', 'Checked and C-string writes validate their text and never emit invalid data',
  'Writing a C string writes exactly the bytes before its terminator as a string; the UTF-8 checking variants write the same output if the text is valid UTF-8 and otherwise report invalid data and output nothing of it. The "or nil" variants write nil exactly when given a null pointer.',
  ['inputs', 'histories'], 'every string content and length, every buffer state',
  'Tests use short literal strings; validity depends on every byte of arbitrary text.',
  [Wc, Cc], [('mpack_write_cstr', Wc), ('mpack_write_utf8', Wc), ('mpack_utf8_check', Cc)], [BUF])
P('W05', 'The growable and file writers deliver the complete output or an error',
  'A growable writer returns, after an error-free close, one allocated buffer whose content and size are exactly the concatenation of everything written, however often it had to grow; after any error it returns no data and leaks nothing. Closing any writer flushes all remaining bytes exactly once, and an error while flushing is reported by close.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of writes of every size, allocation refused at any request, flush failing at any call',
  'Growth happens at sizes and fill levels tests meet in a few combinations; allocation failures are only injected along one scenario.',
  [Wc, Wh], [('mpack_growable_writer_flush', Wc), ('mpack_growable_writer_teardown', Wc), ('mpack_writer_destroy', Wc), ('mpack_file_writer_flush', Wc)], [BUF])
P('W06', 'Automatically counted arrays and maps equal explicitly counted ones',
  'A compound value written without stating its size in advance produces exactly the bytes that would be produced by stating the final number of elements up front, at any nesting depth and any size relative to the internal pages. If memory runs out an error is reported, nothing outside allocated memory is touched and all of it is released.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of writes inside nested builds, every page fill level, allocation refused at any request',
  'Page boundaries can fall in any byte of any element; tests hit a few of the alignments.',
  [Wc, Wh], [('mpack_builder_build', Wc), ('mpack_builder_flush', Wc), ('mpack_builder_resolve', Wc)], [('builder pages and builds', 'stashed output with unknown counts', Wh)])
P('W07', 'The first writer error sticks, is reported once and stops all output',
  'Once a writer is in an error state the first error is kept, the error callback has been called exactly once with it, and no later operation hands anything to the flush function or changes the error. A writer with no flush function that runs out of room reports that the data is too big.',
  ['histories', 'fault_sequences', 'inputs'], 'every operation in every state, flush failing at any call, errors flagged by the application',
  'The error can strike between any two steps of any operation; tests inject it at a few.',
  [Wc, Wh], [('mpack_writer_flag_error', Wc), ('mpack_writer_flush_message', Wc)], [('error', 'first error', Wh)], ['error callback', 'flush callback'])
P('R01', 'Every byte sequence is decoded to the value the specification assigns',
  'Reading a value header consumes exactly the bytes of the first MessagePack header in the input and yields the type and value the specification assigns to it; peeking yields the same without consuming. The reserved byte, and extension types where disabled, are refused with an error and no value.',
  ['inputs', 'histories', 'configurations'], 'every input, every split of it between the buffer and later fills, builds with and without extensions and floating point',
  'All 256 first bytes with all following bytes, at every buffer boundary, are out of reach of samples.',
  [Rc, Rh, Ch], [('mpack_parse_tag', Rc), ('mpack_read_tag', Rc), ('mpack_peek_tag', Rc)], [('data/end/buffer', 'unread bytes in the buffer', Rh)])
P('R02', 'Reads return the input bytes in order regardless of how they arrive',
  'Whatever sizes the fill function delivers and whatever buffer is used, the sequence of bytes obtained by reads, in-place reads and skips is exactly the input in order, without loss, duplication or invention. Nothing is stored outside the reader\'s buffer or the caller\'s destination.',
  ['inputs', 'histories', 'fault_sequences'], 'every input, every chunking by the fill function, every buffer size and fill level, every request size',
  'Chunk sizes and request sizes combine without limit; tests use a few fixed ones.',
  [Rc, Rh], [('mpack_reader_ensure_straddle', Rc), ('mpack_read_native_straddle', Rc), ('mpack_skip_bytes_straddle', Rc), ('mpack_fill_range', Rc)], [('data/end/buffer', 'unread bytes in the buffer', Rh)])
P('R03', 'Input that ends early is an error, never data',
  'If the input ends or the fill function fails before a requested value or byte range is complete, the operation reports an error and returns a zero or empty result (the content of a plain destination buffer is then unspecified); no byte beyond the available input is used. The distinction is by the remaining input only, not by what the caller claims about it.',
  ['inputs', 'fault_sequences'], 'truncation at every byte of every input, declared lengths up to 2^32-1, fill failing at any call',
  'Tests truncate a few messages; every operation must handle every cut.',
  [Rc, Rh], [('mpack_reader_ensure', Rh), ('mpack_reader_flag_error', Rc), ('mpack_read_bytes', Rc)], [('error', 'first error', Rh)])
P('R04', 'Discarding consumes exactly one complete object',
  'Discarding a value consumes exactly the bytes of that value, including all nested contents, and nothing more; if it is incomplete or invalid, an error is reported.',
  ['inputs', 'histories'], 'every value of every type, size and nesting, every chunking',
  'Nesting and lengths are unbounded; tests discard a few messages.',
  [Rc], [('mpack_discard', Rc), ('mpack_skip_bytes', Rc)])
P('R05', 'The first reader error sticks, is reported once and stops all reading',
  'Once a reader is in an error state the first error is kept, the error callback has been called exactly once with it, every later read returns nil, zero or nothing, and the fill and skip functions are not called again.',
  ['histories', 'fault_sequences'], 'every operation in every state, errors from fill and from the application',
  'Any operation may be called in the error state and errors may strike inside any of them.',
  [Rc, Rh, Ec], [('mpack_reader_flag_error', Rc)], [('error', 'first error', Rh)], ['error callback'])
P('R06', 'Timestamps decode exactly and reject malformed ones',
  'Reading a timestamp yields exactly the seconds and nanoseconds encoded in its 4, 8 or 12 byte form. Any other length, another extension type or nanoseconds above 999999999 is reported as an error with a zero result.',
  ['inputs'], 'every content and declared length',
  'The 64-bit form packs two fields; tests sample a few values.',
  [Rc, Nc], [('mpack_read_timestamp', Rc), ('mpack_node_timestamp', Nc)])
P('R07', 'What is written reads back as the same value',
  'For every header or scalar that can be written, decoding the written bytes yields the same type class, value, length and extension type and consumes exactly those bytes. Integers come back with the same numeric value.',
  ['inputs'], 'every tag value, both specification versions',
  'Round-trip tests cover listed values only; the property quantifies over all of them.',
  [Wc, Rc], [('mpack_write_tag', Wc), ('mpack_parse_tag', Rc)])
P('E01', 'Expecting a number returns it exactly if it fits, otherwise an error',
  'Expecting an integer type returns the value read exactly when the input holds an integer of any encoding whose value is representable in the requested type or range, and otherwise reports a type error and returns zero or the lower bound. Expecting a floating point number returns exactly the encoded number converted to that type, the strict variants accepting only the types whose conversion is lossless.',
  ['inputs'], 'every encoding of every value against every width and every range',
  'Widths times encodings times boundary values is a large product and tests list some.',
  [Ec], [('mpack_expect_u8..i64', Ec), ('mpack_expect_*_range', Ec), ('mpack_expect_float/double', Ec)])
P('E02', 'Expected strings and binary are delivered whole, bounded and terminated',
  'Expecting string, binary or extension data into a caller buffer delivers exactly the encoded bytes if they fit and otherwise an error; C-string variants add a terminator, never exceed the given size, and refuse data containing a zero byte, the UTF-8 variants refuse invalid text. On error the result is empty and no write past the caller\'s buffer occurs; allocating variants return an exact copy or nothing and leak nothing.',
  ['inputs', 'fault_sequences'], 'every declared length, content and destination size, allocation refused at any request',
  'Declared lengths up to 2^32-1 against arbitrary buffer sizes; tests try a handful.',
  [Ec, Cc], [('mpack_expect_str_buf', Ec), ('mpack_expect_cstr', Ec), ('mpack_expect_*_alloc', Ec)])
P('E03', 'Expected counts and matches are accepted exactly when they agree',
  'Expecting an array or map with a given count, range or maximum succeeds exactly when the input is one and its count complies, and returns that count; otherwise an error is reported and a count of zero (or the minimum) is returned. Expecting a given string, tag, nil or boolean succeeds exactly when the input equals it, byte for byte.',
  ['inputs'], 'every input value and every expected value, range or maximum',
  'Counts and expected contents are arbitrary; tests sample.',
  [Ec], [('mpack_expect_map_range', Ec), ('mpack_expect_array_range', Ec), ('mpack_expect_str_match', Ec), ('mpack_expect_tag', Ec)])
P('E04', 'Key and enum lookup identifies exactly the listed string or key',
  'Looking up an expected enum or map key returns the index of the listed entry equal to the one read, or the not-found result; a map key found a second time is an error. An entry is matched only if it is equal in length and content.',
  ['inputs', 'histories'], 'every list, every input string or integer key, every history of keys found',
  'Lists, keys and duplicates combine freely; tests use one list.',
  [Ec], [('mpack_expect_enum', Ec), ('mpack_expect_key_cstr', Ec), ('mpack_expect_key_uint', Ec)])
P('N01', 'A parsed tree mirrors the message exactly',
  'Parsing a message in memory succeeds exactly when it is one complete valid message, and then every node has the type, value, length and child count of the corresponding part of the message, children in order. Malformed or truncated data gives an error and no nodes.',
  ['inputs'], 'every byte sequence of every length',
  'Structure and lengths are unbounded; tests parse a few dozen messages.',
  [Nc, Nh], [('mpack_tree_parse_node', Nc), ('mpack_tree_continue_parsing', Nc)], [('parser stack', 'children still to parse', Nh)])
P('N02', 'Node number accessors return the exact value or a type error',
  'Every numeric or boolean accessor on a node returns the exact stored value when it is representable in the requested type, and otherwise flags a type error and returns zero or false. Missing and nil nodes are reported as they are; accessors never change the tree otherwise.',
  ['inputs'], 'every node type and value against every accessor, tree in error or not',
  'Accessors times types times values is large; tests cover boundaries of some.',
  [Nh, Nc], [('mpack_node_u8..i64', Nh), ('mpack_node_float/double', Nh), ('mpack_node_bool', Nh)])
P('N03', 'Node data accessors return exactly the bytes of the node, bounded',
  'Data pointers and lengths of string, binary and extension nodes denote exactly the bytes of that object in the message; copies never exceed the destination, C-string copies are terminated and refuse embedded zero bytes, and UTF-8 variants refuse invalid text. Too-small destinations, wrong types and refused allocations are errors with an empty result.',
  ['inputs', 'fault_sequences'], 'every node, content and destination size; allocation refused',
  'Sizes and contents arbitrary; tests sample.',
  [Nc], [('mpack_node_copy_data', Nc), ('mpack_node_copy_cstr', Nc), ('mpack_node_cstr_alloc', Nc)])
P('N04', 'Map lookup finds exactly the entry whose key is equal',
  'Looking up a key in a map node returns the value of the single entry whose key is numerically equal, or for strings equal in length and content; two such entries are an error. If there is none, the optional variants return a missing node and the others report an error.',
  ['inputs'], 'every map, every key of string, signed or unsigned type',
  'Maps and keys are arbitrary; integer keys of different signedness must compare by value.',
  [Nc], [('mpack_node_map_str_impl', Nc), ('mpack_node_map_int_impl', Nc), ('mpack_node_map_uint_impl', Nc)])
P('N05', 'Element access is bounds-checked and yields the right child',
  'Accessing element, key or value number i of an array or map node returns exactly that child when i is below the count; otherwise it reports an error and returns a nil node, and no memory outside the tree is read. Wrong node types are reported in the same way.',
  ['inputs'], 'every node, every index up to the size limit of the platform',
  'Every index and count; tests try the ends of small containers.',
  [Nc, Nh], [('mpack_node_array_at', Nc), ('mpack_node_map_at', Nc)])
P('N06', 'Incremental parsing gives the same result for every chunking',
  'Parsing from a stream gives the same nodes or the same failure for every way the data is split into chunks, and a message is rejected for its size only if it exceeds the configured limits. Bytes following the message are kept for the next one.',
  ['inputs', 'histories', 'fault_sequences'], 'every message, every chunking, every limit',
  'Chunkings are exponentially many; tests use byte-wise and whole delivery.',
  [Nc], [('mpack_tree_reserve_fill', Nc), ('mpack_tree_try_parse', Nc)], [('possible_nodes_left', 'message bytes not yet attributed to a node', Nh)])
P('N07', 'Tree errors stick, are reported once and yield only nil nodes',
  'After the first error a tree keeps that error, has called the error callback exactly once with it, and every node obtained afterwards is nil or every accessor returns its empty result. Destroying a tree releases all its memory.',
  ['histories', 'fault_sequences'], 'every operation after every error, allocation refused at any request',
  'Errors may strike anywhere; tests try a few.',
  [Nc, Nh], [('mpack_tree_flag_error', Nc), ('mpack_tree_destroy', Nc), ('mpack_tree_cleanup', Nc)])
P('C01', 'UTF-8 validation accepts exactly the valid texts',
  'The UTF-8 check accepts a byte string of any length exactly if it is a sequence of well-formed UTF-8 encodings of Unicode scalar values (no overlong forms, surrogates or values above U+10FFFF), and the no-null variant additionally exactly if it contains no zero byte. It reads only the given bytes.',
  ['inputs'], 'every byte string of every length',
  'All strings of unbounded length; tests list sample sequences.',
  [Cc], [('mpack_utf8_check_impl', Cc), ('mpack_str_check_no_null', Cc)])
P('C02', 'Tag comparison is a total order consistent with value equality',
  'Two tags compare equal exactly if they denote the same value (integers by numeric value regardless of signedness, floats by bits, lengths, counts and extension types), and the comparison is antisymmetric and transitive.',
  ['inputs'], 'every pair and triple of tags',
  'Transitivity quantifies over triples of arbitrary tags.',
  [Cc], [('mpack_tag_cmp', Cc)])
P('C03', 'Big-endian loads and stores are exact inverses on every value',
  'Storing any integer or floating point value and loading it back yields the identical bits, and the stored bytes are in network order; only the bytes of the value are touched.',
  ['inputs', 'configurations'], 'every value of every width, with and without compiler byte-swap support',
  'Value spaces of 2^64.',
  [Ch], [('mpack_load_u*/mpack_store_u*', Ch)])
P('C04', 'Tracking reports exactly the unbalanced uses',
  'With tracking enabled, opening and closing compound types, elements and bytes in balance raises no error, and closing the wrong type, closing early, or reading or writing more elements or bytes than declared is reported as a bug. Memory failure while tracking is reported as a memory error and nothing leaks.',
  ['histories', 'fault_sequences'], 'every sequence of push, pop, element and byte events of any depth, allocation refused',
  'Histories are unbounded; tests try typical mistakes.',
  [Cc], [('mpack_track_push', Cc), ('mpack_track_pop', Cc), ('mpack_track_element', Cc), ('mpack_track_bytes', Cc)])
P('C05', 'Debug text is bounded and terminated',
  'Describing or printing values into a caller buffer never writes beyond the given size and always leaves a terminated string, for every value and every buffer size including tiny ones.',
  ['inputs'], 'every tag, buffer size and prefix',
  'Buffer sizes interact with the length of every rendered value.',
  [Cc], [('mpack_tag_debug_pseudo_json', Cc), ('mpack_tag_debug_describe', Cc), ('mpack_print_append', Cc)])
P('C06', 'The fallback memory functions behave like the standard ones',
  'The built-in replacements for memory and string functions give the same results as the standard C functions for every input, including overlapping moves in both directions, and touch only the given bytes.',
  ['inputs', 'configurations'], 'every content, length and overlap',
  'Overlaps and lengths are unbounded; tests run with the standard library versions.',
  [Pc], [('mpack_memmove', Pc), ('mpack_memcmp', Pc), ('mpack_memset', Pc), ('mpack_strlen', Pc)])
P('C07', 'Refused allocations become errors and nothing leaks',
  'If any memory request is refused the operation reports a memory error, returns an empty result and leaves its object usable for closing; after closing readers, writers and trees all memory they obtained has been released exactly once.',
  ['fault_sequences', 'histories'], 'refusal of any request of any operation that allocates',
  'Faults at each allocation of each operation in each state.',
  [Wc, Rc, Ec, Nc], [('MPACK_MALLOC users', Nc)])
P('C08', 'Callbacks that jump out of the library leave it consistent',
  'An error callback may leave by a non-local jump; afterwards closing the object is still safe and releases everything.',
  ['histories'], 'every operation that can report an error',
  'Jumps may occur at any report.',
  [Wc, Rc, Nc], [('error_fn', Wh)])
P('C09', 'Independent objects can be used from different threads',
  'Operations on distinct readers, writers and trees do not interfere when run concurrently.',
  ['schedules'], 'every interleaving', 'Interleavings cannot be enumerated by tests.',
  [Wc, Rc, Nc], [('no mutable static data', Pc)])
P('C10', 'Stored files contain the written data',
  'After closing a file writer without error, the file contains exactly the bytes written; reading a file yields exactly its contents.',
  ['inputs', 'fault_sequences'], 'every content, I/O errors at any call', 'I/O faults at any point.',
  [Wc, Rc], [('mpack_file_writer_flush', Wc), ('mpack_file_reader_fill', Rc)])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for p in OUT: f.write(json.dumps(p) + '\n')
    assert all(len(p['title']) <= 80 for p in OUT)
