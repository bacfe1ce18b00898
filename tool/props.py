#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a table so that statements and anchors are easy to revise)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = [observe]
    P.append(d)


S = 'src/jogasaki/'
I = 'include/jogasaki/'

p('C01', 'Every enumerator has its own textual name',
  'For every status, kind and mode enumeration of the system, converting an enumerator to text yields exactly its own name: no enumerator falls to the abort branch, and two enumerators never share a text. Streaming an enumerator prints that same text.',
  ['inputs'], 'every enumerator of every enumeration that has a textual form',
  'Tests print a few enumerators; an enumerator added later, or one whose text was copied from its neighbour, is only noticed in a log or an error message.',
  [I + 'status.h', I + 'error_code.h', S + 'executor/batch/batch_execution_state.h', S + 'scheduler/step_state.h', S + 'model/step_kind.h', S + 'udf/enum_types.h', S + 'serializer/entry_type.h', I + 'api/kvsservice/transaction_type.h'],
  [('text conversion', I + 'status.h to_string_view'), ('stream operator', I + 'status.h operator<<')], observe='error messages, logs and statistics shown to users')
p('C02', 'Error codes keep their identity on the wire',
  'Every error code reported to a client is translated to the protocol error of the same name, no two codes are merged, and translating back gives the original code. No code makes the translation abort.',
  ['inputs'], 'every error code of the engine and every error of the protocol',
  'The tables have more than a hundred entries and are used one at a time when that error happens; tests exercise a handful.',
  [S + 'api/impl/map_error_code.h', I + 'error_code.h', S + 'proto/sql/error.proto'],
  [('mapping engine to protocol', S + 'api/impl/map_error_code.h map_error'), ('code enumeration', I + 'error_code.h error_code')])
p('C03', 'Text sanitizing yields well-formed printable UTF-8 and loses nothing',
  'For any byte string, sanitizing copies exactly the well-formed printable characters (by RFC 3629, no overlong forms, surrogates or out-of-range values) and replaces every other byte by a two-digit lowercase hexadecimal escape. It never reads outside the input, always advances, and accounts for every input byte exactly once.',
  ['inputs'], 'all byte strings', 'Byte strings are unbounded and the boundary cases (truncated tails, overlong and surrogate ranges) are a tiny fraction of them.',
  [S + 'utils/sanitize_utf8.cpp'], [('sequence validation', S + 'utils/sanitize_utf8.cpp validate_utf8_sequence'), ('byte escape', S + 'utils/sanitize_utf8.cpp escape_byte')], observe='returned string')
p('C04', 'UTF-8 boundary detection never reads past the input and never splits a character',
  'For any byte string and offset, the encoding detector classifies the character starting there by its lead byte (00-7F, C2-DF, E0-EF, F0-F4) and the continuation bytes (80-BF) it calls for, reads bytes inside the string only, and reports an invalid encoding for a truncated or malformed character and for an offset at or behind the end. Whole-string validation succeeds exactly when the string is a concatenation of characters the detector accepts.',
  ['inputs'], 'all byte strings and all offsets inside them', 'Out-of-bounds reads at the end of the buffer and truncated tails need specific combinations of offset and length.',
  [S + 'utils/utf8_utils.cpp', S + 'utils/utf8_utils.h'], [('boundary detection', S + 'utils/utf8_utils.cpp detect_next_encoding'), ('string validation', S + 'utils/utf8_utils.cpp is_valid_utf8')])
p('C05', 'Base64 coding is the standard one, in both directions',
  'Encoding groups three bytes into four characters of the standard alphabet with the standard padding, and decoding is its inverse on every encoded text. The validity test accepts exactly non-empty texts of complete groups over the alphabet with at most two padding characters, only at the end, and neither direction reads or writes outside its buffers.',
  ['inputs'], 'all byte strings and all texts', 'Length modulo three, padding position and each of the 64 alphabet entries multiply; tests sample few.',
  [S + 'utils/base64_utils.cpp'], [('encoder', S + 'utils/base64_utils.cpp encode_base64'), ('decoder', S + 'utils/base64_utils.cpp decode_base64'), ('validity', S + 'utils/base64_utils.cpp is_base64')])
p('C06', 'Hexadecimal text is parsed and printed byte-exactly',
  'Parsing a hexadecimal text succeeds exactly for an even number of hexadecimal digits of either case and yields the bytes they denote. Printing binary data shows every byte as two hexadecimal digits in order (in literal form, a printable byte as itself), with no byte dropped, merged or sign-extended, and with separators only between bytes.',
  ['inputs'], 'all texts and all byte strings', 'Each of 256 byte values in each nibble position, sign extension and persistent stream formatting state are input dependent.',
  [S + 'utils/hex_to_octet.cpp', S + 'utils/binary_printer.h'], [('hex parser', S + 'utils/hex_to_octet.cpp hex_to_octet'), ('binary printer', S + 'utils/binary_printer.h')])
p('C07', 'Control characters never reach logs and other characters are untouched',
  'Converting text for display replaces every control character (00-1F) by the replacement character, copies every other ASCII byte unchanged, leaves out bytes with the most significant bit set, and preserves the order; no control character is ever written.',
  ['inputs'], 'all byte strings', 'All 256 byte values at any position.', [S + 'utils/convert_control_characters.cpp'],
  [('conversion', S + 'utils/convert_control_characters.cpp convert_control_characters')])
p('C08', 'Text helpers follow their definitions on every string',
  'Trimming at the left (right) end removes exactly the blanks at that end and keeps every other character in order, the prefix test is true exactly when the target starts with all bytes of the prefix, and the base file name is what follows the last separator. None of them reads outside its argument, including empty strings and strings of blanks only.',
  ['inputs'], 'all strings', 'Boundary strings (empty, all blanks, separator at an end, equal lengths) are many and the helpers are used everywhere.',
  [S + 'utils/string_manipulation.cpp', S + 'utils/string_utils.cpp', S + 'utils/base_filename.h'], [('trim', S + 'utils/string_utils.cpp rtrim, ltrim'), ('prefix test', S + 'utils/string_manipulation.cpp is_prefix'), ('base name', S + 'utils/base_filename.h')])
p('C09', 'Variable-length values keep their bytes, length and order',
  'A character or octet value built from any bytes (from a view, an address and length, a literal, or a copy) reports exactly that length and those bytes, inline when there are at most 15 of them and out of line otherwise. Values built in or copied into a memory resource refer only to memory allocated from that resource, and concatenation of two values in a resource yields the bytes of the first followed by those of the second and leaves both unchanged. Comparison and the relational operators are byte-wise unsigned lexicographic with shorter-prefix-first, equality agrees with comparison, equal values hash equally, and a character value prints as its bytes (as the placeholder for an empty one).',
  ['inputs'], 'all byte strings around and beyond the inline capacity, all pairs', 'Representation boundary, sign of bytes and length ties interact; comparison is over pairs.',
  [S + 'accessor/text.cpp', S + 'accessor/text.h', S + 'data/binary_string_value.cpp'], [('representation', S + 'accessor/text.h text'), ('comparison', S + 'accessor/text.cpp compare')],
  [('short/long representation', 'inline bytes for short values, pointer and length for long ones', S + 'accessor/text.h')])
p('C10', 'Buffers never report more data than they own',
  'An aligned buffer keeps its contents and alignment when it grows, shrinks to fit or is moved, has exactly the size it was resized to, and its size never exceeds its capacity; its data lies at the alignment it was given, and a moved-from buffer is empty and owns nothing until it is used again. Assigning a text or another buffer replaces the contents by a copy of all of it in memory the buffer owns, keeps the alignment, and leaves the source as it was.',
  ['histories'], 'all sequences of construction, move, assignment and resizing', 'Ownership errors show only after particular sequences and corrupt memory silently.',
  [S + 'data/aligned_buffer.cpp', S + 'data/aligned_buffer.h'], [('growth', S + 'data/aligned_buffer.cpp resize'), ('assignment', S + 'data/aligned_buffer.cpp assign')],
  [('size and capacity', 'bytes in use and bytes owned', S + 'data/aligned_buffer.h')])
p('C11', 'Pages are handed out once and returned once',
  'Within a page, an allocation (of at least one byte, with any power-of-two alignment) is aligned as requested, lies inside the page and beyond the part in use, and is refused when it does not fit; what remains is what the next allocation could take; giving back from the front is refused unless the block is the first one live, giving back from the back frees everything from that block on, a block beyond the part in use is refused, and giving back the last live block makes the page empty. A paged resource (monotonic, lifo, fifo) hands out aligned blocks that lie in pages it holds and do not overlap while live, takes a new page when a block does not fit or it is told to, refuses what no page can hold, fails with bad_alloc when the pool has no page, takes blocks back in its own order and keeps the others, tells its number of pages and what remains of the current one, and gives each page it acquired back to the pool exactly once. Going back to a checkpoint gives back exactly what was allocated since (lifo); passing a checkpoint gives back exactly what was allocated before (fifo).',
  ['histories', 'inputs'], 'all page states, addresses, sizes and alignments (of a resource: up to the alignment of its pages); histories of up to four operations on a resource',
  'Overlap and double release depend on sizes, alignments and orders; tests use a few fixed sequences.',
  [S + 'memory/details/page_allocation_info.cpp', S + 'memory/fifo_paged_memory_resource.cpp', S + 'memory/lifo_paged_memory_resource.cpp', S + 'memory/monotonic_paged_memory_resource.cpp'],
  [('page bookkeeping', S + 'memory/details/page_allocation_info.cpp'), ('resources', S + 'memory/lifo_paged_memory_resource.cpp')],
  [('bounds of the part in use', 'used range of a page', S + 'memory/details/page_allocation_info.h')])
p('C12', 'A waiter on a latch or waitable flag never misses its wake-up',
  'Once the awaited condition is true, every waiter returns, whichever of the waiter and the notifier arrives first, and no waiter returns before the condition holds or its time limit passed. The condition is changed under the lock the waiters test it with, or the notification passes through that lock after the change; opening a latch by releasing it, and notify of a waitable flag, always reach the waiters. (Reopening a latch by reset is for later waiters.)',
  ['schedules'], 'all interleavings of waiters, setters and resets', 'A lost wake-up needs one particular interleaving between the test and the wait.',
  [S + 'utils/latch.cpp', S + 'utils/latch.h', S + 'utils/waitable_atomic.h'], [('latch', S + 'utils/latch.cpp wait/release'), ('waitable atomic', S + 'utils/waitable_atomic.h wait/notify')],
  [('open flag', 'condition the waiters test', S + 'utils/latch.h')])
p('C13', 'Use counters and stop watches report what was recorded',
  'A use counter is the number of live users through copies, moves and destruction, with no leak or double decrement. A point of a stop watch keeps, for each worker, the time it was first set until the watch is restarted, however many workers record at the same time; the first and the last of the times of the workers are reported as asked for, and durations, their average and their text are taken from the begin point to the end point in that order.',
  ['histories', 'schedules'], 'all sequences of copies, moves, releases and recordings', 'Counter drift appears only after particular copy and move sequences.',
  [S + 'utils/use_counter.cpp', S + 'utils/watch.cpp', S + 'utils/performance_tools.cpp'], [('counter', S + 'utils/use_counter.cpp'), ('watch', S + 'utils/watch.cpp')])
p('C14', 'A function result stream hands records over safely between threads',
  'Every access to the shared state of a user-defined function result stream happens under its lock, each record pushed is delivered exactly once in order, the end of stream is reported only after all records were taken, and a consumer blocked on an empty stream is woken by a push or by the end. A closed stream delivers nothing more.',
  ['schedules'], 'all interleavings of the producer and the consumer, with and without time limit', 'Data races and lost wake-ups need one particular interleaving.',
  [S + 'udf/generic_record_impl.cpp', S + 'udf/generic_record_impl.h'], [('stream', S + 'udf/generic_record_impl.cpp generic_record_stream_impl push/end_of_record/try_next/next')],
  [('queue and end flag', 'records not taken yet and whether more can come', S + 'udf/generic_record_impl.h')])
p('C15', 'Function records return each value in the type it was stored',
  'A value appended to a function record under one type is fetched intact by the reader for that type, reading advances exactly one position whatever the value is (null, present or of another type), and reading past the end or with another type yields no value rather than a wrong one.',
  ['histories', 'inputs'], 'all sequences of appends and reads over all value types', 'The pairing covers a dozen type-specific operations whose bodies differ by one token.',
  [S + 'udf/generic_record_impl.cpp', S + 'udf/generic_record.h'], [('append', S + 'udf/generic_record_impl.cpp generic_record_impl::add_*'), ('fetch', S + 'udf/generic_record_impl.cpp generic_record_cursor_impl::fetch_*')],
  [('values', 'sequence of optional typed values', S + 'udf/generic_record_impl.h'), ('cursor position', 'index of the next value', S + 'udf/generic_record_impl.h')])
p('C16', 'Every combination of alternative arguments gives one callable signature',
  'The argument patterns of a function are exactly the combinations choosing one member of each group of alternatives, every pattern lists the remaining columns in declaration order, and no pattern is missing or repeated.',
  ['inputs', 'configurations'], 'all record descriptors with any number of alternative groups of any size', 'The number of combinations is the product of group sizes; tests use one or two small shapes.',
  [S + 'udf/descriptor_impl.cpp'], [('pattern construction', S + 'udf/descriptor_impl.cpp record_descriptor_impl argument patterns')])
p('C17', 'Conflicting function definitions are refused when loaded',
  'Reading a descriptor file tells that it could not be opened, that it could not be parsed, or that it was read, as it is. The analysis of descriptor files reports every file that cannot be read under its status, takes nothing from it and goes on with the others; it collects every function of every service and every message, nested ones under their full name, with the files that define and refer to it. Functions conflict exactly when two of them have the same name, whatever their services, packages and files; messages conflict exactly when two files define the same full name (each such message is told, with its files); a reference is not a definition; sets without conflicts are accepted, whatever the order.',
  ['inputs', 'configurations'], 'all sets of descriptor files in any order', 'Conflicts may be between any pair of files in any nesting; tests try a few.',
  [S + 'udf/descriptor/descriptor_analyzer.cpp', S + 'udf/descriptor/descriptor_reader.cpp', S + 'udf/descriptor/validation/message_duplicate_validator.cpp', S + 'udf/descriptor/validation/rpc_duplicate_validator.cpp'],
  [('analysis', S + 'udf/descriptor/descriptor_analyzer.cpp'), ('duplicate detection', S + 'udf/descriptor/validation/rpc_duplicate_validator.cpp')])
p('C18', 'Function descriptors expose what the definition says',
  'Every property a function, record, column, service or package descriptor is built with is returned by the matching accessor, lists in their order; versions are compared by their numbers; configurations, errors, load results and client contexts return the values they were given, and setting one changes no other.',
  ['inputs', 'configurations'], 'all descriptor and configuration contents', 'Swapped members of equal type compile and only show for asymmetric values.',
  [S + 'udf/descriptor_impl.cpp', S + 'udf/plugin_api.cpp', S + 'udf/udf_config.cpp', S + 'udf/enum_types.h', S + 'udf/error_info.cpp', S + 'udf/generic_client_context.cpp'],
  [('descriptors', S + 'udf/descriptor_impl.cpp'), ('configuration', S + 'udf/udf_config.cpp'), ('load result', S + 'udf/error_info.cpp')])
p('C19', 'Column descriptions survive the trip to the client',
  'Converting a table or column description to its wire form and back gives the same description: every attribute present is kept, absent attributes stay absent, and lengths, precisions and nullability are not mixed up. Every column type has a distinct wire type.',
  ['inputs'], 'all column descriptions with any combination of optional attributes', 'Optional attributes are independent, so the combinations multiply, and a forgotten one defaults silently.',
  [S + 'executor/dto/common_column_utils.cpp', S + 'executor/dto/describe_table_utils.cpp', S + 'executor/dto/common_column.h', S + 'executor/dto/describe_table.h'],
  [('to wire', S + 'executor/dto/common_column_utils.cpp to_proto'), ('from wire', S + 'executor/dto/common_column_utils.cpp from_proto')])
p('C20', 'Value types compare and copy all of their content',
  'Two descriptive values (field options, column and table descriptions, allocation records, locators, references) are equal exactly when all of their attributes are equal, inequality is its negation, and equal values hash equally. Constructors and setters store each argument where the matching accessor returns it.',
  ['inputs'], 'all pairs of values of each value type', 'An attribute left out of a comparison matters only for pairs that differ in that attribute alone.',
  [S + 'meta/decimal_field_option.cpp', S + 'meta/character_field_option.cpp', S + 'meta/octet_field_option.cpp', S + 'meta/time_of_day_field_option.cpp', S + 'meta/time_point_field_option.cpp', S + 'executor/dto/common_column.h', S + 'executor/dto/describe_table.h', I + 'lob/lob_reference.h', S + 'executor/batch/batch_executor_option.cpp'],
  [('equality', S + 'meta/decimal_field_option.cpp operator=='), ('accessors', S + 'executor/batch/batch_executor_option.cpp')])
p('C21', 'Errors carry all of their information to the user',
  'An error record keeps its code, message, location and status exactly as given, and its supplemental text (for texts in UTF-8) carries the source location and, when not empty, the stack trace and the additional text, also when that is added later. The public view shows exactly the error it was made from, diagnostics keep their arguments in order, and exceptions report the message, code and status they were raised with.',
  ['inputs', 'histories'], 'all error contents and all orders of additions', 'A lost or stale piece of diagnostic text is not an assertion any functional test makes.',
  [S + 'error/error_info.cpp', S + 'api/impl/error_info.cpp', S + 'executor/diagnostic_record.h', S + 'utils/storage_metadata_exception.h', S + 'plan/plan_exception.h', S + 'executor/sequence/exception.h'],
  [('error record', S + 'error/error_info.cpp'), ('public view', S + 'api/impl/error_info.cpp')])
p('C22', 'Key-value service records and transaction options are faithful',
  'A mapped record made from as many values as names finds for each column name its own value whatever the order and number of columns, compares whole names, and finds nothing for other names. Transaction options keep every setting, return it through the matching accessor, and changing one setting changes no other.',
  ['inputs'], 'all records and options', 'Records with fewer values than names and options differing in one flag are rare inputs.',
  [S + 'api/kvsservice/mapped_record.cpp', S + 'api/kvsservice/transaction_options.cpp'], [('record view', S + 'api/kvsservice/mapped_record.cpp'), ('options', S + 'api/kvsservice/transaction_options.cpp')])
p('C23', 'Request statistics report each counter under its own kind',
  'Counts added for one kind of operation are accumulated and reported under that kind only, a kind nothing was counted for has no value, iteration visits every kind that has a value exactly once with its value and no other, and the duration is the time from the start to the end.',
  ['histories'], 'all sequences of recordings', 'Mixing two counters needs both to be used with different values.', [S + 'request_statistics.cpp', I + 'request_statistics.h'],
  [('counters', S + 'request_statistics.cpp')])
p('C24', 'Large object references keep their kind and identity',
  'A reference made from a locator, an identifier or a pending fetch keeps that origin and identifier through copies, and exactly one kind is set at a time. Equality distinguishes references of different kind or identifier.',
  ['inputs', 'histories'], 'all references and copies', 'Kinds and identifiers combine and are only compared in rare paths.',
  [I + 'lob/lob_reference.h', I + 'lob/lob_locator.h', I + 'lob/blob_reference.h', I + 'lob/clob_reference.h', I + 'lob/lob_reference_kind.h'], [('reference', I + 'lob/lob_reference.h lob_reference')])
p('C25', 'Step states only move forward and compare consistently',
  'The ordering of execution step states is a strict total order consistent with equality and with their life cycle, so that "at least running" style tests mean what they say for every pair of states.',
  ['inputs'], 'all pairs of states', 'Twelve operators over all pairs of enumerators; a wrong operator is visible for few pairs.', [S + 'scheduler/step_state.h'], [('ordering operators', S + 'scheduler/step_state.h')])
p('C26', 'Serialized value headers are unambiguous',
  'The header byte ranges of the value encoding are disjoint, every header value has exactly one meaning, embedded small values cover exactly the range their masks claim, and each entry type has a header of its own.',
  ['inputs'], 'all 256 header bytes', 'An overlap between two ranges is visible only for the values in the overlap.',
  [S + 'serializer/details/value_io_constants.h', S + 'serializer/entry_type.h'], [('header constants', S + 'serializer/details/value_io_constants.h')])
p('C27', 'Numeric helpers are exact for every argument',
  'Rounding a number down or up to a power of two gives the mathematically defined result for every argument for which it can be represented, and only powers of two are told to be such. Subtracting one list from another takes away each element as often as it occurs in the other list but no more often than it is there, and gives the rest in ascending order. Mixing and combining of hash values follow their published definitions.',
  ['inputs'], 'all arguments', 'Wrap-around and multiplicity show only for extreme or repeated arguments.', [S + 'utils/round.h', S + 'utils/subtract_vectors.h', I + 'utils/hash_combine.h', I + 'utils/split_mix64.h'],
  [('rounding', S + 'utils/round.h'), ('subtraction', S + 'utils/subtract_vectors.h')])
p('C28', 'Scoped helpers undo exactly what they did, on every exit',
  'A checkpoint holder takes the checkpoint of its memory resource when it is made and gives back everything allocated since, and nothing older, at the end of its scope however the scope is left, and whenever it is reset before. A lazy checkpoint holder does so only when told: release gives back what was allocated since its checkpoint was set and may be repeated, reset does it once more and forgets the checkpoint, unset only forgets it, its end does nothing, and setting the checkpoint twice is refused. A holder without a resource does nothing. An aligned array has the alignment and at least the size asked for, in a form its allocator accepts, and goes back exactly once by the matching deallocation. Worker information is reported as it was given.',
  ['histories', 'fault_sequences'], 'all allocations in a scope, and all ways of leaving it, including exceptions',
  'Early exits and exceptions at each point are many and leak silently.',
  [S + 'utils/checkpoint_holder.h', S + 'utils/lazy_checkpoint_holder.h', S + 'utils/aligned_unique_ptr.h', S + 'scheduler/thread_info.h'],
  [('checkpoint', S + 'utils/checkpoint_holder.h'), ('lazy checkpoint', S + 'utils/lazy_checkpoint_holder.h'), ('aligned storage', S + 'utils/aligned_unique_ptr.h')])
p('C29', 'Loading function libraries tells every failure, and closes what it does not keep',
  'Loading a directory of function libraries turns every failure into an error result under its own status and with the file concerned, and loads nothing that failed: an empty, missing or improper directory, no settings files in it, a missing or improper directory of dependencies, descriptor files that do not open or do not parse (one result for each), and conflicting functions each end loading before any library is opened; otherwise every settings file of the directory (regular files ending in .ini, in the order of their names) is tried once, whatever became of the others. Settings without a library are passed over. Settings that cannot be read, that lack the switch, or whose switch or security is neither true nor false (in any case of letters), a library switched off, and a library the descriptor of which has a message in conflict (named without the prefix lib) are told and the library is not opened. A library that does not open, lacks one of its two functions, or yields no interface, no factory or no client is told, recorded nowhere and closed exactly once; success is told only when all steps succeeded, and then the library stays open and what it gave is recorded. Unloading, and the end of the loader, closes every library kept exactly once, after letting go of what it gave. Settings are taken as they are given, with an absent or empty transport meaning stream.',
  ['fault_sequences', 'inputs'], 'failures at every step of loading', 'Each failing step needs its own broken input; most never occur in tests.',
  [S + 'udf/udf_loader.cpp', S + 'udf/error_info.cpp', S + 'udf/udf_config.cpp', S + 'udf/plugin_loader.h'],
  [('loading one library', S + 'udf/udf_loader.cpp load_one_plugin'), ('entry points', S + 'udf/udf_loader.cpp create_api_from_handle'), ('settings', S + 'udf/udf_loader.cpp parse_ini'), ('directory', S + 'udf/udf_loader.cpp load')])

# ---- engine level
p('C40', 'Storage errors are never dropped',
  'Every status returned by the storage engine is examined: it is returned, converted to an error, or deliberately tolerated at a documented place. A failed write is never followed by reporting success to the client.',
  ['fault_sequences'], 'a failure at any storage call', 'Each call needs its own injected failure.', [S + 'kvs', S + 'executor/process/impl/ops', S + 'index'], [('status checks', S + 'kvs/transaction.cpp'), ('error conversion', S + 'error/error_info_factory.h')])
p('C41', 'A committed transaction is acknowledged only when its durability condition holds',
  'The commit response is sent once, only after the commit reached the durability level the request asked for (requested, accepted, available, stored), and never after the transaction failed.',
  ['crash_points', 'schedules'], 'all interleavings of commit, durability notification and abort', 'Crash and callback orders cannot be enumerated by tests.', [S + 'commit_common.cpp', S + 'durability_common.cpp', S + 'durability_manager.cpp', S + 'durability_callback.cpp'], [('commit response', S + 'commit_common.cpp'), ('waiting list', S + 'durability_manager.cpp')])
p('C42', 'Secondary indexes always agree with their table',
  'Every insert, update and delete of a row changes each secondary index of the table consistently within the same transaction, including keys that change and rows that are skipped on conflict.',
  ['histories'], 'all sequences of data changes on tables with any number of secondary indexes', 'Key-changing updates on several indexes multiply.', [S + 'index/index_accessor.cpp', S + 'executor/process/impl/ops/write_existing.cpp', S + 'executor/wrt'], [('index maintenance', S + 'executor/process/impl/ops/details/write_secondary_target.cpp')])
p('C43', 'Every request receives exactly one response',
  'Each client request ends with one response, success or error, on every path including cancellation, exceptions and shutdown.',
  ['schedules', 'fault_sequences'], 'all request kinds, failures and interleavings', 'A path without or with a second response needs a specific failure order.', [S + 'api/impl/service.cpp', S + 'executor/executor.cpp'], [('responses', S + 'api/impl/service.cpp reply')])
p('C44', 'Keys encode so that byte order is value order',
  'For every type, comparing encoded keys byte by byte gives the order of the values, and the reverse in descending order: integers and decimals are their bytes, most significant first, with the sign turned over; floating point numbers have their sign bit turned over, or all bits when negative, with one zero and one not-a-number; texts are their characters and an end that is less than any character, fixed lengths are filled up, and characters that are the end and values too long are refused; dates, times and object identifiers are numbers. A value that may be missing comes after a flag. Decoding, skipping included, returns what was encoded and takes as many bytes; bytes that cannot come from encoding and reads beyond the end are reported as corruption; nothing is written outside the buffer.',
  ['inputs'], 'all values of all key types', 'Value ranges are unbounded and sign and special values matter.', [S + 'kvs/coder.cpp', S + 'kvs/writable_stream.cpp', S + 'kvs/readable_stream.cpp'], [('encoder', S + 'kvs/writable_stream.h'), ('decoder', S + 'kvs/readable_stream.h')])
p('C45', 'Expressions follow SQL null and overflow rules for every type pair',
  'Every operator and conversion accepted by the compiler has an implementation for each operand type pair, propagates null as defined, and reports overflow or lost precision as an error instead of a wrong value.',
  ['inputs'], 'all operand types and values', 'Type pairs times special values.', [S + 'executor/expr'], [('evaluator', S + 'executor/expr/evaluator.cpp')])
p('C46', 'No request is executed without authorization',
  'Every statement is checked against the privileges of its user on every object it touches before any of its effects, and a denied request has no effect.',
  ['inputs', 'programs'], 'all statements and users', 'Statement kinds times privileges.', [S + 'auth', S + 'api/impl/database.cpp'], [('authorization', S + 'auth/authorize_helper.cpp')])
p('C47', 'Concurrent scheduling runs every task once and finishes every job',
  'Every task submitted runs exactly once, a job finishes only after all its tasks ended, and its completion callback runs exactly once.',
  ['schedules'], 'all interleavings of workers', 'Interleavings.', [S + 'scheduler', S + 'request_context.cpp'], [('job context', S + 'scheduler/job_context.h'), ('task', S + 'scheduler/flat_task.cpp')])
p('C48', 'Data definition is atomic with respect to running transactions',
  'A definition change excludes transactions using the table, releases its storage lock on every path, and leaves catalog and storage consistent when it fails half way.',
  ['schedules', 'crash_points'], 'all interleavings and failures', 'Crash points between catalog and storage steps.', [S + 'storage', S + 'executor/common'], [('storage lock', S + 'storage/storage_manager.cpp')])
p('C49', 'Stored definitions survive restart unchanged',
  'Every table, index and sequence definition written to storage is restored identically on recovery, for every column type, default value and option.',
  ['crash_points', 'inputs'], 'all definitions', 'Attribute combinations.', [S + 'recovery', S + 'serializer', S + 'proto/metadata'], [('metadata serializer', S + 'recovery/storage_options.cpp')])
p('C50', 'Query results equal the relational semantics of the plan',
  'Joins, grouping, aggregation, ordering, limits and set operations return exactly the rows the relational definition prescribes, for every data distribution and degree of parallelism.',
  ['inputs', 'schedules'], 'all data and plans', 'Data distributions are unbounded.', [S + 'executor/process', S + 'executor/exchange'], [('operators', S + 'executor/process/impl/ops')])
p('C51', 'Built-in functions are registered once and consistently',
  'Every built-in scalar, aggregate and table-valued function has a unique identifier, is registered with the compiler and with the runtime under the same signature, and is found at run time.',
  ['programs'], 'all built-in functions', 'Hundreds of registrations used one at a time.', [S + 'executor/function'], [('registration', S + 'executor/function/builtin_functions.cpp')])

p('C52', 'Storages are found, named and locked consistently by concurrent threads',
  'A storage entry is found under its number and its name until it is removed, names and keys lead to each other, a storage reserved for deletion frees its name but is listed until removed, clearing leaves nothing behind, and surrogate ids are never handed out twice. '
  'Exclusive and shared locks on a storage exclude each other however threads interleave: each is taken and released in one atomic step, releasing what is not held is refused, a lock over several storages takes all or none, holds each until it is released and then gives back exactly what it took, and a transaction counts each storage it references once and uncounts it at its end.',
  ['schedules', 'histories'], 'all names, numbers and lock states, other threads acting between any two steps', 'Tests lock one storage at a time from one thread.',
  [S + 'storage'], [('registry', S + 'storage/storage_manager.cpp'), ('locks', S + 'storage/unique_lock.cpp'), ('references', S + 'storage/reference_scope.cpp')])
p('C53', 'Granted actions decide what a user may do',
  'A set of granted actions allows exactly the actions granted and not revoked, the control action stands for every action and is revoked only as such, grants are kept per user and forgotten with their last action, and a storage allows an operation to a user exactly when each action it needs is granted to that user or to the public.',
  ['inputs', 'histories'], 'all users and combinations of granted, revoked and requested actions', 'Tests try a few combinations of grant and revoke.',
  [S + 'auth', S + 'storage/storage_manager.h'], [('action sets', S + 'auth/action_set.cpp'), ('users', S + 'auth/authorized_users_action_set.cpp'), ('storages', S + 'storage/storage_manager.h')])
p('C54', 'A transaction ends once, belongs to one worker at a time and never goes back',
  'However threads interleave, a transaction decides once whether it commits or aborts, it commits only while no task uses it, no task begins on an ending transaction and tasks are counted exactly. It belongs to one worker at a time: the first takes it, others are sent to the owner, the last use sets it free. Its life only moves forward and an aborted or finished transaction stays so. '
  'The first error reported for a transaction is kept and aborts it if it is active; later errors change nothing. Locks and references on storages are let go when it commits, aborts or is dropped, and its large objects are released exactly once.',
  ['schedules', 'histories'], 'all states and numbers of users, other threads acting between any two steps', 'Tests end one transaction from one thread.',
  [S + 'transaction_context.cpp', S + 'transaction_state.cpp', S + 'termination_state.h'], [('termination and workers', S + 'transaction_context.cpp'), ('life', S + 'transaction_state.cpp')])
p('C55', 'Storage engine answers reach the caller; what it lent is given back once',
  'Every status of the storage engine is reported under its own meaning and only success as success: reads, writes, deletions, scans, sequences, commits and aborts ask the engine once, with the very handles, keys, values, bounds and options that were given, and store a result exactly when there is one. '
  'Every storage, scan, transaction, strand and database handle taken from the engine is given back exactly once; a transaction still open is aborted first, a strand gives back only its own handle, a lent database is left open, and a commit waits for its answer whether it comes at once or later.',
  ['inputs', 'faults'], 'every answer of the storage engine to every call', 'The in-memory engine of the tests never fails most calls.',
  [S + 'kvs'], [('statuses', S + 'kvs/error.cpp'), ('entries', S + 'kvs/storage.cpp'), ('transactions', S + 'kvs/transaction.cpp'), ('database', S + 'kvs/database.cpp')])
p('C56', 'Who commits is told once, and told durable only when it is',
  'A transaction waiting to become durable is told exactly once, when the durability marker reached covers its own and not before, in the order of the markers, or when its client went away; all others keep waiting, a request is never lost from the waiting list nor told from two threads, and whoever uses the list gives it back. '
  'The marker reached never goes back and is taken at once only when nobody waits. The answer says what was decided: an error for a failed or abandoned commit, else the level reached; the state of the transaction says the same; and the request ends after its answer.',
  ['schedules', 'histories'], 'all markers and waiting requests, other threads acting between any two steps', 'Tests commit one transaction and wait.',
  [S + 'durability_manager.cpp', S + 'durability_common.cpp'], [('waiting list', S + 'durability_manager.cpp'), ('answer', S + 'durability_common.cpp')])
p('C57', 'A request ends once, after its tasks; a task runs inside its transaction or not',
  'Every task but the last is counted from its submission to its end; a request ends only when no task is left and it is ready, its end is submitted by one thread only and told exactly once, before it is forgotten. A task that yields is run again, one that proceeds goes on, rows are written once unless the client went away, and a load is repeated until it is done or failed. '
  'A task of a transaction counts as its user exactly while it runs; it is not run on a transaction that ends; the last user of a transaction to be aborted aborts it; and a task that fails inside ends its request with an error and leaves its transaction and its worker.',
  ['schedules', 'fault_sequences'], 'all outcomes and orders of tasks, other threads acting between any two steps', 'Tests run requests whose tasks succeed in order.',
  [S + 'scheduler'], [('tasks', S + 'scheduler/flat_task.cpp'), ('counting', S + 'scheduler/task_scheduler.cpp'), ('job', S + 'scheduler/job_context.cpp')])
p('C58', 'A request to commit is decided once and told what became of it',
  'The engine is asked to commit a transaction at most once, by one task, and only while no request uses it and it does not end already; a later request, or one for a transaction in use, is refused and told why, and a transaction in use is aborted when its last user leaves. '
  'The client is told once, of the kind it asked for (or the settings say): accepted as soon as asked, stored only when the durability marker reached covers the marker of its commit, else it waits for that; a refused commit is told with an error, its transaction is aborted, and it is never told as done. '
  'The transaction is forgotten on commit only if asked and committed; tables it held are let go after the answer; nothing is told while the server stops; an abort is done once, at once when nobody uses the transaction, else later.',
  ['histories', 'schedules', 'fault_sequences'], 'all options, settings, markers and outcomes of the engine', 'Tests commit transactions that succeed and wait.',
  [S + 'executor', S + 'scheduler'], [('commit', S + 'executor/executor.cpp'), ('users', S + 'transaction_context.cpp'), ('answers', S + 'durability_common.cpp')])
p('C59', 'A statement runs only if its user may and its transaction and tables can',
  'A query or a statement that writes is run for a standard user with a name only if for every table it uses the action it takes is granted to that user or to all; only while its transaction is active; and only if none of its tables is being defined by another or is gone. '
  'Otherwise it is told once, with an error that says why, nothing of it is run, no table stays held, and its transaction is aborted unless it was inactive. The tables of a running statement are held from its start to its end, however it ends. A definition is run at once, told once, and aborts its transaction when it fails.',
  ['inputs', 'histories'], 'all users, grants, states of the transaction and of the tables', 'Tests try a few grants and tables.',
  [S + 'executor', S + 'auth', S + 'storage'], [('statements', S + 'executor/executor.cpp'), ('grants', S + 'auth/authorized_users_action_set.cpp'), ('tables', S + 'storage/storage_manager.cpp')])
p('C60', 'A handle leads to what it was given for, in its session, until given back',
  'A handle of a transaction or a prepared statement finds exactly what it was made for, only together with the session it was made in (or none), and nothing once it is given back; giving back an unknown handle, or one of another session, is refused and changes nothing. Transactions never share a handle. '
  'When a session ends all its transactions and statements are let go, and only those. What failed to begin or to be prepared is not kept; nothing begins before the database is open, or over tables that do not exist. '
  'Tables are listed to, and statements explained to, only who may do something with the tables, or administers; the tables of the system are listed to nobody.',
  ['inputs', 'histories'], 'all handles, sessions, users and grants', 'Tests use one or two sessions with valid handles.',
  [S + 'api/impl'], [('handles', S + 'api/impl/database.cpp'), ('transactions', S + 'api/impl/transaction_store.cpp'), ('statements', S + 'api/impl/statement_store.cpp')])

p('C61', 'A dropped table is deleted once, and only when nobody uses it any more',
  'What a dropped table or index stored is deleted from the engine, under the key it is stored by, once no transaction refers to it any more; an index waits for the users of its table. What is still in use, or was not dropped, stays as it is. '
  'A deletion the engine refuses is tried again at the next round and does not keep other tables from being deleted; what was deleted is forgotten and not deleted again. While the server is stopping nothing is deleted. '
  'A new table of the same name is left alone. A table dropped before the server was restarted is deleted as well. The result lists the names of what was deleted.',
  ['histories', 'faults', 'inputs'], 'all sets of dropped and used tables and outcomes of the engine', 'Tests drop one table that nobody uses and delete it at once.',
  [S + 'storage'], [('deletion', S + 'storage/maintenance_storage.cpp'), ('entries', S + 'storage/storage_manager.cpp')])

p('C62', 'A request to begin is answered once, when the transaction may start or cannot',
  'A request to begin a transaction is answered exactly once. A short transaction starts at once; a long or read-only one is answered only when the engine lets it start, or when its client is gone, and then it is reported as cancelled. Only a transaction that may start becomes active, and its handle leads to it. '
  'A begin that fails tells why: a table that does not exist, too many transactions, or whatever the engine said; no handle is given then. '
  'What is asked for is kept: kind, label, session, parallelism. A long transaction writes the tables it names together with all their indices, may read what it writes as soon as it limits what it reads, reads each table once, and also reserves the tables of the system when it changes definitions; a short one reserves nothing.',
  ['inputs', 'schedules', 'faults'], 'all options, sessions and answers of the engine, task by task', 'Tests begin a few transactions that may start immediately.',
  [S + 'api/impl'], [('begin', S + 'api/impl/database.cpp')])

p('C63', 'A sequence goes step by step within its bounds, and commits keep its last value',
  'The first value of a sequence is its initial one and every next value is one step on, whatever its bounds, steps and values, also where the distance to a bound exceeds the range of the numbers. A step never leaves the bounds: at its end a sequence starts over at the other end if it cycles, and is refused, unchanged, if not. Each value has a version of its own. '
  'A commit gives the engine the last value of each sequence the transaction used, once, and of no other. A registered sequence goes on from what the engine keeps, or from its initial value when nothing is kept.',
  ['inputs', 'histories'], 'all bounds, steps, values and versions', 'Tests count a few small steps; overflow needs bounds that are far apart.',
  [S + 'executor/sequence'], [('values', S + 'executor/sequence/sequence.cpp'), ('registration and commit', S + 'executor/sequence/manager.cpp')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    for d in P:
        assert len(d['title']) <= 80, d['id']
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P))
