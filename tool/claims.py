HOOKS = None
AI = 'abstract interpretation of the type-checked AST (path-sensitive value-flow summaries, inductive loop transitions)'
CLAIMS = {
 'C01': (AI, 'Every switch/function from an enumeration to text is summarised over all enumerators; texts are compared for presence, uniqueness and agreement of the paired from/to functions.'),
 'C02': (AI, 'The mapping is summarised for all enumerators of both enumerations and compared by name and by number with the protocol descriptor.'),
 'C03': (AI, 'Every abstract transition of the scanning loop is compared with RFC 3629 on the whole partition of (bytes ahead, bytes left); all element accesses are bounds obligations.'),
 'C19': (AI, 'The composition of the two conversions is summarised and its result compared structurally with its input, attribute by attribute, on every path.'),
 'C20': (AI, 'Comparison operators, accessors, setters and constructors of the value classes are summarised and compared with the member list of the class.'),
 'C25': (AI, 'Every state pair of the step state machine is enumerated against the declared order.'),
 'C26': (AI, 'Header constants are read from the source and checked for disjointness and agreement of reader and writer.'),
 'C12': (AI, 'Lock sets, condition-variable waits and notifications of every method are read off the path summaries; each wait is checked to re-test the condition under the lock, each change of the condition to be ordered before a notification a waiter cannot miss.'),
 'C14': (AI, 'Lock sets at every access of the shared members, effect of each operation on the queue on every path, and wait/notify discipline, all over arbitrary initial contents.'),
 'C15': (AI, 'Every append and fetch is summarised over an arbitrary record and position; the stored alternative, the returned value and the cursor advance are compared with the declared type of the operation.'),
 'C04': (AI, 'Every end state of the detector is compared with the classification by lead and continuation bytes on all cells of (bytes ahead, bytes left); the validator is compared step by step and on all short strings; element reads are bounds obligations.'),
 'C05': (AI, 'Bit provenance: for each length up to the bound every output unit is a function of the input bits it is made of, evaluated on all their values against RFC 4648; the validity test is compared on all short texts by character classes and step by step on any text.'),
 'C06': (AI, 'The parser is summarised for every length up to the bound with byte masks, each pair of digits checked on all 484 values, plus one generic loop step for any length; the printer is summarised for all option combinations with every byte value.'),
 'C07': (AI, 'Every abstract transition of the conversion loop is compared with the designated treatment of the byte, for all 256 values.'),
 'C08': (AI, 'One generic loop step and exit of each helper on an arbitrary string, and all short strings by byte partition, are compared with the definition.'),
 'C09': (AI, 'Contracts over texts and binaries of arbitrary length and bytes are summarised path by path; the inline and the out of line representation share their storage in the analysis as in the code, and memory is kept as text of symbolic length, so contents, ownership and bounds are decided for all lengths.'),
 'C10': (AI, 'Contracts over buffers of arbitrary capacity, alignment and contents are summarised path by path; memory is kept as text of symbolic length, so contents, ownership and bounds of every copy are decided for all sizes.'),
 'C11': (AI, 'Contracts over pages at any address with any part in use, and over short histories of the resources with arbitrary sizes and alignments, are summarised path by path; address arithmetic is exact modulo the word size, and the pool is replaced by one that hands out any page apart from those in use.'),
 'C13': (AI, 'Contracts over arbitrary points, workers and clock readings are summarised path by path through the stop watch; copies, moves and resets of the use counter are summarised for arbitrary tokens and compared with shared ownership; recording is checked to happen under the lock.'),
 'C27': (AI, 'Rounding is evaluated over bit vectors with the positions of the highest and the lowest bit fixed and all bits between unknown, which covers all 2^64 arguments; list subtraction is checked by contracts over arbitrary elements; the constexpr mixing functions are folded on arguments that tell apart every constant, shift and operator.'),
 'C17': (AI, 'Contracts over descriptors with arbitrary names, nesting, files and outcomes of reading are summarised path by path through analysis and validation; the protocol buffer messages are modelled from their definition; the outcomes of reading a file are decided on every path of the reader.'),
 'C18': (AI, 'Contracts over arbitrary names, numbers, kinds and parts are summarised path by path through constructors, setters, accessors and comparisons; every path has to satisfy the contract.'),
 'C24': (AI, 'Contracts over arbitrary references, locators, identifiers and providers are summarised path by path through constructors, accessors and comparison; every path has to satisfy the contract.'),
 'C21': (AI, 'Contracts over arbitrary codes, texts and orders of additions are summarised path by path through the error record, its public view, the diagnostic record and the exceptions; every path has to satisfy the contract.'),
 'C22': (AI, 'Contracts over arbitrary options and over records of up to three columns with arbitrary names and values are summarised path by path; every path has to satisfy the contract.'),
 'C23': (AI, 'Contracts over arbitrary kinds, amounts and times are summarised path by path through counters and statistics; every path has to satisfy the contract.'),
 'C28': (AI, 'Contracts over scopes with arbitrary allocations in them, left at their end, by an exception or after requests, are summarised path by path through the holders and the memory resource behind them; allocations of aligned arrays are compared with their deallocations on every path.'),
 'C29': (AI, 'Contracts in which the file system, the dynamic loader, the settings and the descriptors give any outcome are summarised path by path through the loader; what was opened, closed, recorded and told is compared on every path. Headers of the missing SDK it includes are replaced by stubs that only declare.'),
 'C52': (AI, 'Contracts over storages and locks in any state, in which other threads may act between any two atomic steps, are summarised path by path through the registry and its locks; the atomic steps of every path are compared with the transitions allowed from the state they found. Concurrent containers and missing SDK headers are replaced by stubs with their documented behaviour.'),
 'C53': (AI, 'Contracts over any users and any combination of granted, revoked and requested actions are summarised path by path through the action sets, the user map and the storage entry.'),
 'C54': (AI, 'Contracts over transactions in any state, in which other threads may act between any two atomic steps, are summarised path by path; the atomic steps of every path are compared with the transitions allowed from the state they found. Headers of missing packages are replaced by stubs.'),
 'C55': (AI, 'Contracts in which each call of the storage engine returns any status and, on success, any result are summarised path by path through the layer over it; what was asked, answered and given back is compared on every path. The header of the storage engine is replaced by a stub with its signatures.'),
 'C56': (AI, 'Contracts over waiting requests with any markers, clients that went away and other threads acting between any two atomic steps are summarised path by path through the waiting list and the answer; every path has to satisfy the contract. Concurrent containers and missing SDK headers are replaced by stubs with their documented behaviour.'),
 'C57': (AI, 'Contracts over requests whose tasks have any outcome and are run one by one, with other threads acting between any two atomic steps, are summarised path by path through task, job and transaction; a scheduler that only keeps what it is given stands in for the workers. Headers of missing packages are replaced by stubs.'),
    'C58': (AI, 'Contracts over commit_async, its tasks and abort with all options, settings, markers and engine outcomes are summarised path by path; the storage engine is an arbitrary but scripted answer, the workers a scheduler that only keeps what it is given, and log messages guarded by verbosity are off.'),
    'C59': (AI, 'Contracts over execute_async_on_context with a statement of two tables, any user, any grants and any state of transaction and tables are summarised path by path; compiled plans and the definition of tables are replaced by stand-ins, log messages guarded by verbosity are off.'),
    'C60': (AI, 'Contracts over the stores of transactions and statements behind the database object, with any sessions, handles, users and grants, are summarised path by path; compiling statements, beginning transactions in the engine and the catalog of tables are replaced by stand-ins.'),
 'C61': (AI, 'Contracts over the storage manager with any entries, references and outcomes of the engine are summarised path by path through the round of maintenance; the engine and the catalog of tables are replaced by stand-ins. At most two dropped tables at a time.'),
 'C62': (AI, 'Contracts over requests to begin with any options, sessions and answers are summarised path by path, the tasks being run one by one by a stand-in for the scheduler; the engine and the catalog (three tables, four indices) are stand-ins.'),
 'C63': (AI, 'Contracts over sequences are summarised path by path. Symbolic bounds are within a million and steps within a thousand; the ends of the range of 64-bit numbers are taken as concrete cases. One thread; the engine is a stand-in.'),
 'C44': (AI, 'Contracts over numbers none of whose bits is known are summarised path by path through encoder and decoder, which are followed bit by bit through shifts, masks, carries and copies of memory; texts have up to three characters, decimals 1, 2, 8, 9, 16 or 17 bytes. A refutation names bytes for which the path is taken. The library of decimal numbers and headers of missing packages are replaced by stubs.'),
 'C16': (AI, 'The loop that builds the patterns is summarised as an inductive step and normalised to a comprehension, which is compared with the product of the groups.'),
}
ENG = 'the code behind it cannot be parsed here: its headers come from packages (takatori, yugawara, sharksfin, mizugaki, limestone) that are not installed, so no type-checked program exists to analyse; '
NA = {
 'C40': ENG + 'a textual rule over call sites would not know which calls return a status',
 'C41': ENG + 'and the order of durability marker, commit request and acknowledgement is a fact about runtime histories of an external storage engine',
 'C42': ENG + 'and agreement of index and table contents is a fact about stored data over histories',
 'C43': ENG + 'and exactly-once response depends on which scheduled task runs to completion at run time',
 'C45': ENG + 'the evaluator works on takatori trees and decimal values',
 'C46': ENG + 'the dispatcher is part of an endpoint built on the missing packages',
 'C47': ENG + 'and progress of the scheduler quantifies over schedules of tateyama workers',
 'C48': ENG + 'and atomicity quantifies over interleavings of transactions in the storage engine',
 'C49': ENG + 'and survival across restart depends on stored bytes',
 'C50': ENG + 'and result equivalence quantifies over data no static argument bounds',
 'C51': ENG + 'registration tables refer to yugawara declarations',
}
