"""Property definitions: the single source of properties.jsonl and of the manifest's level notes."""
PROPS = {}


def prop(pid, title, statement, over, qtext, why, files, mech, note, technique):
    assert len(title) <= 80, (pid, len(title))
    PROPS[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note,
                      technique=technique)


Q = 'omniscidb/QueryEngine/'
prop('C01', 'Filters and projected expressions give the SQL answer for every row',
     'A query that filters rows and computes expressions returns exactly the rows whose condition is true and, in each, exactly the value SQL defines for every expression: arithmetic, comparisons, three-valued logic, CASE, IN, casts, string and date/time operations over every column type, with NULL propagated or absorbed as SQL says. '
     'The answer does not depend on how the table is split into fragments, and evaluating a query touches no memory outside its inputs and outputs.',
     ['inputs', 'configurations'],
     'every table content, NULL placement, fragmentation and every expression built from the supported operators, nested to any depth',
     'the number of operator/type/null combinations is unbounded and each pair has its own generated code; tests list single expressions over a few rows.',
     [Q + 'IRCodegen.cpp', Q + 'ArithmeticIR.cpp', Q + 'LogicalIR.cpp', Q + 'CompareIR.cpp', Q + 'CastIR.cpp', Q + 'CaseIR.cpp', Q + 'InValuesIR.cpp', Q + 'StringOpsIR.cpp', Q + 'DateTimeIR.cpp', Q + 'RuntimeFunctions.cpp', 'omniscidb/QueryBuilder/QueryBuilder.cpp'],
     [('null handling in generated code', Q + 'RuntimeFunctions.cpp DEF_*_NULLABLE'), ('filter evaluation', Q + 'NativeCodegen.cpp'), ('expression building and typing', 'omniscidb/QueryBuilder/QueryBuilder.cpp')],
     'Random tables and expression trees run through builder, optimizer, code generator and executor; whole results are compared with an independent evaluator, under AddressSanitizer and UBSan.',
     'reference-evaluator oracle over generated queries run by the real engine, ASAN+UBSAN')
prop('C02', 'Aggregates and grouping give the SQL answer for every input',
     'A query that groups rows returns one row per distinct combination of group keys present in its input, NULL being a key of its own, and every aggregate of a group equals its mathematical definition over exactly the rows of the group, NULL arguments skipped. '
     'Approximate aggregates stay within their documented error; aggregates over no rows give 0 for counts and NULL otherwise. '
     'This holds whatever the key types and ranges, the number of groups, the order of rows and the split into fragments.',
     ['inputs', 'configurations'],
     'every table content, combination of keys and aggregates, key range, fragmentation and filter',
     'hash layout, key compaction, slot widths and reduction strategy are chosen from data ranges, so each data distribution runs different code; tests sample a few distributions.',
     [Q + 'GroupByRuntime.cpp', Q + 'RuntimeFunctions.cpp', Q + 'ResultSetReduction.cpp', Q + 'ResultSetReductionJIT.cpp', Q + 'ExpressionRange.cpp', 'omniscidb/ResultSet/QueryMemoryDescriptor.cpp', 'omniscidb/ResultSet/ResultSetIteration.cpp'],
     [('perfect and baseline group-by hash', Q + 'GroupByRuntime.cpp'), ('partial aggregate reduction', Q + 'ResultSetReduction.cpp'), ('layout from value ranges', Q + 'ExpressionRange.cpp')],
     'Random tables and group-by pipelines run through the real engine; whole results are compared with an independent evaluator, under AddressSanitizer and UBSan.',
     'reference-evaluator oracle over generated queries run by the real engine, ASAN+UBSAN')
prop('C03', 'Equi-joins return exactly the matching row combinations',
     'An inner join of two tables on equality of a column returns every pair of rows whose keys are equal and no other pair, with the multiplicity of duplicates; a left join additionally returns each unmatched left row once with NULLs on the right. '
     'NULL keys match nothing. '
     'Every query finishes, whatever the number of fragments and the order in which their kernels run.',
     ['inputs', 'configurations', 'schedules'],
     'every pair of tables, integer or dictionary string key column with any duplicates and NULLs, and any fragmentation of both sides',
     'one-to-one, one-to-many and baseline hash tables are selected from the data; tests cover a few shapes, and hangs depend on kernel scheduling.',
     [Q + 'JoinHashTable/PerfectJoinHashTable.cpp', Q + 'JoinHashTable/BaselineJoinHashTable.cpp', Q + 'JoinHashTable/Runtime/HashJoinRuntime.cpp', Q + 'IRCodegen.cpp', Q + 'ColumnFetcher.cpp'],
     [('hash table build and probe', Q + 'JoinHashTable/Runtime/HashJoinRuntime.cpp'), ('whole-column fetch for the build side', Q + 'ColumnFetcher.cpp getAllTableColumnFragments')],
     'Random pairs of tables are joined by the real engine and whole results compared with a nested-loop evaluator; a watchdog reports queries that do not finish.',
     'reference-evaluator oracle over generated joins run by the real engine, hang watchdog, ASAN+UBSAN')
prop('C04', 'Ordering, limit and offset return exactly the requested slice',
     'The rows of an ordered query are a permutation of the unordered result in non-decreasing order of the sort keys, each key ascending or descending with NULLs first or last as asked. '
     'Limit and offset return exactly the requested consecutive slice of such an order.',
     ['inputs', 'configurations'],
     'every result content (projection or aggregation), key list, direction, null position, limit and offset',
     'several sort algorithms (top-n heap, columnar, parallel merge) are chosen from the query and sizes; tests sample a few.',
     [Q + 'ResultSetSort.cpp', 'omniscidb/ResultSet/ResultSet.cpp', Q + 'SpeculativeTopN.cpp', Q + 'RelAlgExecutor.cpp'],
     [('comparator and permutation', Q + 'ResultSetSort.cpp'), ('speculative top-n', Q + 'SpeculativeTopN.cpp')],
     'Each returned sequence is checked to be a slice of a valid order of the reference result, under AddressSanitizer and UBSan.',
     'order/permutation monitor against a reference evaluator over generated queries, ASAN+UBSAN')
prop('C05', 'Window functions give the SQL answer in every partition',
     'row_number, rank, dense_rank, percent_rank, ntile, lag, lead, first_value, last_value and the aggregates over a window return for every row the value defined by its partition, ordering and null placement, with one output row per input row. '
     'The answer is the same whatever the input order and fragmentation.',
     ['inputs', 'configurations'],
     'every table content, list of integer or dictionary string partition keys, sort keys with direction and null position, and function arguments',
     'partition contents, ties and null positions combine without bound; tests check a few fixed tables.',
     [Q + 'WindowContext.cpp', Q + 'WindowFunctionIR.cpp', Q + 'RelAlgExecutor.cpp'],
     [('partitioning and ordering', Q + 'WindowContext.cpp compute/computePartition'), ('aggregate state per partition', Q + 'WindowFunctionIR.cpp')],
     'Random tables and window expressions run through the real engine; whole results are compared with an independent evaluator.',
     'reference-evaluator oracle over generated window queries run by the real engine, ASAN+UBSAN')


SD = 'omniscidb/StringDictionary/'
prop('C11', 'String dictionary: ids and strings form a stable one-to-one map',
     'Every string added to a dictionary gets one id, every id returns exactly the bytes that were added under it, and the same string always gets the same id, however strings are added (one by one, in bulk, in parallel, into an empty or a grown dictionary, into a dictionary nested on another one). '
     'Ids are dense, earlier ids and strings never change when the dictionary grows, and two dictionaries compare equal exactly when they hold the same strings under the same ids. '
     'A request that would exceed the id range of the requested type is refused and leaves what was stored before unchanged.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of additions (any strings up to the length limit, any batch sizes and id widths, any nesting depth and growth of the base after nesting)',
     'StringDictionaryTest adds a few consecutive decimal strings; collisions, rehash points, growth of the payload, nested generations and refused batches depend on sizes and contents no fixed test enumerates.',
     [SD + 'StringDictionary.cpp', SD + 'StringDictionary.h'],
     [('hash table with linear probing and rehash on load factor', SD + 'StringDictionary.cpp increaseHashTableCapacity/computeBucket'),
      ('offset map and payload growth', SD + 'StringDictionary.cpp appendToStorage*/checkAndConditionallyIncrease*'),
      ('base dictionary generations', SD + 'StringDictionary.h base_dict_/base_generation_')],
     'Every answer of every public lookup is compared with a reference map kept by the harness, under AddressSanitizer and UBSan; held on the executions produced, no claim beyond them.',
     'reference-model monitor over random histories, ASAN+UBSAN')
prop('C12', 'String dictionary searches return exactly the matching ids',
     'For every dictionary content and every pattern, the LIKE, case-insensitive LIKE, regular-expression, equality and ordering searches return exactly the set of ids whose strings satisfy the predicate, each once, restricted to the requested generation. '
     'A search returns the same answer whether or not an identical search ran earlier and also after strings have been added since. '
     'An unsupported comparison operator is reported rather than answered.',
     ['inputs', 'histories'],
     'every dictionary content, pattern, escape character, comparison operator and generation, and every interleaving of searches with additions',
     'existing tests run a handful of literal patterns on one content; result caches and the sorted-order cache make answers depend on the history of earlier searches and additions.',
     [SD + 'StringDictionary.cpp', 'omniscidb/Utils/StringLike.cpp', 'omniscidb/Utils/Regexp.cpp'],
     [('search result caches and their invalidation on growth', SD + 'StringDictionary.cpp like_cache_/regex_cache_/equal_cache_/compare_cache_'),
      ('sorted order cache with binary search', SD + 'StringDictionary.cpp getCompare/buildSortedCache/mergeSortedCache')],
     'Answers are compared with a brute-force scan by an independent matcher; held on the executions produced.',
     'brute-force oracle over random contents and search/add histories, ASAN+UBSAN')
prop('C13', 'Dictionary translation maps each id to the same string or reports absence',
     'Translating ids between dictionaries (building a translation map, computing a union or an intersection of transient additions, populating arrays of ids) sends an id to the id of the same string in the destination, and to the documented invalid marker exactly when the destination lacks that string. '
     'The reported number of untranslated strings is the number of invalid markers, and the result does not depend on how many threads built it. '
     'Source dictionaries are not modified.',
     ['inputs', 'histories', 'configurations'],
     'every pair of dictionaries, generation cut-offs, nesting relation and thread count',
     'the existing tests use one pair of small dictionaries, where the parallel reduction and the nested-base paths never differ from the trivial ones.',
     [SD + 'StringDictionary.cpp', SD + 'StringDictionary.h'],
     [('translation map construction', SD + 'StringDictionary.cpp buildDictionaryTranslationMap'),
      ('parallel reduction of untranslated counts', SD + 'StringDictionary.cpp')],
     'Whole translation maps are compared with a reference built from the string contents; held on the executions produced.',
     'reference-model monitor over random dictionary pairs, ASAN+UBSAN')
prop('C14', 'A string dictionary shared by threads stays consistent and race free',
     'When threads add, look up, search, copy and translate strings of the same dictionary concurrently, every completed add is visible to every operation that starts after it, each string has exactly one id across all threads, and reads return complete strings. '
     'No such workload contains a data race or memory error.',
     ['schedules', 'histories'],
     'every interleaving of concurrent adds, lookups, searches, copies and translations on one dictionary and on dictionaries nested on it',
     'the existing tests are single threaded at the API.',
     [SD + 'StringDictionary.cpp'],
     [('shared_mutex with re-check after lock upgrade', SD + 'StringDictionary.cpp rw_mutex_')],
     'Recorded call/return histories are checked against a grow-only map specification, and ThreadSanitizer/AddressSanitizer watch the same workload; only interleavings that occurred are decided.',
     'ThreadSanitizer plus history checker against a grow-only map specification')

DM = 'omniscidb/DataMgr/'
prop('C15', 'Buffer pool: pinned chunks stay intact, space is accounted exactly',
     'A buffer obtained from a CPU or GPU buffer pool holds exactly the bytes of the storage (or of its writer) and keeps its content and its place in the pool while it is pinned, whatever other chunks are fetched, allocated, grown, evicted, dropped or cleared. '
     'Segments of a pool never overlap and never exceed its capacity; a request is refused with an out-of-memory error exactly when neither a free run, a run of unpinned chunks nor a new slab can hold it, and a refused or failed request leaves the pool usable with nothing pinned by it. '
     'Dropping a table removes exactly its unpinned chunks, clearing removes every unpinned chunk, and zero-copy data are released with their last user.',
     ['inputs', 'histories', 'crash points', 'configurations'],
     'every sequence of fetches, allocations, writes, growths, releases, drops and clears, every page, slab and pool size, and every point where the storage or the device allocator fails',
     'no test of the stable suite exercises the pool; eviction, slab sizing, growth in place, merging of free segments and failure paths depend on the whole history.',
     [DM + 'BufferMgr/BufferMgr.cpp', DM + 'BufferMgr/Buffer.cpp', DM + 'BufferMgr/CpuBufferMgr/TieredCpuBufferMgr.cpp', DM + 'BufferMgr/GpuBufferMgr/GpuBufferMgr.cpp'],
     [('segment search, slab growth and eviction', DM + 'BufferMgr/BufferMgr.cpp findFreeBuffer/evict/removeSegment'),
      ('growth of a buffer in place or by moving', DM + 'BufferMgr/BufferMgr.cpp reserveBuffer'),
      ('fetch through the pool hierarchy', DM + 'BufferMgr/BufferMgr.cpp getBuffer/fetchBuffer')],
     'The real pools run random histories with injected faults; content, pins, layout and accounting are compared with a model after every call under ASAN+UBSAN.',
     'model-based monitor of pool histories with fault injection, ASAN+UBSAN')
prop('C16', 'Buffer pools shared by threads are race free and lose no memory',
     'When threads fetch, allocate, release and drop buffers of one pool concurrently, each of them sees the right content in every buffer it holds until it releases it, a chunk is fetched from the storage by one thread at a time, and a request waiting for another thread to fetch a chunk ends whether that fetch succeeds or fails. '
     'After everything is released all memory of the pool can be reused, and no such workload contains a data race, a deadlock or a memory error.',
     ['schedules', 'histories', 'crash points'],
     'every interleaving of fetches, allocations, releases, evictions and drops on one pool, including fetches that fail',
     'no test of the stable suite uses a pool from several threads.',
     [DM + 'BufferMgr/BufferMgr.cpp', DM + 'BufferMgr/Buffer.h'],
     [('per-chunk condition variables for fetches in progress', DM + 'BufferMgr/BufferMgr.cpp in_progress_buffer_cvs_'),
      ('lock order sized_segs_mutex_ then chunk_index_mutex_', DM + 'BufferMgr/BufferMgr.cpp')],
     'Threads run random workloads with injected delays and failures under ThreadSanitizer and AddressSanitizer; content, layout and reclaimable memory are checked; only interleavings that occurred are decided.',
     'ThreadSanitizer/ASAN stress with content, layout and quiescence monitors')
prop('C17', 'Chunk statistics bound the data exactly',
     'The minimum, maximum and null flag kept for a chunk are exactly those of the non-null values fed to it, for every column and array element type, whether values arrive raw, encoded, one by one, in parallel batches or by merging, copying, assigning, saving and restoring statistics of other chunks. '
     'Null and null-array markers never count as values, a chunk without values has an empty range, dates that do not fit their encoding are refused, and statistics computed on demand are computed once and equal those computed eagerly.',
     ['inputs', 'histories'],
     'every sequence of statistic updates over every type and encoding width, and every batch size',
     'EncoderTest feeds short fixed vectors through one path; narrow encodings, parallel reduction of large batches, merged and restored statistics are not covered.',
     [DM + 'NoneEncoder.h', DM + 'FixedLengthEncoder.h', DM + 'DateDaysEncoder.h', DM + 'ArrayNoneEncoder.h', DM + 'FixedLengthArrayNoneEncoder.h', DM + 'ChunkMetadata.h', DM + 'Encoder.cpp'],
     [('statistics of encoded batches', DM + 'FixedLengthEncoder.h updateStatsEncoded'), ('merging', DM + 'ChunkMetadata.h mergeStats')],
     'Statistics are compared with those of the values after every step of random update histories, under ASAN+UBSAN.',
     'reference-model monitor of statistic histories, ASAN+UBSAN')

QE = 'omniscidb/QueryEngine/'
SH = 'omniscidb/Shared/'
prop('C18', 'Calendar arithmetic agrees with the proleptic Gregorian calendar',
     'Extracting a date part, truncating to a unit, adding an interval and taking a difference of instants give the answer of the proleptic Gregorian calendar for every instant, unit and precision, before and after the epoch and across leap years and centuries. '
     'Adding months clamps to the last day of the month; differences count complete units and truncate towards zero, taking the sub-second part into account; high-precision variants agree with the second-precision ones. '
     'A null operand gives null.',
     ['inputs'],
     'every instant whose result is representable, every date part / truncation unit / interval amount, and every pair of timestamp precisions (s, ms, us, ns)',
     'DateTimeUtilsTest samples a few dozen dates; boundaries (month ends, negative instants with sub-second parts, 400-year eras, ISO weeks) number in the millions.',
     ['omniscidb/Utils/' + 'ExtractFromTime.cpp', QE + 'DateTruncate.cpp', QE + 'DateAdd.cpp', SH + 'DateConverters.h', 'omniscidb/Utils/' + 'ExtractFromTime.h'],
     [('era based civil calendar arithmetic', QE + 'DateTruncate.cpp DateTruncate/EraTime'),
      ('extraction', 'omniscidb/Utils/' + 'ExtractFromTime.cpp ExtractFromTime'),
      ('month arithmetic with clamping', QE + 'DateAdd.cpp addMonths'),
      ('sub-second differences', QE + 'DateTruncate.cpp DateDiffHighPrecision')],
     'Every answer is compared with a reference calendar built by counting days through a whole 400-year cycle; each day of the cycle is visited plus boundary-biased random instants.',
     'reference-calendar oracle over all days of an era and boundary-biased random instants, ASAN+UBSAN')
prop('C19', 'Date and time text converts to the denoted instant and back',
     'Printing a date, time or timestamp of any precision and parsing the text gives back the same value, and every supported spelling (numeric and named months, two and four digit years, 12/24 hour clocks, fractional seconds, time zone offsets, epoch seconds) denotes the instant it says. '
     'Text that is not a date or time is refused, and formatting never writes beyond the buffer it was given.',
     ['inputs'],
     'every representable date/time/timestamp value, precision, supported text format and buffer size',
     'DateTimeUtilsTest parses a fixed list of literals.',
     [SH + 'DateTimeParser.cpp', SH + 'misc.cpp', 'omniscidb/Utils/' + 'ExtractStringFromTime.cpp', SH + 'DateConverters.h'],
     [('format driven parser', SH + 'DateTimeParser.cpp DateTimeParser::parse'),
      ('formatting into caller buffers', SH + 'misc.cpp formatDate/formatDateTime/formatHMS')],
     'Round trips and every spelling are compared with an independent formatter; formatting targets are exact-size heap buffers under AddressSanitizer.',
     'round-trip and independent-formatter oracle, ASAN+UBSAN on exact-size buffers')
prop('C20', 'String predicates decide exactly their documented relation',
     'LIKE, ILIKE, their substring forms, the six string comparisons and regular-expression matching return true exactly when the relation holds for the given byte strings, for every pattern, escape character and string including empty ones and ones with embedded zero bytes. '
     'Comparison is a total order on bytes consistent with equality, a null operand gives null, an invalid regular expression matches nothing. '
     'No byte outside the operands is read.',
     ['inputs'],
     'every string, pattern and escape character',
     'existing tests list literal examples; a matcher has unboundedly many pattern shapes and its failures are at pattern ends and backtracking points.',
     ['omniscidb/Utils/StringLike.cpp', 'omniscidb/Utils/Regexp.cpp'],
     [('recursive wildcard matcher', 'omniscidb/Utils/StringLike.cpp string_like_match'),
      ('byte comparison', 'omniscidb/Utils/StringLike.cpp StringCompare'),
      ('regexp', 'omniscidb/Utils/Regexp.cpp regexp_like')],
     'Compared with an independent dynamic-programming matcher and a derivative-free regex evaluator; operands live in exact-size heap buffers under AddressSanitizer.',
     'independent-matcher oracle with exact-size operands, ASAN+UBSAN')
prop('C21', 'Shared text and integer utilities do what their names say for every input',
     'Splitting and joining, trimming, case mapping, quoting, base64 coding and masking of credentials in query text agree with their definitions for every input: joining what was split gives the original, decoding what was encoded gives the original, whitespace is replaced only outside quoted text, and every secret option value in a query is masked while all other text is kept. '
     'The power-of-two, division and power-of-ten helpers return the exact mathematical answer over their whole domain.',
     ['inputs'],
     'every input text, delimiter, split limit and integer in the documented domain',
     'unit tests check a few literals per function.',
     [SH + 'StringTransform.cpp', SH + 'StringTransform.h', SH + 'base64.h', SH + 'MathUtils.h', SH + 'misc.h'],
     [('split/join/strip', SH + 'StringTransform.cpp'), ('masking of secrets', SH + 'StringTransform.cpp hide_sensitive_data_from_query'),
      ('base64', SH + 'base64.h'), ('integer helpers', SH + 'MathUtils.h, ' + SH + 'misc.h')],
     'Each function is compared with a reference implementation on generated inputs.',
     'reference-implementation oracle over generated inputs, ASAN+UBSAN')
# ---------------------------------------------------------------- runtime functions of generated code
prop('C22', 'Row-level arithmetic, comparison, casts and decoding follow SQL null rules',
     'The nullable forms of the arithmetic, comparison, cast, decimal scaling, rounding, negation and safe division functions return the null of the result type exactly when an operand is null (with the null value given by the caller) and otherwise the exact mathematical result, for every operand including the extremes of each type. '
     'Reading element i of an encoded column (fixed width signed, unsigned, small date, diff, floating point) returns the stored value for every width and position, and the width-bucket and bit-set membership functions agree with their definitions on every input.',
     ['inputs'],
     'every operand pair of every supported type, null in every position, every element width and index, every bucket configuration',
     'no unit test calls these functions: GroupByHashTest links the file but exercises only hash tables; wrong answers appear at type extremes and around the null sentinels.',
     ['omniscidb/QueryEngine/RuntimeFunctions.cpp', 'omniscidb/QueryEngine/DecodersImpl.h'],
     [('nullable operators', 'omniscidb/QueryEngine/RuntimeFunctions.cpp DEF_ARITH_NULLABLE, DEF_CMP_NULLABLE, DEF_CAST_NULLABLE'),
      ('decimal scaling', 'omniscidb/QueryEngine/RuntimeFunctions.cpp scale_decimal_up/down'),
      ('column decoding', 'omniscidb/QueryEngine/DecodersImpl.h fixed_width_*_decode'),
      ('buckets and membership', 'omniscidb/QueryEngine/RuntimeFunctions.cpp width_bucket*, bit_is_set')],
     'The real functions are compiled with ASAN+UBSAN and each answer is compared with a 128-bit / long double reference; operands are biased to extremes and sentinels.',
     'definition oracle in wider arithmetic over sentinel- and extreme-biased operands, ASAN+UBSAN')
prop('C23', 'Aggregate accumulators equal the aggregate of the values they were fed',
     'Feeding any sequence of values to the count, sum, min, max, sample/last, single-value, top-k, streaming top-n and distinct-bitmap accumulators (all widths, with and without null skipping) leaves exactly the aggregate of that sequence: nulls are skipped by the null-skipping forms, an accumulator fed only nulls keeps its initial null, and the result does not depend on the order of the values for order-independent aggregates. '
     'An accumulator never writes outside its own slot.',
     ['inputs', 'histories'],
     'every sequence of values, null placement, slot width, initial state, k and target bit count',
     'no existing test feeds the accumulators; errors show only for particular value sequences (null first, extremes, ties, negative k).',
     ['omniscidb/QueryEngine/RuntimeFunctions.cpp', 'omniscidb/QueryEngine/TopKAggRuntime.h', 'omniscidb/QueryEngine/TopKRuntime.cpp'],
     [('accumulators', 'omniscidb/QueryEngine/RuntimeFunctions.cpp agg_*'),
      ('null skipping', 'omniscidb/QueryEngine/RuntimeFunctions.cpp DEF_SKIP_AGG*'),
      ('streaming top-n', 'omniscidb/QueryEngine/TopKRuntime.cpp get_bin_from_k_heap')],
     'Each accumulator is fed a generated sequence between guard words and its final state is compared with the aggregate computed from the whole sequence.',
     'whole-sequence reference aggregate and guard words after every generated sequence, ASAN+UBSAN')
prop('C24', 'Group-by hash tables give each key exactly one slot and lose no key',
     'For every insertion sequence into a row-wise, columnar, 32- or 64-bit keyed baseline hash table or a perfect hash table, two requests get the same slot exactly when their keys are equal, the slot holds that key, the table refuses a new key exactly when it is full, and a refused insertion changes nothing. '
     'No request reads or writes outside the table.',
     ['inputs', 'histories'],
     'every key width, count and component type, table size, fill level and insertion order, including colliding keys and keys around the empty-key sentinel',
     'GroupByHashTest inserts a few keys in fixed tables; wrap-around probes, full tables and colliding keys are missed.',
     ['omniscidb/QueryEngine/GroupByRuntime.cpp', 'omniscidb/QueryEngine/RuntimeFunctions.cpp', 'omniscidb/QueryEngine/MurmurHash.cpp'],
     [('baseline probing', 'omniscidb/QueryEngine/GroupByRuntime.cpp get_group_value*'),
      ('key matching', 'omniscidb/QueryEngine/RuntimeFunctions.cpp get_matching_group_value*'),
      ('perfect hash slots', 'omniscidb/QueryEngine/RuntimeFunctions.cpp get_group_value_fast*, get_matching_group_value_perfect_hash')],
     'A reference map from key to slot is checked after every request and the whole table is compared at the end; buffers are exact-size heap blocks under AddressSanitizer.',
     'reference key-to-slot map checked after every request on exact-size tables, ASAN+UBSAN')
prop('C25', 'Join hash tables return exactly the build rows with the probed key',
     'For every build column (any width, chunking, null placement, duplicate pattern, string id translation, thread count) a perfect or keyed join hash table answers each probe with exactly the build rows whose key equals the probed key, and with no row for a null or absent key (with the null rows under null-safe equality). '
     'A one-to-one build over duplicate keys and a build into too small a table are refused; the one-to-many offsets, counts and row ids partition the matching rows. '
     'Concurrent builder threads never race or write outside the table.',
     ['inputs', 'schedules'],
     'every build column, chunking, key composition, table size, thread count and interleaving of builder threads',
     'JoinHashTableTest is not built here and covers fixed tables; GroupByHashTest never builds a join table. Lost rows appear only for particular chunk boundaries, collisions and interleavings.',
     [QE + 'JoinHashTable/Runtime/HashJoinRuntime.cpp', QE + 'JoinHashTable/Runtime/HashJoinRuntimeCpu.cpp', QE + 'JoinHashTable/Runtime/JoinHashTableQueryRuntime.cpp', QE + 'GroupByRuntime.cpp', QE + 'RuntimeFunctions.cpp'],
     [('perfect tables', QE + 'JoinHashTable/Runtime/HashJoinRuntime.cpp fill_hash_join_buff*'),
      ('keyed tables', QE + 'JoinHashTable/Runtime/HashJoinRuntime.cpp fill_baseline_hash_join_buff*'),
      ('one to many', QE + 'JoinHashTable/Runtime/HashJoinRuntime.cpp fill_one_to_many_*'),
      ('probes', QE + 'GroupByRuntime.cpp hash_join_idx*, baseline_hash_join_idx*')],
     'Tables are built by the real threaded builders under ASAN and again under TSAN, and probed for every key of the range and around it; answers are compared with the rows of the column.',
     'multimap oracle over probed tables built by threads, ASAN+UBSAN and TSAN')
prop('C26', 'Quantiles are the stated order statistic of all values fed',
     'An exact quantile over any multiset, split over any number of partial states merged in any order, equals the order statistic or interpolation requested (lower, higher, nearest, midpoint, linear), is null for no values, and reading it before or after finalization gives the same answer. '
     'An approximate quantile conserves the number and the sum of the values through any sequence of additions and merges, is exact while all values fit, always lies between the smallest and the largest value, and in the interior is within a bounded rank error. '
     'Neither ever writes outside the memory it allocated.',
     ['inputs', 'histories'],
     'every multiset of values of each type, partition into partial states, merge order, quantile parameter, interpolation and digest size',
     'QuantileCpuTest checks the approximate digest on a few fixed distributions; chunk boundaries, merge orders, sorted bulk input and extreme values are not sampled.',
     [SH + 'quantile.h', SH + 'approx_quantile.h', 'omniscidb/ResultSet/QuantileAccessors.cpp', QE + 'QuantileRuntime.cpp'],
     [('chunked value store', SH + 'quantile.h details::ChunkedArray'), ('order statistic', SH + 'quantile.h Quantile::finalize'),
      ('digest merging', SH + 'approx_quantile.h TDigest::mergeCentroids')],
     'Every quantile is compared with the sorted multiset; digests are checked for conservation and rank error; all memory is exact-size heap blocks under AddressSanitizer.',
     'sorted-multiset oracle and conservation monitor over merge histories, ASAN+UBSAN')
prop('C27', 'Distinct-count sets and validity bitmaps count exactly what was added',
     'Bitmap and hash-set distinct counts, alone or unioned from any number of partial states and padded sub-bitmaps, report exactly the number of distinct values added, and nulls add nothing. '
     'The approximate sketch gives the same registers however the values were partitioned and merged and an estimate within six standard errors of the truth. '
     'A validity bitmap has exactly the bits of the non-null rows set and returns the exact null count.',
     ['inputs', 'histories'],
     'every value sequence, bitmap size, sub-bitmap count, partition into partial states and column width',
     'no existing test built here touches these sets.',
     ['omniscidb/ResultSet/CountDistinct.h', 'omniscidb/ResultSet/HyperLogLog.h', 'omniscidb/ResultSet/BitmapGenerators.cpp', QE + 'RuntimeFunctions.cpp'],
     [('bitmap union and count', 'omniscidb/ResultSet/CountDistinct.h'), ('sketch', 'omniscidb/ResultSet/HyperLogLog.h'),
      ('validity bitmaps', 'omniscidb/ResultSet/BitmapGenerators.cpp')],
     'Counts are compared with reference sets, sketch registers with a single-pass sketch, bitmaps bit by bit; buffers are exact-size.',
     'reference-set oracle over partial states, ASAN+UBSAN on exact-size buffers')
prop('C28', 'Sorting by key permutes rows and orders them, whatever the data',
     'Sorting key and value arrays together, in parallel or through the paired iterator, leaves the keys ordered by the comparator and every value next to the key it came with, losing and repeating nothing, for every size, key type and distribution. '
     'The top-n buffers of all workers are laid out without overlap and copied out completely.',
     ['inputs', 'schedules'],
     'every array size, key distribution, comparator and split of the work among threads',
     'ParallelSortTest sorts random arrays of three sizes; adversarial distributions and sizes around the parallel threshold are not sampled.',
     [SH + 'parallel_sort.h', SH + 'DoubleSort.h', 'omniscidb/ResultSet/StreamingTopN.cpp'],
     [('parallel quick sort', SH + 'parallel_sort.h quick_sort_range'), ('paired iterator', SH + 'DoubleSort.h double_sort::Iterator'),
      ('top-n layout', 'omniscidb/ResultSet/StreamingTopN.cpp')],
     'The sorted arrays are checked for order and for being a permutation of the pairs.',
     'order and permutation monitor over adversarial arrays, ASAN+UBSAN')
prop('C35', 'Work partitioning covers every index exactly once',
     'Dividing an index range among any number of workers yields consecutive, non-empty, disjoint intervals that cover the range exactly, number at most the workers, are indexed from zero, and differ in size by at most one. '
     'This holds for every integer type and for ranges up to the full width of the type; an empty range or zero workers yields no interval.',
     ['inputs', 'configurations'],
     'every integer type, range and worker count',
     'UtilTest checks a few ranges of one type; every parallel loop of the engine depends on exact cover.',
     [SH + 'Intervals.h'],
     [('interval iteration', SH + 'Intervals.h Intervals/makeIntervals')],
     'Every produced interval is checked against the exact-cover definition in 128-bit arithmetic.',
     'exact-cover monitor over generated ranges, UBSAN for overflow')
prop('C09', 'Every reader of a result set sees exactly its rows and their values',
     'For every output layout, group-by key arrangement, target list and number of appended parts, each way of reading a result set (cursor, iterator, by index, sort accessors, whole-column buffers and offsets, copies) yields exactly the non-empty entries in order, each value and NULL as stored, and row counts and emptiness agree with them. '
     'Permutation, limit and offset select exactly the rows they describe for every reader; copies have their own cursor. '
     'Threads sharing a cursor get every row exactly once.',
     ['inputs', 'histories', 'schedules'],
     'every combination of layout (row-wise, columnar, keyless, perfect or baseline hash, projection), target types, NULLs, empty entries, appended results, permutation, limit and offset',
     'ResultSetTest covers a few layouts of one storage with consecutive values and never appended columnar results, var-len columns or shared cursors.',
     ['omniscidb/ResultSet/ResultSetIteration.cpp', 'omniscidb/ResultSet/ResultSet.cpp', 'omniscidb/ResultSet/ResultSet.h', 'omniscidb/ResultSet/ResultSetStorage.cpp'],
     [('row readers', 'omniscidb/ResultSet/ResultSetIteration.cpp getRowAt/getNextRow/makeTargetValue'), ('columns', 'omniscidb/ResultSet/ResultSet.cpp getChunkedColumnarBuffer/computeVarLenOffsets'), ('shared cursor', 'omniscidb/ResultSet/ResultSet.h row_iteration_mutex_')],
     'Buffers of exact size are written from a row model the way generated code does and read back through every public reader; ASAN/UBSAN and TSAN watch.',
     'row-model read-back monitor over generated result buffers and shared cursors, ASAN/UBSAN and TSAN')
prop('C44', 'Lazily fetched columns read the row the query selected',
     'A result column fetched lazily yields, for every result row, exactly the value the table holds at the selected row, whatever the number and sizes of the fragments, the encoding of the column, or the number of appended results. '
     'Text, arrays, NULLs, dictionary strings and ordering by such a column agree with the table.',
     ['inputs'],
     'every fragmentation (one, equal or unequal sizes), selection and order of rows including first and last rows of fragments, and column encoding',
     'no unit test builds a lazily fetched result set over several fragments; boundaries of fragments matter.',
     ['omniscidb/ResultSet/ResultSetIteration.cpp', 'omniscidb/ResultSet/ResultSetStorage.cpp'],
     [('fragment lookup', 'omniscidb/ResultSet/ResultSetIteration.cpp getColumnFrag'), ('decoding', 'omniscidb/ResultSet/ResultSetStorage.cpp lazy_decode')],
     'Fragments of exact size are built from a table model and result sets hold row positions; every reader is compared with the model under ASAN.',
     'table-model monitor over generated fragmented tables and lazy projections, ASAN/UBSAN')
prop('C45', 'Output buffer layouts never overlap, overflow, or differ for writer and reader',
     'For every query memory descriptor, the byte ranges of all keys and slots of all entries are disjoint, aligned and inside the computed buffer size, and every function that computes an offset (by slot, by walking to the next slot, after alignment for readers) gives the same address. '
     'Two descriptors compare equal only if their layouts are the same.',
     ['inputs'],
     'every combination of hash type, orientation, key widths, slot widths (including empty slots) and entry count',
     'tests use a handful of fixed descriptors; an offset error shows only for particular mixes of widths and counts.',
     ['omniscidb/ResultSet/QueryMemoryDescriptor.cpp', 'omniscidb/ResultSet/ColSlotContext.cpp', 'omniscidb/ResultSet/ColSlotContext.h', 'omniscidb/ResultSet/ResultSetBufferAccessors.h'],
     [('offsets', 'omniscidb/ResultSet/QueryMemoryDescriptor.cpp getColOffInBytes/getNextColOffInBytes'), ('slots', 'omniscidb/ResultSet/ColSlotContext.cpp')],
     'All addresses of generated descriptors are computed through every function and compared as intervals.',
     'interval-disjointness and cross-function agreement monitor over generated layouts, ASAN/UBSAN')
prop('C48', 'Distinct counts, quantiles and top lists of a result read back exactly',
     'A result cell that holds a distinct-count set (bitmap, partitioned bitmap, hash set or HyperLogLog registers), a quantile buffer, a t-digest or a list of top values reads back as the answer for exactly the values put into it, NULL when there are none, in every output layout. '
     'Reading with or without finalization, in one thread or many, with any limit and offset, gives the same rows and the row count equals the number of rows returned.',
     ['inputs', 'schedules'],
     'every set of values, cell kind, row layout and width, limit and offset, row counts on both sides of the parallel threshold',
     'unit tests finalize no result set with limit or offset and never read a partitioned bitmap.',
     ['omniscidb/ResultSet/ResultSet.cpp', 'omniscidb/ResultSet/ResultSetIteration.cpp', 'omniscidb/ResultSet/CountDistinct.h', 'omniscidb/ResultSet/TopKAggAccessors.cpp', 'omniscidb/ResultSet/QuantileAccessors.cpp'],
     [('finalize', 'omniscidb/ResultSet/ResultSet.cpp finalizeAggregates'), ('cells', 'omniscidb/ResultSet/ResultSetIteration.cpp makeTargetValue'), ('sets', 'omniscidb/ResultSet/CountDistinct.h count_distinct_set_size')],
     'Cells are filled from generated multisets through the same structures the runtime uses, and every read is compared with the answer computed from the multiset.',
     'value-level oracle over generated sketch cells read through rows, columns, offsets and parallel finalization, ASAN/UBSAN')
prop('C39', 'Query memory blocks are disjoint, aligned and stable until the owner dies',
     'Every block handed out by the memory owner of a query, from any thread, is at least as large as asked for, does not overlap any other live block, keeps its content and address until the owner is destroyed, and is zeroed where promised. '
     'Strings and arrays kept by the owner keep their address and content while others are added; nothing is freed twice or leaked.',
     ['histories', 'schedules'],
     'every sequence and interleaving of allocations of every size, including sizes around the pool limits, from concurrent threads',
     'no unit test exercises the owner; overlap needs particular size sequences or interleavings.',
     ['omniscidb/ResultSet/RowSetMemoryOwner.h', 'omniscidb/ResultSet/RowSetMemoryOwner.cpp', 'omniscidb/DataMgr/Allocators/ArenaAllocator.h'],
     [('thread pools', 'omniscidb/ResultSet/RowSetMemoryOwner.h allocateSmallMtNoLock'), ('arena', 'omniscidb/DataMgr/Allocators/ArenaAllocator.h')],
     'Blocks are filled with tags by concurrent threads and compared at the end; TSAN, ASAN and LeakSanitizer watch.',
     'tagged-block and disjointness monitor over concurrent allocation histories, TSAN, ASAN with leak detection')
prop('C41', 'SQL text rewriting never changes string literals',
     'Rewriting query text for the SQL front end replaces exactly the occurrences that lie outside string literals: literal text is kept byte for byte, every occurrence outside literals is rewritten, and rewriting terminates. '
     'String literals, with doubled quotes inside, are found at their exact positions whatever precedes them.',
     ['inputs'],
     'every query text made of literals (including empty ones and ones containing rewritable text) and rewritable constructs in any order',
     'StringTransformTest has a handful of queries with one literal.',
     [SH + 'StringTransform.cpp', 'omniscidb/Calcite/CalciteAdapter.cpp'],
     [('literal positions', SH + 'StringTransform.cpp find_string_literals'), ('rewriting driver', SH + 'StringTransform.cpp apply_shim'),
      ('the rewritings', 'omniscidb/Calcite/CalciteAdapter.cpp pg_shim')],
     'Rewritten text is compared with a piecewise reference built from the generated query.',
     'piecewise reference oracle over generated queries, ASAN+UBSAN')

# ---------------------------------------------------------------- types, expressions, literals
IRD = 'omniscidb/IR/'
prop('C30', 'A type is one object per context, whoever asks for it and however',
     'Within a context, equal type descriptions give the same type object, whichever way (constructor, copy from another context, nullable switch and back, own printed text) and from whichever thread they are requested, and different descriptions give different, unequal objects. '
     'A type keeps the parameters it was made with, invalid parameters are refused with an error, and copying a type into another context preserves every parameter at every nesting level.',
     ['inputs', 'schedules'],
     'every type description (including nested arrays, dictionaries and columns), every order and thread interleaving of requests, every text',
     'TypeTest checks single constructors from one thread and a list of texts.',
     [IRD + 'Context.cpp', IRD + 'Type.cpp', IRD + 'Type.h'],
     [('interning', IRD + 'Context.cpp ContextImpl'), ('copy to a context', IRD + 'Context.cpp copyType'), ('text form', IRD + 'Context.cpp typeFromString, ' + IRD + 'Type.cpp toString'), ('equality', IRD + 'Type.cpp equal')],
     'Generated descriptions are built, copied, printed and re-read; object identity and parameters are compared with the description; threads intern the same set under TSAN.',
     'description oracle over generated types, ASAN+UBSAN and TSAN')
prop('C31', 'Operators accept the operand types they should and type results soundly',
     'For every operator and pair of operand types, either the pair is refused, or the result type and the operand conversions are sound: comparison and logic give BOOL, operands are never narrowed, both sides of a comparison are converted to one common type, decimals keep the scale arithmetic requires, and the result is nullable exactly when an operand is. '
     'Symmetric operators give the same type for either operand order; integer literals get the smallest literal type that holds them.',
     ['inputs'],
     'every (operator, left type, right type) triple over all scalar types, nullabilities, units, scales and sizes',
     'QueryBuilderTest samples a few dozen pairs and checks only the result type.',
     ['omniscidb/Analyzer/Analyzer.cpp'],
     [('result and operand types', 'omniscidb/Analyzer/Analyzer.cpp analyze_type_info'), ('common numeric type', 'omniscidb/Analyzer/Analyzer.cpp common_numeric_type'), ('operator normalization', 'omniscidb/Analyzer/Analyzer.cpp normalizeOperExpr')],
     'The full product of operators and types goes through normalizeOperExpr; results are compared with rules written from the SQL typing laws.',
     'exhaustive product of operators and types against a rule oracle, ASAN+UBSAN')
prop('C32', 'Expressions are equal exactly when they mean the same; rewriting keeps the rest',
     'Two independently built copies of an expression are equal both ways, have the same hash and print the same; changing any one detail (operator, type of a cast, qualifier, argument, order, flag, constant) makes them unequal both ways. '
     'A rewrite with nothing to do returns the very same object, a substitution changes exactly the substituted columns, the original stays untouched, and a collector sees every column once per occurrence.',
     ['inputs'],
     'every expression tree over all expression kinds and every single change to it',
     'ExprTest and DagTest compare a few hand-written expressions.',
     [IRD + 'Expr.cpp', IRD + 'Expr.h', IRD + 'ExprRewriter.h', IRD + 'ExprCollector.h', IRD + 'ExprVisitor.h'],
     [('equality', IRD + 'Expr.cpp operator=='), ('hashes', IRD + 'Expr.cpp hash'), ('rewriting', IRD + 'ExprRewriter.h'), ('collection', IRD + 'ExprCollector.h')],
     'Trees are generated as descriptions, built twice, mutated in one detail and compared; rewrites and collections are compared with the same operation on the description.',
     'description oracle over generated and mutated expression trees, ASAN+UBSAN')
prop('C42', 'Literals convert exactly or are refused',
     'Text read as an integer, decimal, boolean, floating point or date/time literal gives exactly the value written (rounded half away from zero where digits must be dropped), and text that is malformed or out of range for the type is refused with an error, never wrapped or truncated. '
     'Constant casts follow the same rules, NULL stays NULL, and printing a value and reading it back gives the value.',
     ['inputs'],
     'every literal text, every constant value and every pair of source and target types, including limits of every width',
     'A few literals appear in query tests; overflow, rounding and scale corners do not.',
     [IRD + 'Datum.cpp', IRD + 'Expr.cpp'],
     [('text to value', IRD + 'Datum.cpp StringToDatum, parse_numeric, parseInteger'), ('value to text', IRD + 'Datum.cpp DatumToString'), ('constant casts', IRD + 'Expr.cpp Constant::cast')],
     'Generated texts and values are converted and compared with 128-bit integer arithmetic.',
     'exact arithmetic oracle over generated literals, ASAN+UBSAN')
prop('C43', 'LIKE and REGEXP analysis keeps the meaning of the pattern',
     'The expression built for LIKE, ILIKE, NOT LIKE and REGEXP, including patterns reduced to a substring search or from REGEXP to LIKE, decides every text as the original pattern does. '
     'Every well-formed pattern, with any escape character and escaped escapes, is accepted; a dangling escape is refused; the result is nullable exactly when the argument is.',
     ['inputs'],
     'every pattern, escape character and text',
     'Query tests use a handful of patterns without escapes.',
     ['omniscidb/Analyzer/Analyzer.cpp'],
     [('substring reduction', 'omniscidb/Analyzer/Analyzer.cpp test_is_simple_expr, erase_cntl_chars'), ('regexp to like', 'omniscidb/Analyzer/Analyzer.cpp translate_to_like_pattern'), ('construction', 'omniscidb/Analyzer/Analyzer.cpp getLikeExpr, getRegexpExpr')],
     'The pattern carried by the built expression is run by the real matcher on generated texts and compared with a reference matcher on the original pattern.',
     'reference matcher over generated patterns and texts, ASAN+UBSAN')

prop('C40', 'Canonicalizing a query never changes its rows, names or types',
     'For every query plan, the canonical plan gives the same rows, in the requested order, with the same column names and types: dropping sorts, expanding stddev and corr (over the pairs without NULL, without intermediate overflow) and inserting projections below window functions change nothing a user sees. '
     'The canonical plan contains no compound aggregate, no window projection straight over a filter or a multi-fragment scan, and every node and column it refers to.',
     ['inputs', 'states'],
     'every plan shape, with any nesting and sharing of nodes, every table content and memory layout',
     'Query tests run a few fixed plans; a wrong rewrite shows only for particular nestings (sort under sort under aggregate, a limit without order, several branches) or particular values.',
     ['omniscidb/QueryOptimizer/CanonicalizeQuery.cpp'],
     [('dead sorts', 'omniscidb/QueryOptimizer/CanonicalizeQuery.cpp dropDeadSorts'), ('compound aggregates', 'omniscidb/QueryOptimizer/CanonicalizeQuery.cpp expandCompoundAggregates'), ('window pre-projection', 'omniscidb/QueryOptimizer/CanonicalizeQuery.cpp addWindowFunctionPreProject')],
     'Random plans are run by an independent plan interpreter before and after the rewrite and compared with the rows of the request.',
     'differential interpretation of plans before and after the rewrite over random plans and tables, ASAN+UBSAN')
prop('C46', 'Query plan nodes copy, rewire and hash faithfully',
     'A copy of a plan node has the same columns, names, types, hints, hash and meaning as the original and shares no mutable state with it; replacing an input redirects every column reference, also through an index map, and nothing else. '
     'A DAG made from a root lists every node once, inputs first; nodes that differ in expressions, names, limits, collation, join kind or condition differ in hash.',
     ['inputs', 'states'],
     'every plan, node kind, permutation of input columns and sequence of copies and replacements',
     'No test copies or rewires nodes on their own; a lost reference shows only in plans where two inputs are related or shared.',
     ['omniscidb/IR/Node.h', 'omniscidb/IR/Node.cpp', 'omniscidb/IR/InputRewriter.h'],
     [('copies', 'omniscidb/IR/Node.cpp copy constructors'), ('rewiring', 'omniscidb/IR/Node.cpp Node::replaceInput; omniscidb/IR/InputRewriter.h'), ('node list', 'omniscidb/IR/Node.cpp QueryDag::QueryDag'), ('column types', 'omniscidb/IR/Node.cpp getColumnType')],
     'Random plans are copied node by node, rebound and rewired, then interpreted and compared with the original.',
     'state-comparison monitor and plan interpretation over copied and rewired random plans, ASAN+UBSAN')
prop('C47', 'QueryBuilder builds exactly the query asked for, or refuses it',
     'The plan built through any sequence of QueryBuilder calls, by names, indexes, references or strings, produces the rows, order, column names and types the calls describe, with SQL semantics for NULL. '
     'A request that means nothing (unknown or ambiguous columns, columns of another node, duplicate names, operands of unsupported types, bad parameters) is refused with InvalidQueryError, never accepted and never a crash.',
     ['inputs', 'states'],
     'every sequence of builder calls and every combination of overloads and column types',
     'Tests enumerate single calls with fixed arguments; combinations of calls, overloads and inputs are not covered.',
     ['omniscidb/QueryBuilder/QueryBuilder.cpp', 'omniscidb/QueryBuilder/QueryBuilder.h', 'omniscidb/Analyzer/Analyzer.cpp'],
     [('expressions', 'omniscidb/QueryBuilder/QueryBuilder.cpp BuilderExpr'), ('nodes', 'omniscidb/QueryBuilder/QueryBuilder.cpp BuilderNode proj/filter/agg/sort/join/finalize'), ('refusals', 'omniscidb/QueryBuilder/QueryBuilder.cpp InvalidQueryError')],
     'Every request is evaluated on plain rows while it is made; the plan is run by an independent interpreter and compared.',
     'reference evaluation versus interpretation of the built plan, refusal oracle over meaningless requests, ASAN+UBSAN')
prop('C33', 'Every log message reaches exactly its destinations, once, whole and in order',
     'A message of some severity or channel appears exactly once, as one untorn line in the order its thread wrote it, in every file and console whose threshold admits it, and nowhere else, with its process, query and thread. '
     'A FATAL message or failed CHECK is written, calls the registered function once and aborts the process. '
     'Reported debug timers form exactly the nesting in which they ran, including timers of child threads.',
     ['inputs', 'schedules'],
     'every severity, console severity, set of channels, rotation size, number of writing threads, and nesting of timers',
     'the repository has no test that reads log files back, and tearing or loss depends on how threads interleave.',
     ['omniscidb/Logger/Logger.cpp', 'omniscidb/Logger/Logger.h'],
     [('sinks and filters', 'omniscidb/Logger/Logger.cpp init, make_sink'), ('abort', 'omniscidb/Logger/Logger.cpp ~Logger'), ('timers', 'omniscidb/Logger/Logger.cpp DurationTree, JsonEncoder')],
     'Child processes log from several threads into scratch folders; every destination is parsed and matched against what was written. Timer JSON is compared with the tree that was run.',
     'offline log checker (exactly once, order, routing) over multi-threaded child processes; timer-tree monitor under ASAN and TSAN')
prop('C34', 'Each option sets exactly its own setting, everything else is kept',
     'Parsing a command line sets the settings named by its options to the given values and leaves every other setting of the configuration, including values set before, untouched. '
     'The string form and the argument form agree, and unknown options, malformed values and values out of range are refused.',
     ['inputs'],
     'every option and combination of options, values and preset configurations',
     'tests parse a few options; a wrongly wired option or default shows only for that option or combination.',
     ['omniscidb/ConfigBuilder/ConfigBuilder.cpp', 'omniscidb/Shared/Config.h'],
     [('options', 'omniscidb/ConfigBuilder/ConfigBuilder.cpp parseCommandLineArgs')],
     'All fields of the configuration are compared with a model after parsing random command lines over random preset configurations.',
     'whole-state monitor of the configuration over generated command lines, ASAN/UBSAN')
prop('C36', 'Scheduling policies give each fragment one device, in the requested shares',
     'Every fragment is assigned to one device type and to the device it belongs to on that level, proportional policies give each device its share of fragments to within one fragment for any proportions, and round robin alternates. '
     'The cost model interpolates its measurements without negative or wrapped times and chooses a split no worse than any split it examines; missing measurements are reported; predictions during a calibration use one whole calibration.',
     ['inputs', 'schedules'],
     'every proportion up to the limits of its type, number of fragments, data size beyond 4 GB, and set of measurements',
     'tests check a handful of points of the extrapolation; policies and the split search are not tested.',
     [QE + 'CostModel/IterativeCostModel.cpp', QE + 'CostModel/CostModel.cpp', QE + 'CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp', QE + 'CostModel/ExtrapolationModels/LinearExtrapolation.cpp', QE + 'CostModel/ExtrapolationModels/LinearRegression.cpp'],
     [('shares', QE + 'CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp scheduleSingleFragment'), ('split search', QE + 'CostModel/IterativeCostModel.cpp predict')],
     'Assignments are counted over all fragments and compared with exact shares; the chosen split is recovered from the schedule and compared with all examined splits.',
     'conservation monitor over fragment assignments, reference extrapolation, TSAN for calibration against prediction')
prop('C37', 'The sqlite connector returns what was stored; failures change nothing',
     'Values bound as text, blob or NULL are read back byte for byte with correct NULL flags, column names and types, by any connection and after reopening. '
     'A batch insert is stored completely or not at all, and after any failed statement or batch the connector stays usable, holds no locks and leaves no transaction open.',
     ['inputs', 'histories', 'faults'],
     'every value (embedded zero bytes, quotes, invalid UTF-8, long), history of statements, and row at which a statement or batch fails',
     'the repository has no test of failing statements; leaks of locks show only to a second connection.',
     ['omniscidb/SqliteConnector/SqliteConnector.cpp', 'omniscidb/SqliteConnector/SqliteConnector.h'],
     [('statements', 'omniscidb/SqliteConnector/SqliteConnector.cpp query_with_text_params'), ('batches', 'omniscidb/SqliteConnector/SqliteConnector.cpp batch_insert')],
     'Random histories with failures injected at random rows; contents compared with a model through two connections, locks probed after every failure.',
     'model-based history monitor with injected statement failures and lock probes from a second connection, ASAN/UBSAN')
prop('C38', 'The schema shows exactly the tables and columns that were added and not dropped',
     'Looking up a table or column by id, name or reference, and listing databases, tables and columns (ordered by column id), agree with the history of additions and drops, in the provider and through the merged schema manager. '
     'Requests are routed to the provider of the database, two providers of one schema are refused, and concurrent readers see tables whole.',
     ['inputs', 'histories', 'schedules'],
     'every history of additions and drops over several providers and databases, ids up to the limits, and schedules of readers against a writer',
     'tests use one provider with a fixed schema.',
     ['omniscidb/SchemaMgr/SchemaMgr.cpp', 'omniscidb/SchemaMgr/SimpleSchemaProvider.h', 'omniscidb/SchemaMgr/SchemaProvider.h'],
     [('provider', 'omniscidb/SchemaMgr/SimpleSchemaProvider.h'), ('routing', 'omniscidb/SchemaMgr/SchemaMgr.cpp getMgr, mergeProviders')],
     'Model-based histories compared entry by entry through provider and manager; readers against a writer under TSAN.',
     'model-based history monitor, ASAN/UBSAN; TSAN for readers against a writer')

NOT_APPLICABLE = {}
