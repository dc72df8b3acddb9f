"""Registered checks: what runs for each property. Titles, statements and anchors are in props.py."""
CHECKS = {}


def chk(pid, runs, rule, min_events=None, assumptions=(), level='exploration', parallel=8, **kw):
    rs = []
    for r in runs:
        variant, exe, mode, shards = r[:4]
        opt = r[4] if len(r) > 4 else {}
        rs.append(dict(variant=variant, exe=exe, args=[mode] if mode else [], shards=shards, **opt))
    CHECKS[pid] = dict(runs=rs, rule=rule, min_events=min_events or {}, assumptions=list(assumptions), level=level,
                       parallel=parallel, **kw)


# ---------------------------------------------------------------- query execution
chk('C01', [('asan', 'h_query', 'expr', 8)],
    'distinct filter/projection queries executed by the engine whose whole result was compared with the reference evaluator',
    {'queries': 3000, 'rows_out': 20000},
    ['values within the range of their types (overflow is not provoked)', 'queries the engine refuses with an exception are counted but not judged'])
chk('C02', [('asan', 'h_query', 'agg', 8)],
    'distinct aggregation queries executed by the engine whose whole result was compared with the reference evaluator',
    {'queries': 3000, 'rows_out': 50000},
    ['floating point sums compared with a relative tolerance', 'approximate aggregates judged against their documented error'])
chk('C03', [('asan', 'h_query', 'join', 8)],
    'distinct join queries executed by the engine whose whole result was compared with the reference evaluator',
    {'queries': 1500, 'rows_out': 15000},
    ['single equality between columns of one type', 'columns of plain (not dictionary encoded) text are not joined', 'both sides have at least one key that is not null'])
chk('C04', [('asan', 'h_query', 'sort', 8)],
    'distinct ordered/limited queries executed by the engine whose row sequence was compared with the reference order',
    {'queries': 3000, 'rows_out': 100000},
    ['rows with equal keys may come in any order'])
chk('C05', [('asan', 'h_query', 'window', 8)],
    'distinct window-function queries executed by the engine whose whole result was compared with the reference evaluator',
    {'queries': 3000, 'rows_out': 100000},
    ['partitions by integer and dictionary string columns', 'minimum and maximum of 64-bit columns'])

# ---------------------------------------------------------------- string dictionary
chk('C11', [('asan', 'h_sd', 'ids', 8)],
    'distinct dictionary forests (storage parameters, nesting generations, sizes) whose every answer was compared with the reference map',
    {'evaluations': 100000, 'getOrAddBulk': 500, 'nested_dicts': 50, 'narrow_refused': 10},
    ['strings up to the documented 32767 byte limit', 'narrow id types on standalone dictionaries only'])
chk('C12', [('asan', 'h_sd', 'search', 8)],
    'distinct (search, dictionary shape, generation) combinations with a non-trivial answer compared with brute force',
    {'evaluations': 50000, 'like': 300, 'compare': 300, 'regexp': 100},
    ['regular expressions within the backtracking limit of the regex library'])
chk('C13', [('asan', 'h_sd', 'translate', 8)],
    'distinct (source, destination, sizes) pairs whose whole translation map was compared with the reference',
    {'evaluations': 50000, 'union': 100, 'intersection': 100})
chk('C14', [('tsan', 'h_sd', 'conc', 4), ('asan', 'h_sd', 'conc', 4)],
    'distinct completion orders of recorded concurrent histories, each checked against the grow-only map specification and watched by the race detector',
    {'evaluations': 20000, 'thread_switches_in_history': 500},
    ['TBB-internal parallelism limited to the calling thread under the race detector'])

# ---------------------------------------------------------------- data manager
chk('C15', [('asan', 'h_dm', 'pool', 8)],
    'distinct histories of buffer pool calls (pool kind, page/slab/pool sizes, requests, releases, growth, drops, faults) checked after every call',
    {'evaluations': 500000, 'get_buffer': 100000, 'oom': 10000, 'fetch_failed': 1000, 'grow': 5000, 'drop': 5000, 'zero_copy': 5000},
    ['device memory is simulated with host memory', 'a chunk is not grown while another user holds it', 'faults of the storage are injected below a single pool (a failing fetch under two pools ends the process by design)'])
chk('C16', [('tsan', 'h_dm', 'conc', 8), ('asan', 'h_dm', 'conc', 8)],
    'distinct completion orders of concurrent buffer pool histories, each watched by the race detector and checked for content, layout and released memory',
    {'evaluations': 200000, 'thread_switches_in_history': 50000, 'oom': 5000},
    ['chunks of a table are dropped only by the thread that uses the table'])
chk('C17', [('asan', 'h_dm', 'enc', 8)],
    'distinct update histories of chunk statistics whose range and null flag were compared with the values after every step',
    {'evaluations': 50000, 'encoded_updates': 10000, 'parallel_updates': 500, 'array_updates': 5000, 'date_limits': 1000},
    ['no NaN values', 'dates within the calendar range of their encoding'])

# ---------------------------------------------------------------- time, text
chk('C18', [('asan', 'h_time', 'calendar', 8)],
    'distinct (field, era, boundary class) combinations of instants whose calendar arithmetic was compared with the reference calendar',
    {'evaluations': 10000000, 'dateadd': 1000000, 'datediff': 1000000, 'days': 50000},
    ['instants whose exact result fits the 64-bit representation of the requested precision'])
chk('C19', [('asan', 'h_time', 'text', 8)],
    'distinct (format, precision, value class) combinations whose text conversion was compared with the reference',
    {'evaluations': 100000},
    ['well-formed date/time texts and texts the parser is documented to reject; trailing text after a complete value is not decided'])
chk('C20', [('asan', 'h_misc', 'match', 8)],
    'distinct (pattern, text class) pairs whose answer was compared with an independent matcher',
    {'evaluations': 100000, 'like_true': 1000, 'like_false': 1000, 'null_operand': 100},
    ['ASCII case folding', 'regular expressions within the backtracking limit of the regex library'])
chk('C21', [('asan', 'h_misc', 'text', 8)],
    'distinct (function, input) pairs compared with a reference implementation',
    {'evaluations': 20000, 'split': 1000, 'secrets': 500})
chk('C35', [('asan', 'h_misc', 'intervals', 8)],
    'distinct (range, worker count) combinations whose every produced interval was checked for exact cover',
    {'evaluations': 20000, 'nonempty': 1000, 'empty': 100})
chk('C41', [('asan', 'h_misc', 'shim', 8)],
    'distinct SQL texts whose rewriting was compared with a reference that never looks inside literals',
    {'evaluations': 10000, 'literals': 5000, 'rewrites': 1000})

# ---------------------------------------------------------------- runtime functions of generated code
chk('C22', [('asan', 'h_rt', 'arith', 8)],
    'distinct (function, operand class) combinations whose answer was compared with the reference in wider arithmetic',
    {'evaluations': 5000000, 'arith_null': 200000, 'arith_value': 400000, 'cmp': 500000, 'cast': 100000, 'decimal': 200000, 'decode': 300000, 'round': 30000, 'safe_div': 30000, 'bucket': 200000},
    ['results within the range of the result type', 'rounding of floating point to integer accepts both neighbours when adding one half in the operand precision rounds up'])
chk('C23', [('asan', 'h_rt', 'agg', 8)],
    'distinct value sequences fed to an accumulator whose final state was compared with the aggregate of the sequence',
    {'evaluations': 2000000, 'agg_seq': 50000, 'agg_sum': 30000, 'topk': 50000, 'k_heap': 30000, 'distinct_bitmap': 5000},
    ['sums that fit the accumulator', 'no NaN values'])
chk('C24', [('asan', 'h_rt', 'group', 8)],
    'distinct table shapes and insertion sequences whose every answer was compared with the reference map',
    {'evaluations': 10000000, 'group_new': 200000, 'group_found': 200000, 'group_full': 30000, 'perfect': 100000},
    ['keys differ from the reserved empty-key value in their first component'])
chk('C25', [('asan', 'h_join', 'x', 8), ('tsan', 'h_join', 'x', 8)],
    'distinct (column, table, thread count) combinations built and probed, every answer compared with the rows of the column',
    {'evaluations': 1000000, 'one_to_one_built': 2000, 'one_to_one_refused': 1000, 'one_to_many_built': 1000, 'baseline_one_to_one_built': 1000, 'baseline_one_to_many_built': 1000, 'baseline_too_small': 300, 'probe_hit': 200000, 'probe_miss': 200000, 'translated': 300},
    ['chunks with a null buffer pointer are not built', 'tables up to 2^31 entries'])
chk('C26', [('asan', 'h_alg', 'quantile', 8)],
    'distinct (type, size, partition, parameter, interpolation or digest size) combinations compared with the sorted multiset',
    {'evaluations': 100000, 'quantile': 20000, 'quantile_interpolated': 5000, 'quantile_merge': 20000, 'tdigest_exact': 20000, 'tdigest_rank': 10000},
    ['no NaN or infinite values', 'approximate quantiles in the outermost centroids are only bounded by the extremes'])
chk('C27', [('asan', 'h_alg', 'distinct', 8)],
    'distinct (set kind, size, partition) combinations whose count was compared with the reference set',
    {'evaluations': 100000, 'bitmap_count': 5000, 'bitmap_union': 3000, 'hashset_count': 2000, 'hll_estimate': 1000, 'hll_union': 1000, 'null_bitmap': 4000},
    ['accuracy of the sketch judged for 2^8 registers and more'])
chk('C28', [('asan', 'h_alg', 'sort', 8)],
    'distinct (size, key type, distribution, order, algorithm) combinations whose result was checked for order and permutation',
    {'evaluations': 10000000, 'double_sort': 1000, 'sort_by_key': 3000, 'topn_layout': 500},
    ['comparators are strict weak orders'])
chk('C09', [('asan', 'h_rs', 'rows', 8), ('asan', 'h_rs', 'api', 8), ('tsan', 'h_rs', 'rconc', 8)],
    'distinct (layout, target list) combinations whose rows were read back through every reader and compared with the rows written',
    {'evaluations': 30000, 'row_read': 2000000, 'accessor_value': 500000, 'column_buffer': 4000, 'permuted': 2500, 'storage_many': 3000, 'varlen_offsets': 5000,
     'unique_strings': 2500, 'copied': 4000, 'entry_at': 90000, 'shared_row': 100000, 'one_entry': 1000, 'cleared': 2000, 'explanation': 1000, 'estimate': 1000, 'printed_row': 5000},
    ['four-byte slots hold counts and dictionary ids only, their padding is zero', 'limit and offset are set before the first read, as the engine does, or reset together'])
chk('C44', [('asan', 'h_rs', 'lazy', 8)],
    'distinct (target list, fragment layout) combinations of lazily fetched projections read back and compared with the table',
    {'evaluations': 40000, 'lazy_row': 300000, 'lazy_accessor': 700000, 'uneven_fragments': 15000, 'even_fragments': 10000, 'lazy_offsets': 4000},
    ['stored text does not distinguish NULL from the empty string'])
chk('C45', [('asan', 'h_rs', 'layout', 8)],
    'distinct output layouts (kind, key widths, slot widths, entries) whose every address was computed and checked for overlap and bounds',
    {'evaluations': 250000, 'columnar_layout': 40000, 'row_layout': 80000, 'compared': 400000})
chk('C48', [('asan', 'h_rs', 'sketch', 8)],
    'distinct result sets holding distinct-count, quantile and list cells, read back through every interface and compared with the values put in',
    {'sketch_row': 200000, 'finalized': 4000, 'finalized_parallel': 400, 'list_offsets': 1000})
chk('C39', [('tsan', 'h_alg', 'arena', 8), ('asan', 'h_alg', 'arena', 8)],
    'distinct concurrent allocation histories whose every block was checked for overlap and content',
    {'evaluations': 100000, 'alloc': 100000},
    ['one thread per small-pool index, as the interface requires'])

# ---------------------------------------------------------------- types, expressions and literals
chk('C30', [('asan', 'h_ir', 'types', 8), ('tsan', 'h_ir', 'tconc', 8)],
    'distinct type descriptions built, copied, printed and read back, and thread schedules interning the same types',
    {'evaluations': 500000, 'type_built': 20000, 'copied': 20000, 'text_round_trip': 20000, 'bad_text_refused': 5000, 'refused_type': 800, 'concurrent_lookup': 50000},
    ['text is read by one thread at a time'])
chk('C31', [('asan', 'h_ir', 'promo', 4)],
    'distinct (operator, left type, right type) triples typed and compared with the promotion rules',
    {'evaluations': 90000, 'arithmetic': 3000, 'comparison': 7000, 'bitwise': 150, 'refused': 50000, 'int_literal': 4000})
chk('C32', [('asan', 'h_ir', 'expr', 8)],
    'distinct expression trees built twice, compared with themselves and with one-detail variants, rewritten and collected',
    {'evaluations': 200000, 'built': 50000, 'mutants': 100000, 'rewritten': 20000},
    ['range expressions are not visited by rewriters', 'substitution judged on trees without casts (casts are folded when re-applied)'])
chk('C40', [('asan', 'h_plan', 'canon', 8)],
    'the plan before and after canonicalization, run by an independent interpreter of plans on random tables, gives the reference rows of the request in the requested order, with the same names and types; no compound aggregate, no window over a filter or several fragments and no dangling node or column remains',
    {'plans': 10000, 'sorts_dropped': 4000, 'plans_expanded': 3000, 'window_plans': 2000, 'bare_limit': 800},
    ['the interpreter brings mixed operands to one type by value, as execution units do later', 'plans of projection, filter, sort, limit, aggregate, join, union all and window nodes; integers up to 30000, fp and decimal(.,2), boolean and dictionary text columns'])
chk('C46', [('asan', 'h_plan', 'nodes', 8)],
    'copies of nodes have the columns, types, hints, hash and meaning of the original and share no state with it; a plan of rebound copies and a plan with rewired, permuted inputs mean the same; a node list made from a root is complete, ordered and without repetition; single changes of a node change its hash',
    {'node_copies': 40000, 'inputs_replaced': 8000, 'hash_pairs': 40000},
    ['scans are shared, not copied, by design', 'hashes are compared before a node is modified: they are cached'])
chk('C47', [('asan', 'h_plan', 'build', 8), ('asan', 'h_plan', 'reject', 8)],
    'the plan built for a random request, run by an independent interpreter of plans, gives exactly the rows, order, names and types the request describes, evaluated in parallel while it is made; each of 116 kinds of meaningless requests is refused with InvalidQueryError',
    {'plans': 10000, 'requests': 40000, 'node_join': 3000, 'node_aggregate': 3000, 'node_sort': 3000, 'node_union': 1000},
    ['IS NULL is asked of expressions of nullable type only: a type that excludes NULL makes the builder fold the test, also above outer joins and empty sums'])
chk('C42', [('asan', 'h_ir', 'lit', 8)],
    'distinct texts and constants converted and compared with exact integer arithmetic',
    {'evaluations': 300000, 'int_ok': 30000, 'int_refused': 10000, 'decimal_ok': 30000, 'decimal_refused': 5000, 'cast_exact': 20000, 'cast_fp': 10000, 'cast_refused': 5000, 'date_text': 5000, 'timestamp_text': 4000, 'time_text': 4000},
    ['trailing text after a floating point or decimal number is not judged', 'at most 18 significant digits before rounding'])
chk('C43', [('asan', 'h_ir', 'like', 8)],
    'distinct LIKE and REGEXP patterns analysed, each decided on several texts by the matcher the analysis selected',
    {'evaluations': 1000000, 'like_general': 50000, 'like_substring': 30000, 'like_refused': 300, 'regexp_as_like': 10000, 'regexp_kept': 20000},
    ['the escape character is not a letter, % or _'])

# ---------------------------------------------------------------- service libraries
chk('C33', [('asan', 'h_svc', 'log', 4), ('asan', 'h_svc', 'timer', 2), ('tsan', 'h_svc', 'timer', 2)],
    'distinct (severity, console severity, channels, threads, rotation, abort) configurations whose every log destination was read back, and distinct timer trees',
    {'evaluations': 60000, 'log lines judged': 8000, 'destinations judged': 300, 'rotations': 50, 'trees compared': 2000},
    ['messages are single lines', 'what is buffered at an abort without auto-flush may be lost', 'log file name patterns are unique per rotation'])
chk('C34', [('asan', 'h_svc', 'config', 4)],
    'distinct command line options given at least once; every field of the configuration is compared after every parse',
    {'evaluations': 100000, 'settings compared': 100000, 'options parsed': 4000, 'bad options': 1000})
chk('C36', [('asan', 'h_svc', 'cost', 4), ('tsan', 'h_svc', 'cconc', 4)],
    'distinct (cpu share, gpu share, fragments) schedules counted fragment by fragment, plus predicted splits compared with every examined split',
    {'evaluations': 400000, 'fragments assigned': 300000, 'splits judged': 1500, 'extrapolations': 30000, 'calibrations': 300},
    ['measurements come sorted by size, with at least two sizes for the regression'])
chk('C37', [('asan', 'h_svc', 'sqlite', 8)],
    'distinct (operation, table sizes, position) steps of connector histories, each followed by full comparison with the model through one or two connections',
    {'evaluations': 1000000, 'failed batches': 1500, 'failed statements': 1500, 'lock probes': 4000, 'rows compared': 150000, 'reopened': 1500},
    ['rows of a batch have the same number of values'])
chk('C38', [('asan', 'h_svc', 'schema', 4), ('tsan', 'h_svc', 'sconc', 4)],
    'distinct (step, tables, presence) states of schema histories compared entry by entry, and thread schedules of readers against a writer',
    {'evaluations': 3000000, 'full comparisons': 6000, 'tables dropped': 2000, 'schema changes': 10000, 'tables seen': 10000, 'tables absent': 10000},
    ['columns are listed only for tables that exist'])
