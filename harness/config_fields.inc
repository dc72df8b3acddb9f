// F(field path, type, option name or "", may be given without a value)
F(exec.watchdog.enable, bool, "enable-watchdog", true)
F(exec.watchdog.enable_dynamic, bool, "enable-dynamic-watchdog", true)
F(exec.watchdog.time_limit, size_t, "dynamic-watchdog-time-limit", false)
F(exec.watchdog.baseline_max_groups, size_t, "watchdog-baseline-max-groups", false)
F(exec.watchdog.parallel_top_max, size_t, "parallel-top-max", false)
F(exec.sub_tasks.enable, bool, "enable-cpu-sub-tasks", true)
F(exec.sub_tasks.sub_task_size, size_t, "cpu-sub-task-size", false)
F(exec.join.allow_loop_joins, bool, "enable-loop-join", true)
F(exec.join.trivial_loop_join_threshold, unsigned, "loop-join-limit", false)
F(exec.join.huge_join_hash_threshold, size_t, "huge-join-hash-threshold", false)
F(exec.join.huge_join_hash_min_load, size_t, "huge-join-hash-min-load", false)
F(exec.group_by.bigint_count, bool, "bigint-count", true)
F(exec.group_by.default_max_groups_buffer_entry_guess, size_t, "default-max-groups-buffer-entry-guess", false)
F(exec.group_by.big_group_threshold, size_t, "big-group-threshold", false)
F(exec.group_by.use_groupby_buffer_desc, bool, "use-groupby-buffer-desc", true)
F(exec.group_by.enable_gpu_smem_group_by, bool, "enable-gpu-shared-mem-group-by", true)
F(exec.group_by.enable_gpu_smem_non_grouped_agg, bool, "enable-gpu-shared-mem-non-grouped-agg", true)
F(exec.group_by.enable_gpu_smem_grouped_non_count_agg, bool, "enable-gpu-shared-mem-grouped-non-count-agg", true)
F(exec.group_by.enable_cpu_multifrag_kernels, bool, "enable-cpu-groupby-multifrag-kernels", true)
F(exec.group_by.gpu_smem_threshold, size_t, "gpu-shared-mem-threshold", false)
F(exec.group_by.hll_precision_bits, unsigned, "hll-precision-bits", false)
F(exec.group_by.baseline_threshold, size_t, "groupby-baseline-threshold", false)
F(exec.group_by.large_ndv_threshold, int64_t, "large-ndv-threshold", false)
F(exec.group_by.large_ndv_multiplier, size_t, "large-ndv-multiplier", false)
F(exec.group_by.enable_cpu_partitioned_groupby, bool, "enable-cpu-partitioned-groupby", true)
F(exec.group_by.partitioning_buffer_size_threshold, size_t, "groupby-partitioning-buffer-size-threshold", false)
F(exec.group_by.partitioning_group_size_threshold, double, "groupby-partitioning-group-size-threshold", false)
F(exec.group_by.min_partitions, size_t, "groupby-min-partitions", false)
F(exec.group_by.max_partitions, size_t, "groupby-max-partitions", false)
F(exec.group_by.partitioning_buffer_target_size, size_t, "groupby-partitioning-target-buffer-size", false)
F(exec.window_func.enable, bool, "enable-window-functions", true)
F(exec.window_func.parallel_window_partition_compute, bool, "enable-parallel-window-partition-compute", true)
F(exec.window_func.parallel_window_partition_compute_threshold, size_t, "parallel-window-partition-compute-threshold", false)
F(exec.window_func.parallel_window_partition_sort, bool, "enable-parallel-window-partition-sort", true)
F(exec.window_func.parallel_window_partition_sort_threshold, size_t, "parallel-window-partition-sort-threshold", false)
F(exec.heterogeneous.enable_heterogeneous_execution, bool, "enable-heterogeneous", true)
F(exec.heterogeneous.enable_multifrag_heterogeneous_execution, bool, "enable-multifrag-heterogeneous", true)
F(exec.heterogeneous.forced_heterogeneous_distribution, bool, "force-heterogeneous-distribution", true)
F(exec.heterogeneous.forced_cpu_proportion, unsigned, "force-cpu-proportion", false)
F(exec.heterogeneous.forced_gpu_proportion, unsigned, "force-gpu-proportion", false)
F(exec.heterogeneous.allow_cpu_retry, bool, "allow-cpu-retry", true)
F(exec.heterogeneous.allow_query_step_cpu_retry, bool, "allow-query-step-cpu-retry", true)
F(exec.interrupt.enable_runtime_query_interrupt, bool, "enable-runtime-query-interrupt", true)
F(exec.interrupt.enable_non_kernel_time_query_interrupt, bool, "enable-non-kernel-time-query-interrupt", true)
F(exec.interrupt.running_query_interrupt_freq, double, "running-query-interrupt-freq", false)
F(exec.codegen.inf_div_by_zero, bool, "inf-div-by-zero", true)
F(exec.codegen.null_div_by_zero, bool, "null-div-by-zero", true)
F(exec.codegen.null_mod_by_zero, bool, "null-mod-by-zero", true)
F(exec.codegen.hoist_literals, bool, "enable-hoist-literals", true)
F(exec.codegen.enable_filter_function, bool, "enable-filter-function", true)
F(exec.streaming_topn_max, size_t, "streaming-top-n-max", false)
F(exec.parallel_top_min, size_t, "parallel-top-min", false)
F(exec.enable_experimental_string_functions, bool, "enable-experimental-string-functions", true)
F(exec.enable_interop, bool, "enable-interoperability", true)
F(exec.parallel_linearization_threshold, size_t, "parallel-linearization-threshold", false)
F(exec.enable_multifrag_rs, bool, "enable-multifrag-results", true)
F(exec.enable_multifrag_execution_result, bool, "enable-multifrag-execution-result", true)
F(exec.override_gpu_block_size, size_t, "gpu-block-size", false)
F(exec.override_gpu_grid_size, size_t, "gpu-grid-size", false)
F(exec.cpu_only, bool, "cpu-only", true)
F(exec.materialize_inner_join_tables, bool, "", false)
F(exec.initialize_with_gpu_vendor, std::string, "initialize-with-gpu-vendor", false)
F(exec.enable_cost_model, bool, "use-cost-model", false)
F(opts.filter_pushdown.enable, bool, "enable-filter-push-down", true)
F(opts.filter_pushdown.low_frac, float, "filter-push-down-low-frac", false)
F(opts.filter_pushdown.high_frac, float, "filter-push-down-high-frac", false)
F(opts.filter_pushdown.passing_row_ubound, size_t, "filter-push-down-passing-row-ubound", false)
F(opts.from_table_reordering, bool, "from-table-reordering", true)
F(opts.constrained_by_in_threshold, size_t, "constrained-by-in-threshold", false)
F(opts.enable_left_join_filter_hoisting, bool, "enable-left-join-filter-hoisting", true)
F(rs.enable_columnar_output, bool, "enable-columnar-output", true)
F(rs.optimize_row_initialization, bool, "optimize-row-init", true)
F(rs.enable_direct_columnarization, bool, "enable-direct-columnarization", true)
F(rs.enable_lazy_fetch, bool, "enable-lazy-fetch", true)
F(mem.cpu.enable_tiered_cpu_mem, bool, "enable-tiered-cpu-mem", true)
F(mem.cpu.pmem_size, size_t, "pmem-size", false)
F(mem.cpu.max_size, size_t, "cpu-buffer-mem-bytes", false)
F(mem.cpu.min_slab_size, size_t, "min-cpu-slab-size", false)
F(mem.cpu.max_slab_size, size_t, "max-cpu-slab-size", false)
F(mem.gpu.min_memory_allocation_size, size_t, "min-output-projection-allocation-bytes", false)
F(mem.gpu.max_memory_allocation_size, size_t, "max-output-projection-allocation-bytes", false)
F(mem.gpu.input_mem_limit_percent, double, "gpu-input-mem-limit", false)
F(mem.gpu.reserved_mem_bytes, size_t, "res-gpu-mem", false)
F(mem.gpu.max_size, size_t, "gpu-buffer-mem-bytes", false)
F(mem.gpu.min_slab_size, size_t, "min-gpu-slab-size", false)
F(mem.gpu.max_slab_size, size_t, "max-gpu-slab-size", false)
F(cache.use_estimator_result_cache, bool, "use-estimator-result-cache", true)
F(cache.enable_data_recycler, bool, "enable-data-recycler", true)
F(cache.use_hashtable_cache, bool, "use-hashtable-cache", true)
F(cache.hashtable_cache_total_bytes, size_t, "hashtable-cache-total-bytes", false)
F(cache.max_cacheable_hashtable_size_bytes, size_t, "max-cacheable-hashtable-size-bytes", false)
F(cache.gpu_fraction_code_cache_to_evict, double, "gpu-code-cache-eviction-percent", false)
F(cache.dag_cache_size, size_t, "dag-cache-size", false)
F(cache.code_cache_size, size_t, "code-cache-size", false)
F(debug.build_ra_cache, std::string, "build-rel-alg-cache", false)
F(debug.use_ra_cache, std::string, "use-rel-alg-cache", false)
F(debug.enable_automatic_ir_metadata, bool, "enable-automatic-ir-metadata", true)
F(debug.enable_gpu_code_compilation_cache, bool, "enable-gpu-code-compilation-cache", true)
F(debug.log_dir, std::string, "", false)
F(debug.dump_llvm_ir_after_each_pass, short, "dump-after-all", true)
F(storage.enable_lazy_dict_materialization, bool, "enable-lazy-dict-materialization", true)
F(storage.enable_non_lazy_data_import, bool, "enable-non-lazy-data-import", true)
