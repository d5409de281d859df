B = {
"cur-remember": dict(prop="P11", edits=[("src/api.c", """	unsigned cpu = 0;
	if CPUINFO_UNLIKELY (syscall(__NR_getcpu, &cpu, NULL, NULL) != 0) {
		return 0;
	}
	if CPUINFO_UNLIKELY ((uint32_t)cpu >= cpuinfo_linux_cpu_max) {
		return 0;
	}
	return cpuinfo_linux_cpu_to_processor_map[cpu];""", """	static unsigned cpu = 0;
	if CPUINFO_UNLIKELY (syscall(__NR_getcpu, &cpu, NULL, NULL) != 0) {
		return 0;
	}
	if CPUINFO_UNLIKELY ((uint32_t)cpu >= cpuinfo_linux_cpu_max) {
		return 0;
	}
	return cpuinfo_linux_cpu_to_processor_map[cpu];""")], keys="cur", checks=["P03", "P11"],
  needs="two threads asking at once", breaks="a thread sees the processor of another one"),
"cur-core-stale": dict(prop="P11", edits=[("src/api.c", """	return cpuinfo_linux_cpu_to_core_map[cpu];""", """	static __thread unsigned last_cpu = UINT32_MAX;
	static __thread const struct cpuinfo_core* last_core = NULL;
	if (last_core == NULL || (last_cpu >> 1) != (cpu >> 1)) {
		last_core = cpuinfo_linux_cpu_to_core_map[cpu];
		last_cpu = cpu;
	}
	return last_core;""")], keys="cur", checks=["P11"],
  needs="a thread moving between processors 2k and 2k+1 of different cores", breaks="the core of the previous processor"),
"init-retry": dict(prop="P05", edits=[("src/init.c", """	pthread_once(&init_guard, &cpuinfo_x86_linux_init);""", """	pthread_once(&init_guard, &cpuinfo_x86_linux_init);
	if (!cpuinfo_is_initialized) {
		init_guard = PTHREAD_ONCE_INIT;
	}""")], keys="init", checks=["P05", "P03", "P04"],
  needs="a first initialization that fails and a second one", breaks="the platform is read again"),
"init-flag-fast": dict(prop="P03", edits=[("src/init.c", """bool CPUINFO_ABI cpuinfo_initialize(void) {
""", """bool CPUINFO_ABI cpuinfo_initialize(void) {
	if (cpuinfo_processors_count != 0) {
		return true;
	}
""")], keys="init", checks=["P03", "P05"],
  needs="a thread that calls while another one is committing", breaks="returns true before the state is complete"),
"log-static": dict(prop="P24", edits=[("src/log.c", "	char stack_buffer[CPUINFO_LOG_STACK_BUFFER_SIZE];", "	static char stack_buffer[CPUINFO_LOG_STACK_BUFFER_SIZE];")], keys="log", checks=["P24", "P03"],
  needs="two threads logging at once", breaks="mixed messages"),
"log-two-writes": dict(prop="P24", edits=[("src/log.c", """	ssize_t bytes_written = write(
		output_handle, out_buffer, (prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char));
	(void)bytes_written;""", """	size_t left = (prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char);
	while (left != 0) {
		const size_t chunk = left < 4096 ? left : 4096;
		ssize_t bytes_written = write(output_handle, out_buffer, chunk);
		if (bytes_written <= 0) {
			break;
		}
		out_buffer += bytes_written;
		left -= (size_t)bytes_written;
	}""")], keys="log", checks=["P24"],
  needs="a message longer than 4096 bytes", breaks="written in pieces"),
"log-percent": dict(prop="P24", edits=[("src/log.c", """	const size_t format_length = (size_t)format_chars;""", """	const size_t format_length = strnlen(&stack_buffer[prefix_length], (size_t)format_chars);""")], keys="log", checks=["P24"],
  needs="a message longer than the buffer, or with a zero character", breaks="cut"),
"small-exact": dict(prop="P22", edits=[("src/linux/smallfile.c", """		buffer_position += (size_t)bytes_read;
		if (buffer_position >= buffer_size) {""", """		buffer_position += (size_t)bytes_read;
		if (bytes_read > 0 && buffer[buffer_position - 1] == '\\n') {
			break;
		}
		if (buffer_position >= buffer_size) {""")], keys="init", checks=["P22", "P08", "P26", "P01"],
  needs="a file with two lines, whose first arrives alone", breaks="the rest is not read"),
"apicid-tab": dict(prop="P09", edits=[("src/x86/linux/cpuinfo.c", """	processor->apic_id = apic_id;
	processor->flags |=""", """	if (processor->flags & CPUINFO_LINUX_FLAG_APIC_ID) {
		return;
	}
	processor->apic_id = apic_id;
	processor->flags |=""")], keys="procs", checks=["P09"],
  needs="a processor described twice", breaks="first description kept"),
"x86-max-map": dict(prop="P11", edits=[("src/x86/linux/init.c", """	cpuinfo_linux_cpu_max = x86_linux_processors_count;""", """	cpuinfo_linux_cpu_max = processors_count;""")], keys="cur", checks=["P11"],
  needs="holes in the Linux numbers", breaks="high processors are unknown"),
"x86-early-map": dict(prop="P05", edits=[("src/x86/linux/init.c", """	cores = calloc(cores_count, sizeof(struct cpuinfo_core));
	if (cores == NULL) {
		cpuinfo_log_error(
			"failed to allocate %zu bytes for descriptions of %" PRIu32 " cores",
			cores_count * sizeof(struct cpuinfo_core),
			cores_count);
		goto cleanup;
	}""", """	cores = calloc(cores_count, sizeof(struct cpuinfo_core));
	if (cores == NULL) {
		cpuinfo_log_error(
			"failed to allocate %zu bytes for descriptions of %" PRIu32 " cores",
			cores_count * sizeof(struct cpuinfo_core),
			cores_count);
		free(x86_linux_processors);
		free(processors);
		return;
	}""")], keys="init", checks=["P05"],
  needs="exactly the allocation of cores fails", breaks="two tables leak"),
"arm-leader-midr": dict(prop="P10", edits=[("src/arm/linux/init.c", """				arm_linux_processors[i].midr = arm_linux_processors[cluster_leader].midr;
""", """				if (!bitmask_all(arm_linux_processors[i].flags, CPUINFO_ARM_LINUX_VALID_MIDR)) {
					arm_linux_processors[i].midr = arm_linux_processors[cluster_leader].midr;
				}
""")], keys="cores", checks=["P10", "P07", "P26"],
  needs="a cluster of mixed identities", breaks="cores differ from their cluster"),
"arm-sort-signed": dict(prop="P10", edits=[("src/arm/linux/init.c", """		if (score_a != score_b) {
			return score_a > score_b ? -1 : 1;
		}""", """		if (score_a != score_b) {
			return (int8_t)(score_b - score_a);
		}""")], keys="procs", checks=["P10"],
  needs="scores far apart", breaks="order"),
"arm-siblings-cache": dict(prop="P10", edits=[("src/arm/linux/init.c", """				detected_cluster_cpus_list_node = true;
				continue;
			} else {""", """				detected_cluster_cpus_list_node = true;
				if (i + 1 == arm_linux_processors_count) {
					continue;
				}
			} else {""")], keys="procs", checks=["P10"], needs="-", breaks="-"),
"arm-uarch-run": dict(prop="P18", edits=[("src/arm/linux/init.c", """			if (uarchs_index == 0 || arm_linux_processors[i].uarch != last_uarch) {
				last_uarch = arm_linux_processors[i].uarch;
				uarchs[uarchs_index] =""", """			if (uarchs_index == 0 ||
			    (arm_linux_processors[i].uarch != last_uarch && uarchs_index < uarchs_count &&
			     arm_linux_processors[i].uarch != uarchs[0].uarch)) {
				last_uarch = arm_linux_processors[i].uarch;
				uarchs[uarchs_index] =""")], keys="uarchs", checks=["P18", "P07"],
  needs="a microarchitecture that returns after another one", breaks="counted with the one before"),
"arm-l3-last": dict(prop="P12", edits=[("src/arm/linux/init.c", """				if (cluster_id == 0) {
					big_l3_size = temp_l3.size;
				} else if""", """				if (cluster_id == 0 || temp_l3.size > big_l3_size) {
					big_l3_size = temp_l3.size;
				} else if""")], keys="caches", checks=["P12", "P21"],
  needs="a later cluster with a larger L3", breaks="shared wrongly"),
"arm-feat-union": dict(prop="P16", edits=[("src/arm/linux/init.c", """						isa_features2 &= arm_linux_processors[i].features2;""", """						isa_features2 |= arm_linux_processors[i].features2;""")], keys="isa", checks=["P16"],
  needs="Android without getauxval and auxv, processors that differ", breaks="features not common to all"),
"x86-cluster-smt": dict(prop="P09", edits=[("src/x86/linux/init.c", """	const uint32_t cluster_apic_mask = package_apic_mask | (llc_apic_mask & core_apic_mask);

	uint32_t processor_index""", """	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;

	uint32_t processor_index""")], keys="clusters", checks=["P09", "P01", "P07"],
  needs="a last-level cache private to a thread", breaks="clusters split a core"),
"x86-apic-order": dict(prop="P09", edits=[("src/x86/linux/init.c", """	      cmp_x86_linux_processor);""", """	      processors_count > 255 ? cmp_x86_linux_processor_id : cmp_x86_linux_processor);"""),
  ("src/x86/linux/init.c", """static void cpuinfo_x86_count_objects(""", """static int cmp_x86_linux_processor_id(const void* ptr_a, const void* ptr_b) {
	const struct cpuinfo_x86_linux_processor* a = (const struct cpuinfo_x86_linux_processor*)ptr_a;
	const struct cpuinfo_x86_linux_processor* b = (const struct cpuinfo_x86_linux_processor*)ptr_b;
	const bool usable_a = bitmask_all(a->flags, CPUINFO_LINUX_FLAG_VALID);
	const bool usable_b = bitmask_all(b->flags, CPUINFO_LINUX_FLAG_VALID);
	if (usable_a != usable_b) {
		return (int)usable_b - (int)usable_a;
	}
	return a->linux_id < b->linux_id ? -1 : 1;
}

static void cpuinfo_x86_count_objects(""")], keys="procs", checks=["P09"],
  needs="more than 255 processors whose Linux numbers are not in APIC order", breaks="order"),
"name-third": dict(prop="P19", edits=[("src/x86/name.c", """			if (erase_matching(token_start, token_length, "Triple-Core")) {
				state->context_core = token_end;
				return true;
			}""", """			if (erase_matching(token_start, token_length, "Triple-Core")) {
				return true;
			}""")], keys="packages", checks=["P19"], needs="-", breaks="-"),
"name-dash": dict(prop="P19", edits=[("src/x86/name.c", """					previous_token_ends_with_dash = (char_ptr[-1] == '-');""", """					previous_token_ends_with_dash = (token_start[0] == '-');""")], keys="packages", checks=["P19"],
  needs="a word that ends with a dash", breaks="space after a dash"),
"name-freq-only": dict(prop="P19", edits=[("src/x86/name.c", """		if (is_space(name, parser_state.frequency_separator)) {""", """		if (name == parser_state.frequency_separator) {""")], keys="packages", checks=["P19"],
  needs="decorations only before the @", breaks="frequency remains"),
"name-vendor-null": dict(prop="P19", edits=[("src/x86/name.c", """		package_name[CPUINFO_PACKAGE_NAME_MAX - 1] = '\\0';
		return 0;""", """		return 0;""")], keys="packages", checks=["P19", "P01"],
  needs="unknown vendor and 48 characters", breaks="not terminated (normalised name is at most 47)"),
"tool-size": dict(prop="P25", edits=[("tools/cache-info.c", """	} else if (size % UINT32_C(1024) == 0) {""", """	} else if (size >= UINT32_C(1024)) {""")], keys="tool", checks=["P25"],
  needs="a size that is no multiple of 1 KB", breaks="rounded"),
"tool-partition": dict(prop="P25", edits=[("tools/cache-info.c", """		if (cache->partitions != 1) {""", """		if (cache->partitions > 2) {""")], keys="tool", checks=["P25"],
  needs="two partitions", breaks="not printed"),
"tool-count": dict(prop="P25", edits=[("tools/cache-info.c", """	if (cpuinfo_get_l1d_caches_count() != 0) {
		report_cache(cpuinfo_get_l1d_caches_count(),""", """	if (cpuinfo_get_l1d_caches_count() != 0) {
		report_cache(cpuinfo_get_cores_count(),""")], keys="tool", checks=["P25"],
  needs="L1 data caches shared by cores or split per thread", breaks="count"),
"det-cores-last": dict(prop="P13", edits=[("src/x86/cache/deterministic.c", """	*package_cores_max = 1 + (regs.eax >> 26);""", """	if (level != 4) {
		*package_cores_max = 1 + (regs.eax >> 26);
	}""")], keys="-", checks=["P09", "P13"], needs="only an L4 described", breaks="core bits"),
"topo-legacy": dict(prop="P09", edits=[("src/x86/topology.c", """	const bool x2apic = !!(leaf1.ecx & UINT32_C(0x00200000));
	if (x2apic && (max_base_index >= UINT32_C(0xB))) {""", """	const bool x2apic = !!(leaf1.ecx & UINT32_C(0x00200000));
	if (x2apic && (max_base_index > UINT32_C(0xB))) {""")], keys="procs", checks=["P09"],
  needs="leaf 0xB is the last one", breaks="legacy rules used"),
"mcs-lazy": dict(prop="P04", edits=[("src/api.c", """	return cpuinfo_max_cache_size;
}""", """	static uint32_t max_size = 0;
	if (max_size == 0) {
		for (uint32_t i = 0; i < cpuinfo_cache_level_max; i++) {
			if (cpuinfo_cache_count[i] != 0 && cpuinfo_cache[i]->size > max_size) {
				max_size = cpuinfo_cache[i]->size;
			}
		}
		if (max_size < cpuinfo_max_cache_size) {
			max_size = cpuinfo_max_cache_size;
		}
	}
	return max_size;
}""")], keys="mcs", checks=["P03", "P13", "P21", "P04"],
  needs="first queries from two threads at once (or an inner cache larger than the last)", breaks="race"),
"smallfile-fd": dict(prop="P05", edits=[("src/linux/smallfile.c", """		if (bytes_read < 0) {
			cpuinfo_log_info(
				"failed to read file %s at position %zu: %s",
				filename,
				buffer_position,
				strerror(errno));
			goto cleanup;""", """		if (bytes_read < 0) {
			cpuinfo_log_info(
				"failed to read file %s at position %zu: %s",
				filename,
				buffer_position,
				strerror(errno));
			return false;""")], keys="init", checks=["P05"],
  needs="a read error in a small file", breaks="descriptor leaks"),
"smallfile-part": dict(prop="P05", edits=[("src/linux/smallfile.c", """				strerror(errno));
			goto cleanup;
		}
		buffer_position""", """				strerror(errno));
			if (buffer_position == 0) {
				goto cleanup;
			}
			break;
		}
		buffer_position""")], keys="init", checks=["P05", "P22"], needs="a read error after a first piece", breaks="truncated number believed"),
}
