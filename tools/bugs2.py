T = "\t"
B = {
"x86-cluster-l4": dict(prop="P09", edits=[("src/x86/linux/init.c", "	if (x86_processor.cache.l4.size != 0) {\n		llc_apic_bits = x86_processor.cache.l4.apic_bits;\n	} else if (x86_processor.cache.l3.size != 0) {", "	if (x86_processor.cache.l3.size != 0) {")], keys="procs,clusters",
  needs="a processor with an L4 cache that more processors share than its L3", breaks="processors sharing the last-level cache are split into several clusters"),
"x86-cluster-mask": dict(prop="P09", edits=[("src/x86/linux/init.c", "	const uint32_t cluster_apic_mask = package_apic_mask | (llc_apic_mask & core_apic_mask);\n\n	uint32_t processor_index", "	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;\n\n	uint32_t processor_index"), ("src/x86/linux/init.c", "	const uint32_t cluster_apic_mask = package_apic_mask | (llc_apic_mask & core_apic_mask);\n\n	uint32_t cores_count", "	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;\n\n	uint32_t cores_count")], keys="procs,clusters",
  needs="a last-level cache described as private to a thread of an SMT core", breaks="clusters split cores"),
"x86-leak-l3": dict(prop="P05", edits=[("src/x86/linux/init.c", "	free(l2);\n	free(l3);\n", "	free(l2);\n")], keys="ev,init",
  needs="an allocation failing for the L4 cache descriptions of a system that has one", breaks="memory of the L3 descriptions is lost"),
"x86-present-missing": dict(prop="P08", edits=[("src/x86/linux/init.c", "		valid_processor_mask |= CPUINFO_LINUX_FLAG_PRESENT;\n	}\n", "	}\n	valid_processor_mask |= CPUINFO_LINUX_FLAG_PRESENT;\n")], keys="init,procs",
  needs="an unreadable list of present processors", breaks="no processor is usable, initialization fails"),
"api-deinit": dict(prop="P04", edits=[("src/init.c", "void CPUINFO_ABI cpuinfo_deinitialize(void) {}", "void CPUINFO_ABI cpuinfo_deinitialize(void) {\n	cpuinfo_is_initialized = false;\n}")], keys="stable",
  needs="queries after deinitialization", breaks="queries stop the program after deinitialization"),
"init-flag": dict(prop="P03", edits=[("src/init.c", "	pthread_once(&init_guard, &cpuinfo_arm_linux_init);\n", "	if (!cpuinfo_is_initialized) {\n		pthread_mutex_t* guard = NULL;\n		(void)guard;\n		cpuinfo_arm_linux_init();\n	}\n	(void)init_guard;\n")], keys="threads",
  needs="two threads which initialize at the same time", breaks="both build the arrays; a thread can see arrays of different runs"),
"arm-early-flag": dict(prop="P03", edits=[("src/arm/linux/init.c", "	__sync_synchronize();\n\n	cpuinfo_is_initialized = true;\n", "	__sync_synchronize();\n"), ("src/arm/linux/init.c", "	/* Commit */\n", "	/* Commit */\n	cpuinfo_is_initialized = true;\n")], keys="threads",
  needs="a thread that queries while another still initializes", breaks="a query that passes the guard sees missing arrays"),
"api-default-index": dict(prop="P11", edits=[("src/api.c", "	if CPUINFO_UNLIKELY ((uint32_t)cpu >= cpuinfo_linux_cpu_max) {\n		return default_uarch_index;\n	}", "	if CPUINFO_UNLIKELY ((uint32_t)cpu >= cpuinfo_linux_cpu_max) {\n		return 0;\n	}")], keys="cur",
  needs="a thread on a processor number above the known ones of a system with several core types, and a default other than 0", breaks="the caller's default is ignored"),
"api-core-limit": dict(prop="P11", edits=[("src/api.c", "	if CPUINFO_UNLIKELY ((uint32_t)cpu >= cpuinfo_linux_cpu_max) {\n		return 0;\n	}\n	return cpuinfo_linux_cpu_to_core_map[cpu];", "	if CPUINFO_UNLIKELY ((uint32_t)cpu > cpuinfo_linux_cpu_max) {\n		return 0;\n	}\n	return cpuinfo_linux_cpu_to_core_map[cpu];")], keys="cur",
  needs="a thread on the processor whose number is one above the largest known", breaks="memory behind the map is read"),
"api-l4-guard": dict(prop="P06", edits=[("src/api.c", '	if CPUINFO_UNLIKELY (!cpuinfo_is_initialized) {\n		cpuinfo_log_fatal("cpuinfo_get_%s called before cpuinfo is initialized", "l4_caches");\n	}\n', "")], keys="pre",
  needs="a query of the L4 caches before initialization", breaks="the query returns instead of stopping the program"),
"api-x86-uarch-index": dict(prop="P06", edits=[("src/api.c", "	if CPUINFO_UNLIKELY (index != 0) {\n		return NULL;\n	}\n	return &cpuinfo_global_uarch;", "	if CPUINFO_UNLIKELY (index > 1) {\n		return NULL;\n	}\n	return &cpuinfo_global_uarch;")], keys="range_bad",
  needs="the microarchitecture with index 1 on x86", breaks="an object is returned for an index out of range"),
"arm-l3-shared": dict(prop="P21", edits=[("src/arm/linux/init.c", "				} else if (temp_l3.size != big_l3_size) {", "				} else if (temp_l3.size > big_l3_size) {")], keys="caches,procs",
  needs="a system whose second cluster has a smaller L3 than the first", breaks="one L3 is reported for clusters with different ones"),
"arm-max-freq-leader": dict(prop="P10", edits=[("src/arm/linux/init.c", "				arm_linux_processors[i].max_frequency =\n					arm_linux_processors[cluster_leader].max_frequency;\n", "")], keys="procs,clusters",
  needs="processors of a cluster with different maximum frequencies beside a cluster of the same core type", breaks="clusters are interleaved"),
"arm-siblings-invalid": dict(prop="P10", edits=[("src/arm/linux/init.c", "		if (sibling_package_leader_id < package_leader_id) {", "		if (sibling_package_leader_id < package_leader_id && sibling != siblings_start) {")], keys="procs,clusters",
  needs="sibling lists whose first entry alone carries the smallest number", breaks="siblings are reported in different clusters"),
"arm-big-little-freq": dict(prop="P26", edits=[("src/arm/linux/midr.c", "		if (processors[little_cluster_leader].max_frequency > processors[other_cluster_leader].max_frequency) {", "		if (processors[little_cluster_leader].max_frequency < processors[other_cluster_leader].max_frequency) {")], keys="procs,clusters,cores",
  needs="two clusters, the first one faster, with identity for one only", breaks="big and LITTLE are swapped"),
"arm-heur-minfreq": dict(prop="P26", edits=[("src/arm/linux/clusters.c", "						} else {\n							cluster_min_frequency = processors[i].min_frequency;\n							cluster_flags |= CPUINFO_LINUX_FLAG_MIN_FREQUENCY;", "						} else {\n							cluster_flags |= CPUINFO_LINUX_FLAG_MIN_FREQUENCY;")], keys="procs,clusters",
  needs="no sibling lists, and a first processor of a cluster without minimum frequency", breaks="the known cluster shape is rejected"),
"arm-midr-verify": dict(prop="P26", edits=[("src/arm/linux/midr.c", "						if (processors[cluster_leader].flags & CPUINFO_ARM_LINUX_VALID_PART) {\n							midr_mask |= CPUINFO_ARM_MIDR_PART_MASK;\n						}\n", "")], keys="cores,clusters",
  needs="a chipset with known clusters whose kernel names another part for a cluster", breaks="the part named by the kernel is replaced by the table's"),
"arm-arch-leader": dict(prop="P21", edits=[("src/arm/linux/init.c", "				arm_linux_processors[i].architecture_version =\n					arm_linux_processors[cluster_leader].architecture_version;\n", "")], keys="caches",
  needs="a cluster with processors the kernel describes without architecture version", breaks="the caches of these processors differ from the cluster's"),
"kernel-max": dict(prop="P08", edits=[("src/linux/processors.c", '			max_possible_processor,\n			max_processors_count - 1);\n		max_possible_processor = max_processors_count - 1;', '			max_possible_processor,\n			max_processors_count - 1);\n		max_possible_processor = max_processors_count - 2;')], keys="procs",
  needs="a list of possible processors beyond the kernel's maximum", breaks="the last allowed processor is lost"),
"list-chunk": dict(prop="P22", edits=[("src/linux/cpulist.c", "	} while (bytes_read != 0);", "	} while (bytes_read != 0 && data_start != buffer);")], keys="procs,init",
  needs="a read which ends exactly behind a comma of a processor list", breaks="the rest of the list is ignored"),
"list-space": dict(prop="P08", edits=[("src/linux/cpulist.c", "		case ' ':\n		case '\\t':\n		case '\\n':\n		case '\\r':\n			return true;", "		case ' ':\n		case '\\n':\n			return true;")], keys="procs,init",
  needs="white space other than blanks and line ends around entries of a processor list", breaks="the entry is rejected"),
}
