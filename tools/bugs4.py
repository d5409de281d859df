B = {
"mach-core-id": dict(prop="P27", edits=[("src/x86/mach/init.c", "			.core_id = i % cores_per_package,", "			.core_id = i,")], keys="cores",
  needs="a Mac with several packages", breaks="cores of later packages continue the numbering"),
"mach-l2-last": dict(prop="P27", edits=[("src/x86/mach/init.c", "				threads_per_l2 = mach_topology.threads / mach_topology.packages;", "				threads_per_l2 = mach_topology.threads;")], keys="caches",
  needs="several packages, no hw.cacheconfig for L2 and no L3", breaks="one L2 is shared by all packages"),
"mach-l4-fallback": dict(prop="P27", edits=[("src/x86/mach/init.c", "			threads_per_l4 = mach_topology.threads;", "			threads_per_l4 = mach_topology.threads / mach_topology.packages;")], keys="caches",
  needs="an L4 without hw.cacheconfig and several packages", breaks="L4 split"),
"mach-cacheconfig-size": dict(prop="P27", edits=[("src/mach/topology.c", "			size_t cache_configs = cacheconfig_size / sizeof(uint64_t);", "			size_t cache_configs = cacheconfig_size / sizeof(uint64_t) - 1;")], keys="caches", checks=["P27", "P30"],
  needs="hw.cacheconfig with exactly as many entries as levels", breaks="last level ignored"),
"mach-smt-id": dict(prop="P27", edits=[("src/x86/mach/init.c", "		const uint32_t smt_id = i % threads_per_core;", "		const uint32_t smt_id = i & (threads_per_core - 1);")], keys="procs",
  needs="threads per core that are no power of two", breaks="SMT ids wrong"),
"freebsd-tag-order": dict(prop="P27", edits=[("src/freebsd/topology.c", '{"<group level=\\"2\\" cache-level=\\"0\\">", "<group level=\\"1\\" "}', '{"<group level=\\"1\\" ", "<group level=\\"2\\" cache-level=\\"0\\">"}')], keys="packages",
  needs="a topology with groups of both levels", breaks="always one package"),
"freebsd-l3": dict(prop="P27", edits=[("src/x86/freebsd/init.c", "		threads_per_l3 = freebsd_topology.threads / freebsd_topology.packages;", "		threads_per_l3 = freebsd_topology.threads;")], keys="caches",
  needs="several packages", breaks="one L3 for all packages"),
"freebsd-spec-level": dict(prop="P27", edits=[("src/freebsd/topology.c", '"<group level=\\"1\\" "', '"<group level=\\"1\\" cache-level=\\"3\\">"')], keys="init",
  needs="a single-package topology whose first group has another cache level", breaks="initialization fails"),
"freebsd-str-size": dict(prop="P30", edits=[("src/freebsd/topology.c", "	value_size += 1;\n", "")], keys="init",
  needs="a topology string answered without final zero", breaks="read behind the buffer"),
"ios-lightning-dot": dict(prop="P28", edits=[("src/arm/mach/init.c", "		// Mandatory in ARMv8.4-A, list only cores released before iOS\n		// 15 / macOS 12\n		switch (cpu_family) {\n			case CPUFAMILY_ARM_LIGHTNING_THUNDER:\n", "		// Mandatory in ARMv8.4-A, list only cores released before iOS\n		// 15 / macOS 12\n		switch (cpu_family) {\n")], keys="isa",
  needs="A13 on an old iOS", breaks="dot product is not reported"),
"ios-fhm-legacy": dict(prop="P28", edits=[("src/arm/mach/init.c", '"hw.optional.armv8_2_fhm"', '"hw.optional.armv8_2_fp16"')], keys="isa",
  needs="old macOS on a new core which answers only the old name", breaks="FHM is not reported"),
"ios-vortex-split": dict(prop="P28", edits=[("src/arm/mach/init.c", "return core_index + 4 < core_count ? cpuinfo_uarch_vortex", "return core_index < 2 ? cpuinfo_uarch_vortex")], keys="cores",
  needs="an octa-core A12X", breaks="two fast cores reported as slow"),
"ios-ipad7": dict(prop="P28", edits=[("src/arm/mach/init.c", "suffix = minor <= 4 ? 'X' : '\\0';", "suffix = minor < 4 ? 'X' : '\\0';")], keys="packages",
  needs="iPad7,4", breaks="named A10"),
"ios-family-signed": dict(prop="P28", edits=[("src/arm/mach/init.c", "	const uint32_t cpu_family = get_sys_info_by_name(\"hw.cpufamily\");", "	const uint32_t cpu_family = get_sys_info_by_name(\"hw.cpufamily\") & INT32_MAX;")], keys="cores",
  needs="a family number with the top bit set", breaks="uarch unknown"),
"ios-brand-len": dict(prop="P28", edits=[("src/arm/mach/init.c", "	strlcpy(package_name, brand_string, CPUINFO_PACKAGE_NAME_MAX);", "	strlcpy(package_name, brand_string, 32);")], keys="packages",
  needs="a brand string longer than 31", breaks="cut"),
"ios-l3-count": dict(prop="P28", edits=[("src/arm/mach/init.c", "		threads_per_l3 = mach_topology.threads;\n		l3_count = 1;", "		threads_per_l3 = mach_topology.threads;\n		l3_count = mach_topology.packages;")], keys="caches", checks=["P28", "P30"],
  needs="several packages", breaks="further L3 caches with wrong ranges"),
"ios-name-9": dict(prop="P30", edits=[("src/arm/mach/init.c", '"%9[^,0123456789]%"', '"%10[^,0123456789]%"')], keys="init", checks=["P30", "P28"],
  needs="a machine name of ten letters", breaks="one byte behind the buffer"),
"wasm-eight": dict(prop="P29", edits=[("src/emscripten/init.c", "processor_count >= 8 ? 4 : 2", "processor_count > 8 ? 4 : 2")], keys="clusters",
  needs="exactly eight processors on ARM", breaks="two big cores instead of four"),
"wasm-l2-index": dict(prop="P29", edits=[("src/emscripten/init.c", "				.cache.l2 = is_x86 ? l2 + i : l2 + (uint32_t)(i >= big_cluster_core_count),", "				.cache.l2 = is_x86 ? l2 + i : l2 + (uint32_t)(i > big_cluster_core_count),")], keys="procs",
  needs="a big.LITTLE ARM", breaks="first little core points to the big L2"),
"wasm-negative": dict(prop="P29", edits=[("src/emscripten/init.c", "	if (logical_cores_count <= 0) {", "	if (logical_cores_count == 0) {")], keys="init", checks=["P29", "P30"],
  needs="a negative number of cores", breaks="huge allocation"),
"win-buffer": dict(prop="P31", edits=[("src/x86/windows/init.c", "	max_info_size = max(cores_info_size, packages_info_size);\n	if (GetLog", "	if (GetLog")], keys="init", checks=["P31"],
  needs="core information larger than package information", breaks="second query fails"),
"win-newpkg": dict(prop="P31", edits=[("src/x86/windows/init.c", "					package_core_start = core_id;\n", "					package_core_start = core_id - 1;\n")], keys="procs", checks=["P31"],
  needs="several packages", breaks="APIC ids of later packages start at 1"),
"win-newpkg2": dict(prop="P31", edits=[("src/x86/windows/init.c", "				if (processors[processor_id].apic_id != current_package_apic_id) {", "				if (processors[processor_id].apic_id > current_package_apic_id && smt_id == 0) {")], keys="procs", checks=["P31"],
  needs="-", breaks="-"),
"win-groups": dict(prop="P31", edits=[("src/x86/windows/init.c", "		count += processors_per_group[i];\n", "		count += processors_per_group[0];\n")], keys="procs", checks=["P31"],
  needs="groups of different sizes, at least three or first different", breaks="processors of later groups overlap"),
"win-grp8": dict(prop="P31", edits=[("src/x86/windows/init.c", "processors[processor_id].windows_processor_id = (uint16_t)group_processor_id;", "processors[processor_id].windows_processor_id = (uint16_t)(group_processor_id & 31);")], keys="procs", checks=["P31"],
  needs="groups with more than 32 processors", breaks="wrong number"),
"win-coremask": dict(prop="P31", edits=[("src/x86/windows/init.c", "		core->core_id = core_bits_mask & (processor->apic_id >> x86_processor.topology.core_bits_offset);", "		core->core_id = processor->apic_id >> x86_processor.topology.core_bits_offset;")], keys="cores", checks=["P31"],
  needs="several packages", breaks="core ids contain the package"),
"win-l3-last": dict(prop="P31", edits=[("src/x86/windows/init.c", "			if (l3_id != last_l3_id) {\n				/* new cache */\n				last_l3_id = l3_id;", "			if (l3_id > last_l3_id || last_l3_id == UINT32_MAX) {\n				/* new cache */\n				last_l3_id = l3_id;")], keys="caches", checks=["P31", "P30"],
  needs="APIC ids not increasing", breaks="-"),
"woa-groupcount": dict(prop="P32", edits=[("src/arm/windows/init-by-logical-sys-info.c", "	const uint32_t group_count = max(info->Cache.GroupCount, 1);", "	const uint32_t group_count = info->Cache.GroupCount;")], keys="caches", checks=["P32"],
  needs="an older Windows that leaves GroupCount zero", breaks="no processor uses the cache"),
"woa-freq32": dict(prop="P32", edits=[("src/arm/windows/init.c", "	uint64_t frequency_hz = frequency_mhz * 1000000;", "	uint64_t frequency_hz = (uint32_t)frequency_mhz * UINT32_C(1000000);")], keys="cores", checks=["P32"],
  needs="a frequency above 4.29 GHz", breaks="wraps"),
"woa-namelen": dict(prop="P32", edits=[("src/arm/windows/init.c", "wcsndup(text_buffer, CPUINFO_PACKAGE_NAME_MAX - 1);", "wcsndup(text_buffer, CPUINFO_PACKAGE_NAME_MAX);")], keys="packages", checks=["P32", "P30"],
  needs="a processor name of 48 symbols or more", breaks="initialization fails"),
"woa-unified": dict(prop="P32", edits=[("src/arm/windows/init-by-logical-sys-info.c", "	if (info->Cache.Type == CacheUnified) {\n		current_cache", "	if (info->Cache.Level > 1) {\n		current_cache")], keys="caches", checks=["P32"],
  needs="an L2 that is not unified", breaks="reported as unified"),
"woa-uarch-first": dict(prop="P32", edits=[("src/arm/windows/init-by-logical-sys-info.c", "			uarchs[uarch_index].processor_count += cores[i].processor_count;", "			uarchs[uarch_index].processor_count++;")], keys="uarchs", checks=["P32"],
  needs="cores with several threads", breaks="too few processors"),
"woa-range": dict(prop="P30", edits=[("src/arm/windows/init-by-logical-sys-info.c", "			if (processor_global_index >= nr_of_processors) {", "			if (processor_global_index > nr_of_processors) {")], keys="init", checks=["P30"],
  needs="a mask naming one processor too many", breaks="write behind the array"),
"woa-crypto": dict(prop="P32", edits=[("src/arm/windows/init.c", "	cpuinfo_isa.pmull = crypto;", "	cpuinfo_isa.pmull = crypto && dotprod;")], keys="isa", checks=["P32"],
  needs="crypto without dot product", breaks="PMULL missing"),
"woa-cluster-count": dict(prop="P32", edits=[("src/arm/windows/init-by-logical-sys-info.c", "		package->cluster_count = package->core_count;", "		package->cluster_count = nr_of_cores;")], keys="packages", checks=["P32"],
  needs="several packages", breaks="cluster counts too large"),
"mock-reopen": dict(prop="P33", edits=[("src/linux/mockfile.c", "	cpuinfo_mock_files[fd].offset = SIZE_MAX;\n	return 0;", "	cpuinfo_mock_files[fd].offset = cpuinfo_mock_files[fd].size != 0 ? SIZE_MAX : 0;\n	return 0;")], keys="init", checks=["P33"],
  needs="an empty file opened twice", breaks="the second open fails"),
"mock-eof": dict(prop="P33", edits=[("src/linux/mockfile.c", "	size_t count = cpuinfo_mock_files[fd].size - offset;", "	size_t count = strlen(cpuinfo_mock_files[fd].content + offset);")], keys="init", checks=["P33"],
  needs="a file with a zero byte", breaks="cut at zero bytes"),
"mock-prefix": dict(prop="P33", edits=[("src/linux/mockfile.c", "		if (strcmp(cpuinfo_mock_files[i].path, path) == 0) {", "		if (strncmp(cpuinfo_mock_files[i].path, path, strlen(path)) == 0) {")], keys="init", checks=["P33"],
  needs="a path that begins another one and comes later", breaks="another file is opened"),
"mock-ecx": dict(prop="P33", edits=[("src/x86/mockcpuid.c", "	cpuinfo_mock_cpuid_leaf4_iteration = 0;\n	if (cpuinfo_mock_cpuid_data != NULL && cpuinfo_mock_cpuid_entries != 0) {\n		for", "	if (cpuinfo_mock_cpuid_data != NULL && cpuinfo_mock_cpuid_entries != 0) {\n		for")], keys="init", checks=["P33"],
  needs="leaf 4 walked, then a subleaf query, then leaf 4 again", breaks="the second walk goes on where the first stopped"),
"mock-entries16": dict(prop="P33", edits=[("src/x86/mockcpuid.c", "	cpuinfo_mock_cpuid_entries = entries;", "	cpuinfo_mock_cpuid_entries = (uint8_t)entries;")], keys="init", checks=["P33"],
  needs="more than 255 entries", breaks="the rest is ignored"),
"script-cpu16": dict(prop="P34", edits=[("scripts/arm-linux-filesystem-dump.py", "for cpu in range(16):", "for cpu in range(15):")], keys="init", checks=["P34"],
  needs="sixteen processors", breaks="last missing"),
"script-index": dict(prop="P34", edits=[("scripts/android-device-dump.py", "for index in range(5):", "for index in range(4):")], keys="init", checks=["P34"],
  needs="five caches", breaks="last missing"),
"script-kernelmax": dict(prop="P34", edits=[("scripts/android-device-dump.py", "for cpu in range(kernel_max + 1):", "for cpu in range(kernel_max):")], keys="init", checks=["P34"],
  needs="the last possible cpu present", breaks="last missing"),
"script-quote": dict(prop="P34", edits=[("scripts/android-device-dump.py", "% c_escape(value))", "% value.decode())")], keys="init", checks=["P34"],
  needs="a property with a quote", breaks="not C any more"),
}
