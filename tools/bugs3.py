B = {
"read-one-byte": dict(prop="P22", edits=[("src/linux/smallfile.c", "	} while (bytes_read != 0);", "	} while (bytes_read > 1);")], keys="procs,clusters,init", checks=["P22", "P08"],
  needs="a small kernel file that arrives with a piece of one byte", breaks="the rest of the file is ignored"),
"list-memcpy": dict(prop="P22", edits=[("src/linux/cpulist.c", "			memmove(buffer, entry_start, entry_length);", "			memcpy(buffer, entry_start, entry_length);")], keys="procs,init", checks=["P22", "P01", "P02", "P08"],
  needs="a list entry cut by a read, longer than the text before it", breaks="copies overlapping memory"),
"lines-memcpy": dict(prop="P22", edits=[("src/linux/multiline.c", "			memmove(buffer, line_start, line_length);", "			memcpy(buffer, line_start, line_length);")], keys="procs,init", checks=["P22", "P01", "P02"],
  needs="a long line of /proc/cpuinfo cut by a read early in the buffer", breaks="copies overlapping memory"),
"apic-16bit": dict(prop="P09", edits=[("src/x86/linux/cpuinfo.c", "		apic_id = apic_id * 10 + digit;", "		apic_id = (apic_id * 10 + digit) & UINT32_C(0xFFFF);")], keys="procs",
  needs="an APIC ID above 65535", breaks="processors get wrong APIC IDs, cores and packages"),
"proc-index-limit": dict(prop="P01", edits=[("src/x86/linux/cpuinfo.c", "	if (processor_index < max_processors_count) {", "	if (processor_index <= max_processors_count) {")], keys="init", checks=["P01", "P08"],
  needs="/proc/cpuinfo describing the processor just above the known ones", breaks="writes behind the array"),
"x86-decreasing": dict(prop="P08", edits=[("src/x86/linux/cpuinfo.c", "				state->processor_index = new_processor_index;", "				if (new_processor_index > processor_index) {\n					state->processor_index = new_processor_index;\n				}")], keys="procs", checks=["P08", "P09", "P22"],
  needs="/proc/cpuinfo with decreasing processor numbers", breaks="APIC IDs go to another processor"),
"arm-dummy-index": dict(prop="P02", edits=[("src/arm/linux/cpuinfo.c", "				if (new_processor_index < max_processors_count) {", "				if (new_processor_index <= max_processors_count) {")], keys="init", checks=["P02"],
  needs="/proc/cpuinfo describing the processor just above the known ones", breaks="writes behind the array"),
"arm-hw-limit": dict(prop="P20", edits=[("src/arm/linux/cpuinfo.c", "					value_length = CPUINFO_HARDWARE_VALUE_MAX;\n				} else if", "					value_length = CPUINFO_HARDWARE_VALUE_MAX - 1;\n				} else if")], keys="packages", checks=["P20", "P02"],
  needs="a Hardware line longer than the buffer", breaks="uninitialised last symbol"),
"arm-rev-upper": dict(prop="P18", edits=[("src/arm/linux/cpuinfo.c", "	} else if ((uint32_t)(digit_char - 'a') < 6) {\n		cpu_variant = 10 + (uint32_t)(digit_char - 'a');", "	} else if ((uint32_t)(digit_char - 'a') < 5) {\n		cpu_variant = 10 + (uint32_t)(digit_char - 'a');")], keys="cores", checks=["P18"],
  needs="CPU variant 0xf in lower case", breaks="the variant is not reported"),
"arm-cache-line128": dict(prop="P21", edits=[("src/arm/linux/cpuinfo.c", "			case 64:\n			case 128:\n", "			case 64:\n")], keys="caches", checks=["P21"],
  needs="a 32-bit kernel that reports 128-byte lines", breaks="the kernel's geometry is ignored"),
"arm-arch-tej": dict(prop="P16", edits=[("src/arm/linux/cpuinfo.c", "					case 'J':\n						processor->architecture_flags |= CPUINFO_ARM_LINUX_ARCH_J;", "					case 'J':\n						processor->architecture_flags = CPUINFO_ARM_LINUX_ARCH_J;")], keys="isa,cores", checks=["P16", "P18", "P21"],
  needs="an ARMv5TEJ core", breaks="reported as ARMv5T without E"),
"arm32-tlsi": dict(prop="P16", edits=[("src/arm/linux/cpuinfo.c", 'memcmp(feature_start, "idiva", feature_length)', 'memcmp(feature_start, "idivA", feature_length)')], keys="isa", checks=["P16"],
  needs="features read from /proc/cpuinfo only, with idiva", breaks="division instructions are not reported"),
"auxv-hwcap2": dict(prop="P16", edits=[("src/arm/linux/hwcap.c", "	*hwcap2 = getauxval(AT_HWCAP2);\n\ncleanup:", "	*hwcap2 = getauxval(AT_HWCAP);\n\ncleanup:")], keys="isa", checks=["P16"],
  needs="Android on 32-bit ARM with getauxval", breaks="crypto instructions are reported by the wrong word"),
"auxv-order": dict(prop="P16", edits=[("src/arm/linux/hwcap.c", "	} while (bytes_read == sizeof(Elf32_auxv_t));", "	} while (bytes_read == sizeof(Elf32_auxv_t) && hwcaps[0] == 0);")], keys="isa", checks=["P16"],
  needs="an auxiliary vector with AT_HWCAP2 after AT_HWCAP", breaks="crypto instructions are missing"),
"riscv-probe-zero": dict(prop="P23", edits=[("src/riscv/linux/riscv-hw.c", "	CPU_SET_S(processor, cpu_set_size, cpu_set);", "	CPU_SET_S(0, cpu_set_size, cpu_set);")], keys="cores", checks=["P23"],
  needs="harts of different vendors", breaks="all harts get the vendor of hart 0"),
"riscv-vendor-bits": dict(prop="P23", edits=[("src/riscv/linux/riscv-hw.c", "				vendor_id = pairs[pair].value;", "				vendor_id = pairs[pair].value & 0xFFFF;")], keys="cores", checks=["P23"],
  needs="a vendor id whose low half is that of SiFive", breaks="another vendor is reported"),
"riscv-core-second": dict(prop="P23", edits=[("src/riscv/linux/init.c", "	if (bitmask_all(processors[processor].flags, CPUINFO_LINUX_FLAG_CORE_CLUSTER)) {\n		processor_start = processors[processor].core_leader_id;\n	}\n", "")], keys="cores,procs", checks=["P23"],
  needs="a core whose threads are listed in two ranges", breaks="the core is split"),
"riscv-package-second": dict(prop="P23", edits=[("src/riscv/linux/init.c", "	if (bitmask_all(processors[processor].flags, CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER)) {\n		processor_start = processors[processor].package_leader_id;\n	}\n", "")], keys="packages,procs", checks=["P23"],
  needs="a package whose harts are listed in two ranges", breaks="the package is split"),
"riscv-freq": dict(prop="P23", edits=[("src/riscv/linux/init.c", "UINT64_C(1000) * frequency", "UINT32_C(1000) * frequency")], keys="cores", checks=["P23"],
  needs="a frequency above 4.29 GHz", breaks="the frequency wraps"),
"riscv-map": dict(prop="P11", edits=[("src/riscv/linux/init.c", "		uint32_t linux_id = riscv_linux_processors[processor].processor.linux_id;", "		uint32_t linux_id = processor;")], keys="cur", checks=["P11", "P23"],
  needs="harts whose order by microarchitecture or package differs from their numbers", breaks="current processor is another one"),
"log-stack-limit": dict(prop="P24", edits=[("src/log.c", "	if ((prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char) >\n", "	if ((prefix_length + format_length) * sizeof(char) >\n")], keys="init", checks=["P24"],
  needs="a message that with its prefix fills the buffer exactly", breaks="newline written behind the buffer"),
"log-copy": dict(prop="P24", edits=[("src/log.c", "			format,\n			args_copy);", "			format,\n			args);")], keys="init", checks=["P24"],
  needs="a message longer than the buffer with arguments", breaks="arguments read twice"),
"x86-xcr0-valid": dict(prop="P14", edits=[("src/x86/isa.c", "			xcr0_valid_bits = ((uint64_t)regs.edx << 32) | regs.eax;", "			xcr0_valid_bits = regs.eax & 0xFF;")], keys="isa", checks=["P14"],
  needs="AMX state enabled", breaks="AMX is never reported"),
"x86-mpx-mask": dict(prop="P14", edits=[("src/x86/isa.c", "			mpx_regs = (xfeature_enabled_mask & mpx_regs_mask) == mpx_regs_mask;", "			mpx_regs = (xfeature_enabled_mask & mpx_regs_mask) != 0;")], keys="isa", checks=["P14"],
  needs="one of two MPX states enabled", breaks="MPX reported though unusable"),
"x86-core-id-package": dict(prop="P09", edits=[("src/x86/linux/init.c", "				core_id = 0;\n				cluster_id = 0;", "				core_id = 0;")], keys="clusters", checks=["P09", "P07"],
  needs="several packages", breaks="cluster numbers continue in the next package"),
"x86-l4-count": dict(prop="P13", edits=[("src/x86/linux/init.c", "					/* another processor sharing the same\n					 * cache */\n					l4[l4_index].processor_count += 1;", "					/* another processor sharing the same\n					 * cache */\n					l4[l4_index].processor_count = processor_index - l4[0].processor_start + 1;")], keys="caches", checks=["P12", "P13"],
  needs="several L4 caches", breaks="processor counts of later L4 caches are too large"),
"x86-flags-inclusive": dict(prop="P13", edits=[("src/x86/linux/init.c", "						.flags = x86_processor.cache.l3.flags,", "						.flags = x86_processor.cache.l2.flags,")], keys="caches", checks=["P13"],
  needs="different flags of the caches", breaks="flags of L3 are those of L2"),
"uint32-tail": dict(prop="P10", edits=[("src/linux/processors.c", "		const uint32_t digit = (uint32_t)(uint8_t)(*parsed) - (uint32_t)'0';\n		if (digit >= 10) {\n			break;\n		}\n		number = number * UINT32_C(10) + digit;", "		const uint32_t digit = (uint32_t)(uint8_t)(*parsed) - (uint32_t)'0';\n		if (digit >= 10 || number > 99999) {\n			break;\n		}\n		number = number * UINT32_C(10) + digit;")], keys="procs,clusters", checks=["P10", "P26", "P23"],
  needs="numbers with more than six digits", breaks="numbers are cut"),
"siblings-limit": dict(prop="P02", edits=[("src/linux/processors.c", "		sibling_list_end = max_processors_count;\n", "		sibling_list_end = max_processors_count + 1;\n")], keys="init", checks=["P02"],
  needs="a sibling list naming processors above the known ones", breaks="memory behind the array is used"),
"possible-max": dict(prop="P08", edits=[("src/linux/processors.c", "	if (*processor_number_ptr < processor_list_last) {\n		*processor_number_ptr = processor_list_last;\n	}", "	*processor_number_ptr = processor_list_last;")], keys="procs", checks=["P08"],
  needs="a list that does not end with its largest number", breaks="processors are lost"),
}
