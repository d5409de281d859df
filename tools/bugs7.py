B = {
"arm64-a55-dot": dict(prop="P15", edits=[("src/arm/linux/aarch64-isa.c", """			isa->dot = !!(midr_get_variant(midr) >= 1);""", """			isa->dot = !!(midr_get_variant(midr) > 1);""")], keys="isa", checks=["P15"],
  needs="a Cortex-A55 r1 whose kernel reports no dot products", breaks="dot products of Cortex-A55 r1 are not reported"),
"arm64-svebf16": dict(prop="P15", edits=[("src/arm/linux/aarch64-isa.c", """	if (features2 & (CPUINFO_ARM_LINUX_FEATURE2_BF16 | CPUINFO_ARM_LINUX_FEATURE2_SVEBF16)) {""", """	if (features2 & CPUINFO_ARM_LINUX_FEATURE2_BF16) {""")], keys="isa", checks=["P15"],
  needs="a kernel that knows SVEBF16 but not BF16", breaks="BF16 is not reported"),
"chip-unisoc-t": dict(prop="P20", edits=[("src/arm/linux/chipset.c", """	for (uint32_t i = 8; i < length; i++) {
		const uint32_t digit = (uint32_t)(uint8_t)start[i] - '0';
		if (digit >= 10) {
			/* Not really a digit */
			return false;
		}
		model = model * 10 + digit;
	}

	*chipset = (struct cpuinfo_arm_chipset){
		.vendor = cpuinfo_arm_chipset_vendor_unisoc,
		.series = cpuinfo_arm_chipset_series_unisoc_t,""", """	for (uint32_t i = 8; i < 11; i++) {
		const uint32_t digit = (uint32_t)(uint8_t)start[i] - '0';
		if (digit >= 10) {
			/* Not really a digit */
			return false;
		}
		model = model * 10 + digit;
	}

	*chipset = (struct cpuinfo_arm_chipset){
		.vendor = cpuinfo_arm_chipset_vendor_unisoc,
		.series = cpuinfo_arm_chipset_series_unisoc_t,""")], keys="packages", checks=["P20"],
  needs="a Unisoc T chip with four digits", breaks="the last digit is lost"),
"log-exact": dict(prop="P24", edits=[("src/log.c", """	if ((prefix_length + format_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char) >
	    CPUINFO_LOG_STACK_BUFFER_SIZE) {""", """	if ((prefix_length + format_length) * sizeof(char) > CPUINFO_LOG_STACK_BUFFER_SIZE) {""")], keys="log", checks=["P24"],
  needs="a message that fills the buffer exactly", breaks="a byte past the buffer is written and the last character lost"),
"max-cache-l4": dict(prop="P12", edits=[("src/cache.c", """	} else if (processor->cache.l3 != NULL) {
		return processor->cache.l3->size;""", """	} else if (processor->cache.l3 != NULL && processor->cache.l2 != NULL) {
		return processor->cache.l3->size;""")], keys="mcs", checks=["P12", "P13"],
  needs="an L3 cache without L2", breaks="the largest cache is missed"),
"kmax-empty": dict(prop="P08", edits=[("src/linux/processors.c", """		number = number * UINT32_C(10) + digit;
	}
	*number_ptr = number;
	return parsed;""", """		number = (number * UINT32_C(10) + digit) & UINT32_C(0xFFFF);
	}
	*number_ptr = number;
	return parsed;""")], keys="cores", checks=["P08", "P10", "P26"],
  needs="a number above 65535, such as a frequency", breaks="frequencies wrap"),
"riscv-cluster-range": dict(prop="P23", edits=[("src/riscv/linux/init.c", """	if (!bitmask_all(processors[processor].flags, CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER) ||
	    processors[processor].package.processor_start > processor_start) {""", """	if (!bitmask_all(processors[processor].flags, CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER) &&
	    processors[processor].package.processor_start <= processor_start) {""")], keys="packages", checks=["P23"],
  needs="-", breaks="-"),
}
