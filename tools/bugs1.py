B = {
"x86-htt-mask": dict(prop="P09", edits=[("src/x86/topology.c", "const uint32_t logical_processors = (leaf1.ebx >> 16) & UINT32_C(0x000000FF);", "const uint32_t logical_processors = (leaf1.ebx >> 16) & UINT32_C(0x0000007F);")], keys="procs,cores,clusters,packages",
  needs="an Intel-style CPU without leaf 0xB that reports 128 or more addressable logical processors per package",
  breaks="threads of one core are reported as separate cores or packages"),
"x86-partitions-mask": dict(prop="P13", edits=[("src/x86/cache/deterministic.c", "const uint32_t partitions = 1 + ((regs.ebx >> 12) & UINT32_C(0x000003FF));\n	const uint32_t associativity = 1 + (regs.ebx >> 22);\n\n	*package", "const uint32_t partitions = 1 + ((regs.ebx >> 12) & UINT32_C(0x000001FF));\n	const uint32_t associativity = 1 + (regs.ebx >> 22);\n\n	*package")], keys="caches,maxcache",
  needs="a cache description in leaf 4 with more than 512 physical line partitions",
  breaks="the cache is reported half as large, with half of the partitions"),
"x86-avx512-os": dict(prop="P14", edits=[("src/x86/isa.c", "avx512_regs = (xfeature_enabled_mask & avx512_regs_mask) == avx512_regs_mask;", "avx512_regs = (xfeature_enabled_mask & avx512_regs_mask & UINT64_C(0xE6)) > UINT64_C(0xC0);")], keys="isa",
  needs="an operating system which enables the upper ZMM state but not the opmask state",
  breaks="AVX512 is reported as usable although executing it faults"),
"x86-zen3-model": dict(prop="P17", edits=[("src/x86/uarch.c", "						case 0x5: // model 50h ->\n							  // Cezanne\n							return cpuinfo_uarch_zen3;\n						case 0x1: // model 10h..1Fh ->", "							return cpuinfo_uarch_zen3;\n						case 0x5: // model 50h ->\n							  // Cezanne\n						case 0x1: // model 10h..1Fh ->")], keys="cores,clusters,uarchs",
  needs="an AMD family 19h processor with a model in 50h-5Fh",
  breaks="a Zen 3 processor is reported as Zen 4"),
}
