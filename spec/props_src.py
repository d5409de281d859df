p("P09","x86 cores, clusters and packages follow the processors' APIC IDs",
 "On x86 Linux, two usable processors are reported in the same core, or the same package, exactly when their APIC IDs agree above the thread bits, respectively above the thread and core bits, that CPUID describes (leaf 0xB when x2APIC is present, else leaves 1, 4 and 0x80000008); clusters group the processors of one package that share the last-level cache and never split a core. Processors are listed in ascending APIC ID order, each with its own Linux number and APIC ID. SMT, core and cluster ids count up from zero within the core or package, whatever gaps the APIC IDs have.",
 ["inputs","configurations"],"all CPUID topology descriptions with terminating level lists, all sets of distinct APIC IDs and Linux processor numbers listed in /proc/cpuinfo",
 "Tests run on a handful of recorded machines and only on their one CPUID topology; shift arithmetic that happens to be right there can be wrong for sparse, multi-package or wide IDs.",
 ["src/x86/topology.c","src/x86/linux/init.c","src/x86/linux/cpuinfo.c"],
 [("APIC bit fields from CPUID","src/x86/topology.c cpuinfo_x86_detect_topology"),("sorting by APIC ID and grouping","src/x86/linux/init.c cpuinfo_x86_linux_init")],
 ["cpuinfo_get_processor(s)","cpuinfo_get_core(s)","cpuinfo_get_cluster(s)","cpuinfo_get_package(s)"])
p("P13","x86 cache sizes, geometry and sharing are what CPUID describes",
 "On x86, each reported L1 instruction, L1 data, L2, L3 and L4 cache has the size, associativity, sets, partitions, line size and unified/inclusive/complex-indexing flags that CPUID gives for it (leaf 4, on AMD and Hygon leaf 0x8000001D with topology extensions, and otherwise leaf 2 descriptors per the vendor manuals), and a cache level is reported only if CPUID describes one. Processors share a cache exactly when their APIC IDs agree above the sharing bits of that cache. The reported maximum cache size is that of the largest-numbered level present.",
 ["inputs","configurations"],"all terminating cache subleaf lists, all combinations of leaf 2 descriptors in registers not marked reserved, all processor sets",
 "Recorded machines contain few of the 256 descriptors and few of the field values; a wrong row or shifted field passes every recorded machine that lacks it.",
 ["src/x86/cache/deterministic.c","src/x86/cache/descriptor.c","src/x86/cache/init.c","src/x86/linux/init.c"],
 [("leaf 4 / 0x8000001D decoding","src/x86/cache/deterministic.c"),("leaf 2 descriptor table","src/x86/cache/descriptor.c")],
 ["cpuinfo_get_l1i_caches .. cpuinfo_get_l4_caches","cpuinfo_get_max_cache_size"])
p("P14","x86 instruction sets are reported iff both CPU and OS support them",
 "On x86, every instruction-set query answers true exactly when the CPUID bit that defines the feature is set in a leaf the CPU has, and, for features with AVX, AVX-512, MPX or AMX register state, the OS has also enabled all of that state (OSXSAVE, XCR0 and leaf 0xD). Features that need no extended state do not depend on the OS state. Queries for other architectures' instruction sets answer false. The same holds on Android for the processors its binary interface admits.",
 ["inputs","configurations"],"all values of the feature words of CPUID leaves 1, 7.0, 7.1, 0xD.0, 0x24, 0x80000001 and 0x80000008, all highest-leaf limits, vendors and XCR0 values",
 "Tests see the feature words of a few machines, all with state enabled by the OS; a wrong bit number or a missing state check only shows on a CPU or kernel that the tests do not have, where it means an illegal instruction.",
 ["src/x86/isa.c","src/x86/init.c","include/cpuinfo.h"],
 [("feature decoding and OS state gating","src/x86/isa.c cpuinfo_x86_detect_isa")],
 ["cpuinfo_has_x86_*"])
p("P17","x86 vendor and microarchitecture follow the CPUID signature",
 "On x86, the vendor reported for every core, cluster and microarchitecture is the one named by the exact 12-byte CPUID vendor string, and unknown for any other string. The microarchitecture is the one documented for the vendor, family and model in the CPUID signature (extended fields included), independent of stepping and type, and unknown for signatures without one. The raw signature is reported unchanged, and different vendors and microarchitectures have different numbers.",
 ["inputs"],"all 12-byte vendor strings, all signatures whose extended fields are used only as the manuals define",
 "Tests check the microarchitecture of the host CPU only, out of thousands of signatures.",
 ["src/x86/vendor.c","src/x86/uarch.c","src/x86/info.c","src/x86/init.c"],
 [("vendor string decoding","src/x86/vendor.c"),("family/model decoding","src/x86/info.c"),("signature table","src/x86/uarch.c")],
 ["cpuinfo_get_core()->vendor, uarch, cpuid","cpuinfo_get_cluster()","cpuinfo_get_uarchs()"])
p("P10","ARM processors are grouped into clusters by sysfs and listed big cores first",
 "On ARM Linux and Android, when sysfs describes the sibling sets and /proc/cpuinfo identifies every processor, two usable processors are reported in the same cluster exactly when sysfs puts them in the same sibling set; every processor is its own core, and there is one package. Clusters are listed from the most to the least performing core type (then by the maximum frequency of their first processor where known, then by Linux number), and the processors of a cluster in ascending Linux number. Each processor keeps its own Linux number and identity, whatever the interleaving of the Linux numbers.",
 ["inputs","configurations"],"all sibling partitions (interleaved and contiguous, as 'cluster', 'core siblings' or 'package' lists), processor counts, identities, frequencies, and possible/present lists",
 "The mock phones have one or two contiguous clusters in a fixed order; sorting and grouping mistakes need interleaved, three-level or many-cluster systems to show.",
 ["src/arm/linux/init.c","src/arm/linux/clusters.c","src/linux/processors.c","src/arm/linux/cpuinfo.c"],
 [("sibling lists to clusters","src/linux/processors.c cpuinfo_linux_detect_core_siblings / cluster_cpus"),("sort and build","src/arm/linux/init.c cpuinfo_arm_linux_init")],
 ["cpuinfo_get_processor(s)","cpuinfo_get_core(s)","cpuinfo_get_cluster(s)","cpuinfo_get_package(s)"])
p("P15","64-bit ARM instruction sets follow the kernel's capabilities and the core",
 "On 64-bit ARM, every instruction-set query answers true exactly when the kernel's capability words announce the feature (features every 64-bit core has are always true, bf16 also follows from its SVE form), plus half-precision arithmetic, rounding-double-multiply and dot product on the cores documented to have them. On Exynos 9810, whose core types disagree, half-precision arithmetic and rounding-double-multiply are never reported. The SVE length is the one the kernel reports in bits, zero without one.",
 ["inputs","configurations"],"all capability words, SVE lengths, core identities and chipsets; kernels that do not claim dot product for the early revisions of Cortex-A55 and A75",
 "The mock phones have about forty capability words and no SVE or SME; a swapped bit is invisible on all of them and means an illegal instruction on others.",
 ["src/arm/linux/aarch64-isa.c","src/arm/linux/hwcap.c","include/cpuinfo.h"],
 [("capability decoding","src/arm/linux/aarch64-isa.c cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo"),("capability words","src/arm/linux/hwcap.c")],
 ["cpuinfo_has_arm_*","cpuinfo_get_max_arm_sve_length"])
p("P16","32-bit ARM instruction sets follow the kernel's capabilities and the core",
 "On 32-bit ARM, every instruction-set query answers true exactly when it is implied by the kernel's capability words, the architecture version and flags in /proc/cpuinfo, the core identity, and the floating-point and WMMX id registers; ARMv8 systems report everything a 32-bit ARMv8 processor always has. Capabilities come from getauxval, or where that is unavailable on Android from /proc/self/auxv, or else from the features common to all processors in /proc/cpuinfo. Known misreported cores and chipsets (Exynos 9810, Tegra 2, Cortex-A5/A9 and Scorpion/Krait extensions) follow their documentation.",
 ["inputs","configurations"],"all capability words, architecture strings, core identities, id register values, and availability of the three capability sources",
 "The mock phones cover a few dozen words of ARMv7 and later; older architecture versions, WMMX and the fallback sources are not run at all.",
 ["src/arm/linux/aarch32-isa.c","src/arm/linux/hwcap.c","src/arm/linux/cpuinfo.c","include/cpuinfo.h"],
 [("capability decoding","src/arm/linux/aarch32-isa.c cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo"),("capability sources","src/arm/linux/hwcap.c, src/arm/linux/init.c")],
 ["cpuinfo_has_arm_*"])
p("P18","ARM core vendor and microarchitecture follow the main ID register",
 "On ARM, the vendor and microarchitecture reported for every core and cluster are those documented for its implementer and part number (and, where parts are shared, its variant or floating-point version), and unknown for identities without one. The reported MIDR is composed exactly of the implementer, variant, part and revision given by the kernel. The microarchitecture list has one entry per run of clusters with the same microarchitecture, in listing order, with its processor and core counts.",
 ["inputs"],"all implementer, variant, part and revision values, in systems of many different clusters, 32 and 64 bit",
 "Tests check the identities of some sixty phones; table rows of other cores are never decoded.",
 ["src/arm/uarch.c","src/arm/midr.h","src/arm/linux/init.c","src/arm/linux/cpuinfo.c"],
 [("MIDR table","src/arm/uarch.c cpuinfo_arm_decode_vendor_uarch"),("MIDR assembly","src/arm/midr.h, src/arm/linux/cpuinfo.c"),("microarchitecture list","src/arm/linux/init.c")],
 ["cpuinfo_get_core()->vendor, uarch, midr","cpuinfo_get_uarchs()"])
p("P26","Incomplete ARM descriptions are completed by fixed documented rules",
 "On ARM Linux and Android, when sysfs gives no sibling sets, the known cluster shape of the chipset is used if its core count matches, else processors are split wherever identity or frequency differ from the preceding ones of the same group. Processors without identity take that of an identified processor of their cluster, else, when only one identity is known for a big.LITTLE system, the faster cluster gets the big and the slower one the documented LITTLE counterpart, else that of the last identified processor. The result depends only on what the kernel shows: it never loses or invents a processor.",
 ["inputs","configurations"],"all subsets of missing lists, identity fields, frequencies and offline processors on one- to three-cluster systems",
 "Which processors are offline, and which files are unreadable, differs from boot to boot; the mock phones record one state each.",
 ["src/arm/linux/clusters.c","src/arm/linux/midr.c","src/arm/midr.h","src/arm/linux/init.c"],
 [("cluster heuristics","src/arm/linux/clusters.c"),("identity heuristics","src/arm/linux/midr.c")],
 ["cpuinfo_get_cluster(s)","cpuinfo_get_core(s)->midr, uarch"])
p("P04","After initialization the library is quiescent and its answers never change",
 "Once initialization succeeded, initializing again reports success and every query keeps returning the same arrays, counts, contents and instruction sets, also after deinitialization and even if the kernel's files and the CPU would now answer differently. Queries about the fixed configuration neither allocate or free memory, nor open or read files, nor run the CPU identification instruction. This holds on every architecture and operating system.",
 ["histories","configurations"],"all orders and repetitions of initialize, deinitialize and queries after a first success, all platforms",
 "Tests initialize once per process on a platform that does not change; a lazily refreshed or freed table shows only after a repeated call or a changed platform.",
 ["src/init.c","src/api.c","src/x86/linux/init.c","src/arm/linux/init.c","src/riscv/linux/init.c"],
 [("one-time initialization","src/init.c cpuinfo_initialize"),("published state","src/api.c")],
 ["all queries before and after repeated initialization"])
p("P05","Failures during initialization are survived without leak, crash or half state",
 "When any memory allocation, or any opening or reading of a kernel file or other question to the system, fails during initialization, singly or from some point on, the library neither crashes nor hangs, closes every file it opened and loses no memory. Either initialization reports failure, nothing stays allocated, further attempts also report failure and data queries stop the program as they do before initialization; or it succeeds with a consistent hierarchy and consistent caches. A failure that does not occur does not alter the answer.",
 ["fault_sequences","configurations"],"every allocation in turn, alone and with all later ones, and every position of failing opens and reads, on random systems of every architecture and operating system",
 "No test injects failures: the error paths run only when memory or descriptors are exhausted or a sandbox denies files.",
 ["src/x86/linux/init.c","src/arm/linux/init.c","src/riscv/linux/init.c","src/linux/multiline.c","src/linux/smallfile.c","src/linux/cpulist.c"],
 [("cleanup paths","src/*/linux/init.c cleanup labels"),("file readers","src/linux/multiline.c, smallfile.c, cpulist.c")],
 ["result of cpuinfo_initialize","open files and live memory","queries afterwards"])
p("P06","Queries stop the program before initialization and are range-checked after it",
 "Before a successful initialization, every query for processors, cores, clusters, packages, microarchitectures, caches, their counts, the current processor or the maximum cache size stops the program instead of returning data. After it, every indexed query returns the address of that element of the corresponding array for an index below the count, and no object for every other index. The counts, arrays and indexed queries agree for every kind of object.",
 ["inputs","histories"],"all queries before initialization, all 32-bit indexes after it, on systems of every architecture, operating system and size",
 "Tests query only valid indexes, and only after initialization.",
 ["src/api.c","src/init.c","include/cpuinfo.h"],
 [("guards and range checks","src/api.c")],
 ["cpuinfo_get_*","cpuinfo_get_*_count","abort before initialization"])
p("P07","Processors, cores, clusters and packages form one consistent hierarchy",
 "After every successful initialization, cores, clusters and packages each split the processor list into consecutive non-empty ranges covering it exactly, cores nest in clusters and clusters in packages, and each object refers to the objects whose ranges contain it. Outside RISC-V, thread, core and cluster ids are the positions within the core or package, and a core has the vendor, microarchitecture and identity of its cluster. The microarchitecture list counts every processor and core exactly once.",
 ["inputs","configurations"],"systems of every architecture and operating system with up to about a thousand processors, complete and incomplete descriptions",
 "Tests check these relations on the host and the mock phones only; off-by-one ranges need sparse, multi-package or large systems.",
 ["src/x86/linux/init.c","src/arm/linux/init.c","src/riscv/linux/init.c","include/cpuinfo.h"],
 [("building the arrays","src/x86/linux/init.c, src/arm/linux/init.c, src/riscv/linux/init.c")],
 ["cpuinfo_get_processors/cores/clusters/packages/uarchs and counts"])
p("P08","Exactly the usable processors are reported, each once",
 "Every usable processor is reported exactly once with its own Linux number, and no other processor is. Usable are: on x86 those in the possible list and in the present list (an unreadable list is ignored) that /proc/cpuinfo describes; on ARM those in both lists, or in the readable one; on RISC-V those in the present list; everywhere only up to the highest number the kernel allows.",
 ["inputs","configurations"],"all possible and present lists, as the kernel writes them and also with white space around entries and split ranges, all sets of described processors, kernel limits and sparse numberings",
 "Hot-plugged, offline and sparsely numbered processors do not occur on the test machines.",
 ["src/linux/processors.c","src/linux/cpulist.c","src/x86/linux/init.c","src/arm/linux/init.c","src/riscv/linux/init.c"],
 [("list parsing","src/linux/cpulist.c"),("selection of valid processors","src/*/linux/init.c")],
 ["cpuinfo_get_processors()->linux_id","cpuinfo_get_processors_count"])
p("P11","Queries about the current processor follow the processor the thread runs on",
 "For every processor number the kernel reports for the calling thread, the current processor and current core queries return exactly the reported processor with that Linux number and its core, and no object when that number is not reported or the kernel gives none. The current microarchitecture index is the index of that processor's microarchitecture in the microarchitecture list, and the index 0, or the caller's default where one is given, when the processor is unknown. With a single microarchitecture the index is always 0.",
 ["schedules","configurations"],"all migrations of the thread over reported, unreported and out-of-range processors, and failures of the system call, on systems of every architecture",
 "A test thread runs on whatever processor the scheduler picks, on a host with one microarchitecture and no gaps.",
 ["src/api.c","src/x86/linux/init.c","src/arm/linux/init.c","src/riscv/linux/init.c"],
 [("Linux number to object maps","src/api.c cpuinfo_get_current_*"),("filling of the maps","src/*/linux/init.c")],
 ["cpuinfo_get_current_processor","cpuinfo_get_current_core","cpuinfo_get_current_uarch_index(_with_default)"])
p("P12","Caches cover exactly the processors that name them and have consistent sizes",
 "On x86 and ARM, every reported cache covers a non-empty consecutive range of processors which all name it, and every processor that names a cache lies in its range; its size is ways times sets times partitions times line size, none of size, ways and line being zero. On ARM, first-level caches are private to a core, shared caches never split a cluster, and all cores of a cluster have the same levels and the same geometry beyond the first level. The maximum cache size is that of the last-level data or unified cache on x86, and positive on ARM.",
 ["inputs","configurations"],"all CPUID cache descriptions and ARM identities, chipsets and /proc/cpuinfo cache geometry, systems of up to about a thousand processors",
 "Tests check these relations on the host and the mock phones only.",
 ["src/x86/linux/init.c","src/arm/linux/init.c","src/arm/cache.c","src/cache.c"],
 [("building the cache arrays","src/x86/linux/init.c, src/arm/linux/init.c"),("maximum size","src/cache.c, src/arm/cache.c")],
 ["cpuinfo_get_l1i_caches .. cpuinfo_get_l4_caches","cpuinfo_get_processor()->cache","cpuinfo_get_max_cache_size"])
p("P22","The result does not depend on how the kernel's files arrive",
 "For the same file contents, everything the library reports is the same however the kernel splits the reads of /proc and sysfs files into pieces. Lines of /proc/cpuinfo that the library does not know, of whatever length, change nothing, and never hide the lines after them. A file of one number, or the list of possible or present processors, that cannot be read to its end counts as missing. This holds on every architecture.",
 ["schedules","inputs"],"all ways to split the reads, reads that fail at any place of the small files, additional unknown lines of 1 to 9000 characters at any place",
 "Test files are read from memory in one piece and have no over-long lines; buffer boundary mistakes need a read that ends at the wrong place.",
 ["src/linux/multiline.c","src/linux/cpulist.c","src/linux/smallfile.c"],
 [("line buffer","src/linux/multiline.c"),("list reader","src/linux/cpulist.c")],
 ["everything the API reports"])
p("P23","RISC-V hierarchy, vendor, frequency and instruction sets follow the kernel",
 "On RISC-V Linux, processors are reported in the same core, cluster or package exactly when the kernel's sibling lists put them there, groups being ordered by their smallest Linux number, and core ids are the kernel's. Each core has the vendor and identity the kernel's hardware probing reports for it, and its maximum frequency in Hz, zero when the kernel gives none. Each instruction-set query answers true exactly when the capability word announces the extension, and no caches are reported.",
 ["inputs","configurations"],"all sibling partitions of up to 200 interleaved, sparse processors whose lists are readable and consistent; all capability words and probing answers",
 "No test runs on RISC-V at all.",
 ["src/riscv/linux/init.c","src/riscv/linux/riscv-hw.c","src/riscv/linux/riscv-isa.c","src/riscv/uarch.c","src/linux/processors.c"],
 [("sibling lists","src/riscv/linux/init.c core/cluster/package siblings parsers"),("hardware probing","src/riscv/linux/riscv-hw.c"),("capability bits","src/riscv/linux/riscv-isa.c")],
 ["cpuinfo_get_processors/cores/clusters/packages","cpuinfo_has_riscv_*"])
p("P01","No CPUID answers or kernel files can corrupt or hang the library on x86",
 "Whatever the CPUID instruction answers and the kernel's files contain, initialization on x86 ends, and it and all queries afterwards access only live memory, use no uninitialized value and execute no undefined operation. No memory is lost and no file left open, and every object reachable from a query lies within the reported arrays. Numeric extremes, garbage and truncated, missing or contradictory descriptions are included.",
 ["inputs","configurations"],"arbitrary CPUID tables whose subleaf lists end, and arbitrary bytes in the possible, present, kernel_max and cpuinfo files, in 32-bit and 64-bit builds with and without debug messages",
 "Tests see well-formed data of a few machines; memory errors need contradictory or extreme descriptions and sanitizers.",
 ["src/x86/init.c","src/x86/linux/init.c","src/x86/linux/cpuinfo.c","src/x86/topology.c","src/x86/name.c","src/x86/cache/*.c","src/linux/*.c"],
 [("decoding of CPUID","src/x86/*.c"),("parsing of files","src/linux/*.c, src/x86/linux/cpuinfo.c"),("array building","src/x86/linux/init.c")],
 ["end of cpuinfo_initialize","sanitizer reports","all query results"])
p("P02","No kernel data can corrupt or hang the library on ARM and RISC-V",
 "Whatever the kernel's files, the auxiliary vector, hardware probing and system properties contain, initialization on ARM and RISC-V Linux and on Android ends, and it and all queries afterwards access only live memory, use no uninitialized value and execute no undefined operation. No memory is lost and no file left open, and every object reachable from a query lies within the reported arrays. Numeric extremes, garbage and truncated, missing or contradictory descriptions are included.",
 ["inputs","configurations"],"arbitrary bytes in every file and property the library reads and arbitrary capability words, in 32-bit and 64-bit builds with and without debug messages",
 "Tests see well-formed data of a few phones; memory errors need contradictory or extreme descriptions and sanitizers.",
 ["src/arm/linux/*.c","src/arm/*.c","src/arm/android/properties.c","src/riscv/linux/*.c","src/linux/*.c"],
 [("parsing of files","src/linux/*.c, src/arm/linux/cpuinfo.c"),("chipset decoding","src/arm/linux/chipset.c"),("array building","src/arm/linux/init.c, src/riscv/linux/init.c")],
 ["end of cpuinfo_initialize","sanitizer reports","all query results"])
p("P03","Initialization and queries are safe and agree from any number of threads",
 "When threads call initialization and the queries concurrently in any order, there is no data race, and every thread whose initialization call returns success sees the complete and same state a single thread would see. The platform is read exactly once however many threads initialize, and all calls return the same result. When initialization fails, every thread is told so.",
 ["schedules"],"schedules of 2 to 16 threads with random delays at allocations and file operations, repeated initialization, current-processor queries while others still initialize, succeeding and failing initializations, on every architecture and operating system",
 "Tests are single-threaded; a race needs a second thread inside the initialization window.",
 ["src/init.c","src/api.c","src/x86/isa.c","src/arm/linux/init.c","src/riscv/linux/init.c"],
 [("one-time initialization","src/init.c"),("publication of the arrays","src/api.c, src/*/linux/init.c")],
 ["results and states seen by each thread","race reports","file and allocation counts"])
p("P19","The x86 package name is the vendor and the brand string without decorations",
 "The package name on x86 is the vendor's name followed by the processor's brand string without trademark marks, frequency, core counts and the generic words that carry no information, in the original order with single spaces. It is at most 47 characters, and empty when the brand string is empty, names an engineering sample only or holds nothing but decorations. Every package of a system has the same name.",
 ["inputs"],"all brand strings of up to 48 characters composed of the marks, words, numbers, frequencies and separators vendors use, random text between them, and all vendors",
 "Tests cover a fixed list of brand strings; token boundaries and combinations are unbounded.",
 ["src/x86/name.c","src/x86/vendor.c","src/x86/linux/init.c"],
 [("brand string normalization","src/x86/name.c"),("naming of packages","src/x86/linux/init.c")],
 ["cpuinfo_get_package()->name"])
p("P24","Log messages arrive whole, once, on the right stream and only at their level",
 "Every message logged at or above the configured level is written completely and exactly once, in one write, as its level's prefix, the formatted text and the line end; fatal and error messages and warnings go to standard error, information and debug messages to standard output; messages below the level write nothing. This holds for every length, including the buffer boundaries, and from several threads. A fatal message stops the program at every level, and a message that cannot get memory is dropped without harm.",
 ["inputs","schedules","fault_sequences"],"all message lengths up to several buffer sizes, all levels and configurations, both logging implementations, as on Linux and as on Windows, failing allocations, several threads",
 "Tests do not look at log output; a lost last character needs a message of exactly the buffer's size.",
 ["src/log.c","src/cpuinfo/log.h","deps/clog/src/clog.c","deps/clog/include/clog.h"],
 [("formatting with stack buffer and heap fallback","src/log.c, deps/clog/src/clog.c")],
 ["bytes and writes on standard output and standard error","process exit"])
p("P25","The command-line tools print what the library and the platform report",
 "The processor tool lists exactly the packages, microarchitectures, cores, clusters and logical processors the library reports, with their ranges, counts, names and identifiers; the cache tool prints each reported level with its number, size, associativity, sets, partitions, line size and sharing; the instruction-set tool prints yes or no as the matching query answers. The CPUID tool prints every basic and extended leaf and every subleaf of the enumerated leaves with the values the processor returns, the auxiliary vector tool prints the capability words, and the cpuinfo tool copies the kernel's file unchanged. Each ends successfully and touches only live memory.",
 ["inputs","configurations"],"random systems of every architecture with all combinations of caches, instruction sets, leaves and identities",
 "No test runs the tools.",
 ["tools/cpu-info.c","tools/cache-info.c","tools/isa-info.c","tools/cpuid-dump.c","tools/cpuinfo-dump.c","tools/auxv-dump.c"],
 [("printing","tools/*.c")],
 ["standard output of the tools"])
p("P20","On ARM the package is named after the system-on-chip the platform identifies",
 "The package name on ARM is the vendor, series, model and suffix of the system-on-chip named by the Hardware and Revision lines of the kernel and, on Android, by the system properties. Known codenames and board names map to their chips, misreported model numbers are corrected by the number of processors, and a suffix is kept in upper case. When several sources name the same chip the more specific name wins; when nothing is recognised or the sources contradict each other, the name is Unknown.",
 ["inputs","configurations"],"all Hardware, Revision and property strings made of every documented signature and table entry with random models, suffixes, letter case, prefixes and separators, one-symbol errors, and all processor counts",
 "Tests cover recorded devices; misparsing needs a particular combination of signature, boundary and suffix.",
 ["src/arm/linux/chipset.c","src/arm/android/properties.c","src/arm/linux/cpuinfo.c","src/arm/linux/init.c"],
 [("signature matching","src/arm/linux/chipset.c"),("disambiguation and fixing","src/arm/linux/chipset.c")],
 ["cpuinfo_get_package()->name"])
p("P21","On ARM caches have the documented geometry of core type, chip and cluster",
 "Each processor's L1 instruction and data cache, L2 and L3 has the size, associativity, line size, inclusiveness and number of sets documented for its core type, adjusted to the chip, cluster and number of cores where the documentation says so; 32-bit kernels that describe complete L1 geometry are believed. Cores with an L3 have their own L2, otherwise a cluster shares one; an L3 is shared by all clusters that have the same size, otherwise one per cluster. Core types without documented values get defaults by architecture version. The maximum cache size is the largest configuration of the first processor's core type.",
 ["inputs","configurations"],"all core types, implementer variants and revisions, chips, cluster orders and sizes, with and without cache descriptions from the kernel",
 "Tests cover recorded devices only; most rows of the table and their combinations with clusters are never executed.",
 ["src/arm/cache.c","src/arm/linux/init.c","src/arm/midr.h"],
 [("cache table","src/arm/cache.c"),("sharing and indices","src/arm/linux/init.c")],
 ["cpuinfo_get_l1i/l1d/l2/l3_cache(s)","cpuinfo_get_max_cache_size"])
p("P27","On FreeBSD and macOS x86 the report follows the kernel's counts and CPUID",
 "On FreeBSD and macOS the x86 processors are split evenly into the packages, cores and threads that the kernel counts; missing or impossible counts are replaced by one package and one thread per core, except that FreeBSD systems whose cores cannot be shared out evenly are refused. Each processor has the APIC ID that CPUID's field widths give its package, core and thread. Each level of cache has the geometry CPUID describes and is shared as the kernel's sharing list says or, without a usable entry, by a core, package or the system as documented. Vendor, microarchitecture, instruction sets and name are those that Linux reports for the same CPUID.",
 ["inputs","configurations"],"all consistent processor counts, scheduler group descriptions and sharing lists, missing answers, and all CPUID layouts of topology, caches, identities, features and names",
 "No test runs on these systems at all.",
 ["src/x86/freebsd/init.c","src/x86/mach/init.c","src/freebsd/topology.c","src/mach/topology.c","src/x86/*.c"],
 [("kernel counts","src/freebsd/topology.c, src/mach/topology.c"),("building the arrays","src/x86/freebsd/init.c, src/x86/mach/init.c")],
 ["cpuinfo_get_processors/cores/clusters/packages","cpuinfo_get_l1i_caches .. cpuinfo_get_l4_caches","cpuinfo_has_*"])
p("P28","On macOS and iOS ARM the report follows the chip family and kernel answers",
 "On Apple's ARM chips the cores are those the kernel counts, grouped into clusters of equal microarchitecture in the documented order of each chip family, with all processors, cores and microarchitectures counted once. An instruction set is reported exactly when the kernel names it or the chip family is documented to have it. The package is named by the kernel's brand string or else after the chip of the device. Caches have the kernel's sizes and line size with the documented associativity: first-level caches belong to a core, the others to all; a cache without size, or without a known line size, is not reported.",
 ["inputs","configurations"],"all core counts, chip families, documented devices, brand strings, feature answers of new and old kernels, cache sizes, and any answer missing",
 "No test runs on these systems at all.",
 ["src/arm/mach/init.c","src/mach/topology.c"],
 [("microarchitecture and features by family","src/arm/mach/init.c"),("names of devices","src/arm/mach/init.c")],
 ["cpuinfo_get_processors/cores/clusters/packages/uarchs","cpuinfo_get_l1i_caches .. cpuinfo_get_l3_caches","cpuinfo_has_arm_*"])
p("P29","On WebAssembly the report has the browser's core count and a fixed model",
 "Compiled to WebAssembly, the library reports as many processors as the runtime has logical cores, and one when the runtime gives no positive number. They form one package: with two threads per core for even counts on hosts recognised as x86, and otherwise with one thread per core, split on hosts recognised as ARM into a big and a little cluster. Every processor has its caches, each cache lists exactly its processors, and sizes, names, counts and maximum cache size are those of the model of the host kind.",
 ["inputs","configurations"],"all core counts the runtime can answer, both kinds of host, with and without threads",
 "No test runs the WebAssembly code at all.",
 ["src/emscripten/init.c","src/init.c"],
 [("model of the host","src/emscripten/init.c")],
 ["cpuinfo_get_processors/cores/clusters/packages","cpuinfo_get_l1i_caches .. cpuinfo_get_l3_caches","cpuinfo_get_max_cache_size"])
p("P30","No answers of other kernels can corrupt or hang the library",
 "On FreeBSD, macOS, iOS, Windows and WebAssembly, whatever the kernel and CPUID answer, initialization ends, and it and all queries afterwards access only live memory, use no uninitialized value and execute no undefined operation. No memory is lost, and every object reachable from a query lies within the reported arrays. Missing answers, wrong sizes, negative and contradictory counts, damaged descriptions and senseless caches are included.",
 ["inputs","configurations"],"arbitrary sysctl answers of up to 4-byte counts, cache records, registry entries and CPUID tables, with and without debug messages",
 "No test runs on these systems at all, and none with contradictory answers.",
 ["src/x86/freebsd/init.c","src/x86/mach/init.c","src/x86/windows/init.c","src/arm/mach/init.c","src/arm/windows/*.c","src/freebsd/topology.c","src/mach/topology.c","src/emscripten/init.c"],
 [("kernel answers","src/freebsd/topology.c, src/mach/topology.c, src/arm/windows/init-by-logical-sys-info.c"),("array building","src/*/mach/init.c, src/*/windows/init.c")],
 ["end of cpuinfo_initialize","sanitizer reports","all query results"])
p("P31","On Windows x86 the report follows the system's groups, packages and cores",
 "On Windows every active x86 processor is reported once, in the order of its processor group and number, and belongs to the core and package whose record lists it, also when cores differ in their number of threads, packages span groups or the program runs under Wine. Every package has one cluster. Each processor has the APIC ID that CPUID's field widths give its package, core and thread, caches are those CPUID describes, shared by the processors whose APIC IDs agree. Vendor, microarchitecture, instruction sets and name are those that Linux reports for the same CPUID.",
 ["inputs","configurations"],"all sizes of groups, packages and cores, processors that are not yet active, and all CPUID layouts of topology, caches, identities, features and names",
 "No test runs on Windows at all.",
 ["src/x86/windows/init.c","src/x86/*.c","src/init.c"],
 [("records of cores and packages","src/x86/windows/init.c"),("reconstruction of APIC IDs","src/x86/windows/init.c")],
 ["cpuinfo_get_processors/cores/clusters/packages","cpuinfo_get_l1i_caches .. cpuinfo_get_l4_caches","cpuinfo_has_*"])
p("P32","On Windows ARM the report follows the system's records and registry",
 "On Windows every active ARM processor is reported once with its group and number, with a core and a cluster of its own, numbered within the package whose record lists it. Every instruction, data, second-level and third-level cache record appears once with its size, line size, associativity and sets, and is named by exactly the processors it lists, also when the system leaves out the number of groups. Vendor, microarchitecture, frequency and package name are those of the first processor's registry entry and unknown when that is incomplete; instruction sets are those whose feature flags the system sets.",
 ["inputs","configurations"],"all sizes of groups and packages, cache records in any order and sharing, registry names, identities and frequencies, feature flags, and any registry value missing",
 "No test runs on Windows at all.",
 ["src/arm/windows/init.c","src/arm/windows/init-by-logical-sys-info.c","src/arm/uarch.c"],
 [("records","src/arm/windows/init-by-logical-sys-info.c"),("registry and features","src/arm/windows/init.c")],
 ["cpuinfo_get_processors/cores/clusters/packages/uarchs","cpuinfo_get_l1i_caches .. cpuinfo_get_l3_caches","cpuinfo_has_arm_*"])
p("P33","The mock library reports for a recorded platform what the platform reports",
 "Given the files, CPUID table, hardware capability words and Android properties of a platform through the mock interface, the mock build of the library reports exactly what the library reports on that platform, also when files are damaged or missing, and looks at neither files nor CPUID of the machine it runs on. Its file system behaves as one: a listed file opens once for reading and yields its bytes in order, a closed file can be opened again from the start, and unknown paths, writing and descriptors that are not open are refused.",
 ["inputs","histories","configurations"],"random platforms of x86 and ARM, whole, damaged and incomplete, and random histories of opening, reading and closing",
 "The mock tests replay a fixed set of recorded devices and compare with fixed values; none compares with the library on the platform itself.",
 ["src/linux/mockfile.c","src/x86/mockcpuid.c","src/x86/cpuid.h","src/linux/smallfile.c","src/linux/multiline.c","src/linux/cpulist.c","src/arm/linux/hwcap.c","src/arm/android/properties.c","include/cpuinfo-mock.h"],
 [("files","src/linux/mockfile.c"),("CPUID","src/x86/mockcpuid.c"),("capabilities","src/arm/linux/hwcap.c"),("properties","src/arm/android/properties.c")],
 ["cpuinfo_mock_filesystem, cpuinfo_mock_open, cpuinfo_mock_read, cpuinfo_mock_close","cpuinfo_mock_set_cpuid, cpuinfo_set_hwcap, cpuinfo_mock_android_properties","everything the public interface reports"])
p("P34","Recordings made with the scripts replay to what the platform reported",
 "The table that parse-x86-cpuid-dump.py makes of the CPUID tool's output, and the tables that arm-linux-filesystem-dump.py and android-device-dump.py write, are valid C and hold each leaf, file and property exactly as the platform holds it, whatever bytes they contain. Given to the mock library, they make it report exactly what the library reports on the platform. The separate copies of the kernel's description are unchanged.",
 ["inputs","configurations"],"random x86, ARM Linux and Android platforms with up to 16 processors, arbitrary bytes in descriptions and properties, and up to 32 subleaves",
 "No test runs the scripts.",
 ["scripts/parse-x86-cpuid-dump.py","scripts/arm-linux-filesystem-dump.py","scripts/android-device-dump.py","tools/cpuid-dump.c","include/cpuinfo-mock.h"],
 [("CPUID recording","scripts/parse-x86-cpuid-dump.py"),("file recording","scripts/arm-linux-filesystem-dump.py"),("device recording","scripts/android-device-dump.py")],
 ["the C tables the scripts write","everything the public interface of the mock library reports"])
p("P35","Unknown processors and systems are refused, never described",
 "Built for a processor architecture or an operating system that the library does not know, initialization reports failure every time and to every thread, logs the reason as an error, and neither allocates memory nor reads anything. Every query for processors, cores, clusters, packages, microarchitectures, caches, the current processor or the largest cache then stops the program as it does before initialization. On unknown architectures all instruction-set queries of all architectures answer no.",
 ["configurations","schedules"],"unknown architectures of 32 and 64 bits, and x86, x86-64, ARM, ARM64 and RISC-V on an unknown system; every query; 2 to 16 threads",
 "The tests are built for known architectures on Linux only.",
 ["src/init.c","src/api.c","include/cpuinfo.h"],
 [("refusal","src/init.c cpuinfo_initialize"),("queries","src/api.c"),("instruction sets","include/cpuinfo.h cpuinfo_has_*")],
 ["result of cpuinfo_initialize","every query","cpuinfo_has_*","log output"])
