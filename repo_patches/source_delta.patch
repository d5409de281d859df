From 7d48b4e684ecee58bfc655fc3da8a5c422d8846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:13 +0000
Subject: [PATCH 01/73] fix: report descriptor 0x82 as an 8-way L2 cache

The CPUID leaf 2 descriptor 0x82 stands for a 256 KB, 8-way L2 cache.
It was decoded as 4-way.
---
 src/x86/cache/descriptor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/cache/descriptor.c b/src/x86/cache/descriptor.c
index 93d855a..2194b31 100644
--- a/src/x86/cache/descriptor.c
+++ b/src/x86/cache/descriptor.c
@@ -1255,8 +1255,8 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 */
 			cache->l2 = (struct cpuinfo_x86_cache){
 				.size = 256 * 1024,
-				.associativity = 4,
-				.sets = 2048,
+				.associativity = 8,
+				.sets = 1024,
 				.partitions = 1,
 				.line_size = 32,
 				.flags = CPUINFO_CACHE_INCLUSIVE,
-- 
2.43.0


From 6c40f672e39969ef6d67957e3fda47fd6b843456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:13 +0000
Subject: [PATCH 02/73] fix: report descriptor 0xD2 as a 2 MB L3 cache

A typo in the size made it 4028 KB, which disagreed with the ways, sets
and line size of the same cache.
---
 src/x86/cache/descriptor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/cache/descriptor.c b/src/x86/cache/descriptor.c
index 2194b31..9caa7f4 100644
--- a/src/x86/cache/descriptor.c
+++ b/src/x86/cache/descriptor.c
@@ -1593,7 +1593,7 @@ void cpuinfo_x86_decode_cache_descriptor(
 			 * size"
 			 */
 			cache->l3 = (struct cpuinfo_x86_cache){
-				.size = 2 * 1024 * 2014,
+				.size = 2 * 1024 * 1024,
 				.associativity = 4,
 				.sets = 8192,
 				.partitions = 1,
-- 
2.43.0


From 65ebe654ee1c413c76529020b27eeb48fca0738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:13 +0000
Subject: [PATCH 03/73] fix: treat leaf 0xB shifts as cumulative

CPUID leaf 0xB reports, for every level, the shift from bit 0 of the
x2APIC ID to the next level. The core level was taken as the width of
the core field alone, so on processors with SMT the core mask covered
package bits as well and neighbouring sockets were merged into one
package.
---
 src/x86/topology.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index 5253089..d354f7b 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -132,7 +132,8 @@ void cpuinfo_x86_detect_topology(
 						level_shift,
 						total_shift);
 					topology->core_bits_offset = total_shift;
-					topology->core_bits_length = level_shift;
+					topology->core_bits_length =
+						level_shift > total_shift ? level_shift - total_shift : 0;
 					break;
 				default:
 					cpuinfo_log_warning(
@@ -145,7 +146,8 @@ void cpuinfo_x86_detect_topology(
 						level_shift);
 					break;
 			}
-			total_shift += level_shift;
+			/* Level shifts count from bit 0 of x2APIC ID, i.e. they include all lower levels */
+			total_shift = level_shift;
 			level += 1;
 		} while (type != 0);
 		cpuinfo_log_debug(
-- 
2.43.0


From acb942f4f7e49fda64f3e5c78b0ad9907493d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:55 +0000
Subject: [PATCH 04/73] fix: keep all threads of an x86 core in one cluster

Clusters are formed by the sharing of the last-level cache. When no cache
is reported, or it is narrower than a core, sibling threads were put in
different clusters while their core can belong to only one of them.
---
 src/x86/linux/init.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index d2b2d47..c433f38 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -62,7 +62,7 @@ static void cpuinfo_x86_count_objects(
 	const uint32_t package_apic_mask = core_apic_mask &
 		~(bit_mask(processor->topology.core_bits_length) << processor->topology.core_bits_offset);
 	const uint32_t llc_apic_mask = ~bit_mask(llc_apic_bits);
-	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;
+	const uint32_t cluster_apic_mask = package_apic_mask | (llc_apic_mask & core_apic_mask);
 
 	uint32_t cores_count = 0, clusters_count = 0, packages_count = 0;
 	uint32_t l1i_count = 0, l1d_count = 0, l2_count = 0, l3_count = 0, l4_count = 0;
@@ -91,7 +91,7 @@ static void cpuinfo_x86_count_objects(
 				packages_count++;
 			}
 			/* Bits of APIC ID which are part of either LLC or
-			 * package ID mask */
+			 * package ID mask, except thread ID mask */
 			const uint32_t cluster_id = apic_id & cluster_apic_mask;
 			if (cluster_id != last_cluster_id) {
 				last_cluster_id = cluster_id;
@@ -381,7 +381,7 @@ void cpuinfo_x86_linux_init(void) {
 	const uint32_t package_apic_mask = core_apic_mask &
 		~(bit_mask(x86_processor.topology.core_bits_length) << x86_processor.topology.core_bits_offset);
 	const uint32_t llc_apic_mask = ~bit_mask(llc_apic_bits);
-	const uint32_t cluster_apic_mask = package_apic_mask | llc_apic_mask;
+	const uint32_t cluster_apic_mask = package_apic_mask | (llc_apic_mask & core_apic_mask);
 
 	uint32_t processor_index = UINT32_MAX, core_index = UINT32_MAX, cluster_index = UINT32_MAX,
 		 package_index = UINT32_MAX;
@@ -405,7 +405,7 @@ void cpuinfo_x86_linux_init(void) {
 				smt_id = 0;
 			}
 			/* Bits of APIC ID which are part of either LLC or
-			 * package ID mask */
+			 * package ID mask, except thread ID mask */
 			const uint32_t apic_cluster_id = apic_id & cluster_apic_mask;
 			if (apic_cluster_id != last_apic_cluster_id) {
 				cluster_index++;
-- 
2.43.0


From 8772ab211787469b2cb088e0083d5b961260d6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:55 +0000
Subject: [PATCH 05/73] fix: avoid underflow of the thread bits in APIC ID

When CPUID leaf 1 advertises fewer logical processors than leaf 4
advertises cores, as some hypervisors do, the difference wrapped around
and was later used as a shift amount.
---
 src/x86/topology.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index d354f7b..132d961 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -79,7 +79,9 @@ void cpuinfo_x86_detect_topology(
 			if (logical_processors != 0) {
 				const uint32_t log2_max_logical_processors = bit_length(logical_processors);
 				const uint32_t log2_max_threads_per_core =
-					log2_max_logical_processors - topology->core_bits_length;
+					log2_max_logical_processors > topology->core_bits_length
+					? log2_max_logical_processors - topology->core_bits_length
+					: 0;
 				topology->core_bits_offset = log2_max_threads_per_core;
 				topology->thread_bits_length = log2_max_threads_per_core;
 			}
-- 
2.43.0


From 8131f15a4ff32591099a77809d8282525408a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:55 +0000
Subject: [PATCH 06/73] fix: accept APIC ID 0xFFFFFFFF on x86 Linux

All-ones was also the marker for "no previous object", so a processor with
this ID opened no core, cluster or package and its data was written in
front of the arrays.
---
 src/x86/linux/init.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index c433f38..e5eb33d 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -66,9 +66,9 @@ static void cpuinfo_x86_count_objects(
 
 	uint32_t cores_count = 0, clusters_count = 0, packages_count = 0;
 	uint32_t l1i_count = 0, l1d_count = 0, l2_count = 0, l3_count = 0, l4_count = 0;
-	uint32_t last_core_id = UINT32_MAX, last_cluster_id = UINT32_MAX, last_package_id = UINT32_MAX;
-	uint32_t last_l1i_id = UINT32_MAX, last_l1d_id = UINT32_MAX;
-	uint32_t last_l2_id = UINT32_MAX, last_l3_id = UINT32_MAX, last_l4_id = UINT32_MAX;
+	uint64_t last_core_id = UINT64_MAX, last_cluster_id = UINT64_MAX, last_package_id = UINT64_MAX;
+	uint64_t last_l1i_id = UINT64_MAX, last_l1d_id = UINT64_MAX;
+	uint64_t last_l2_id = UINT64_MAX, last_l3_id = UINT64_MAX, last_l4_id = UINT64_MAX;
 	for (uint32_t i = 0; i < linux_processors_count; i++) {
 		if (bitmask_all(linux_processors[i].flags, valid_processor_mask)) {
 			const uint32_t apic_id = linux_processors[i].apic_id;
@@ -388,9 +388,9 @@ void cpuinfo_x86_linux_init(void) {
 	uint32_t l1i_index = UINT32_MAX, l1d_index = UINT32_MAX, l2_index = UINT32_MAX, l3_index = UINT32_MAX,
 		 l4_index = UINT32_MAX;
 	uint32_t cluster_id = 0, core_id = 0, smt_id = 0;
-	uint32_t last_apic_core_id = UINT32_MAX, last_apic_cluster_id = UINT32_MAX, last_apic_package_id = UINT32_MAX;
-	uint32_t last_l1i_id = UINT32_MAX, last_l1d_id = UINT32_MAX;
-	uint32_t last_l2_id = UINT32_MAX, last_l3_id = UINT32_MAX, last_l4_id = UINT32_MAX;
+	uint64_t last_apic_core_id = UINT64_MAX, last_apic_cluster_id = UINT64_MAX, last_apic_package_id = UINT64_MAX;
+	uint64_t last_l1i_id = UINT64_MAX, last_l1d_id = UINT64_MAX;
+	uint64_t last_l2_id = UINT64_MAX, last_l3_id = UINT64_MAX, last_l4_id = UINT64_MAX;
 	for (uint32_t i = 0; i < x86_linux_processors_count; i++) {
 		if (bitmask_all(x86_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
 			const uint32_t apic_id = x86_linux_processors[i].apic_id;
@@ -508,7 +508,7 @@ void cpuinfo_x86_linux_init(void) {
 				processors[i].cache.l1i = &l1i[l1i_index];
 			} else {
 				/* reset cache id */
-				last_l1i_id = UINT32_MAX;
+				last_l1i_id = UINT64_MAX;
 			}
 			if (x86_processor.cache.l1d.size != 0) {
 				const uint32_t l1d_id = apic_id & ~bit_mask(x86_processor.cache.l1d.apic_bits);
@@ -534,7 +534,7 @@ void cpuinfo_x86_linux_init(void) {
 				processors[i].cache.l1d = &l1d[l1d_index];
 			} else {
 				/* reset cache id */
-				last_l1d_id = UINT32_MAX;
+				last_l1d_id = UINT64_MAX;
 			}
 			if (x86_processor.cache.l2.size != 0) {
 				const uint32_t l2_id = apic_id & ~bit_mask(x86_processor.cache.l2.apic_bits);
@@ -560,7 +560,7 @@ void cpuinfo_x86_linux_init(void) {
 				processors[i].cache.l2 = &l2[l2_index];
 			} else {
 				/* reset cache id */
-				last_l2_id = UINT32_MAX;
+				last_l2_id = UINT64_MAX;
 			}
 			if (x86_processor.cache.l3.size != 0) {
 				const uint32_t l3_id = apic_id & ~bit_mask(x86_processor.cache.l3.apic_bits);
@@ -586,7 +586,7 @@ void cpuinfo_x86_linux_init(void) {
 				processors[i].cache.l3 = &l3[l3_index];
 			} else {
 				/* reset cache id */
-				last_l3_id = UINT32_MAX;
+				last_l3_id = UINT64_MAX;
 			}
 			if (x86_processor.cache.l4.size != 0) {
 				const uint32_t l4_id = apic_id & ~bit_mask(x86_processor.cache.l4.apic_bits);
@@ -612,7 +612,7 @@ void cpuinfo_x86_linux_init(void) {
 				processors[i].cache.l4 = &l4[l4_index];
 			} else {
 				/* reset cache id */
-				last_l4_id = UINT32_MAX;
+				last_l4_id = UINT64_MAX;
 			}
 		}
 	}
-- 
2.43.0


From c1fb9648379e928270a10aabe3b3dda7d2a47017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:55 +0000
Subject: [PATCH 07/73] fix: do not form pointers in front of the x86 cache
 arrays

Every processor got a cache pointer computed before the index of its cache
was known. The first one was out of bounds. The correct pointer is set
right afterwards.
---
 src/x86/linux/init.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index e5eb33d..56e404c 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -486,7 +486,6 @@ void cpuinfo_x86_linux_init(void) {
 
 			if (x86_processor.cache.l1i.size != 0) {
 				const uint32_t l1i_id = apic_id & ~bit_mask(x86_processor.cache.l1i.apic_bits);
-				processors[i].cache.l1i = &l1i[l1i_index];
 				if (l1i_id != last_l1i_id) {
 					/* new cache */
 					last_l1i_id = l1i_id;
@@ -512,7 +511,6 @@ void cpuinfo_x86_linux_init(void) {
 			}
 			if (x86_processor.cache.l1d.size != 0) {
 				const uint32_t l1d_id = apic_id & ~bit_mask(x86_processor.cache.l1d.apic_bits);
-				processors[i].cache.l1d = &l1d[l1d_index];
 				if (l1d_id != last_l1d_id) {
 					/* new cache */
 					last_l1d_id = l1d_id;
@@ -538,7 +536,6 @@ void cpuinfo_x86_linux_init(void) {
 			}
 			if (x86_processor.cache.l2.size != 0) {
 				const uint32_t l2_id = apic_id & ~bit_mask(x86_processor.cache.l2.apic_bits);
-				processors[i].cache.l2 = &l2[l2_index];
 				if (l2_id != last_l2_id) {
 					/* new cache */
 					last_l2_id = l2_id;
@@ -564,7 +561,6 @@ void cpuinfo_x86_linux_init(void) {
 			}
 			if (x86_processor.cache.l3.size != 0) {
 				const uint32_t l3_id = apic_id & ~bit_mask(x86_processor.cache.l3.apic_bits);
-				processors[i].cache.l3 = &l3[l3_index];
 				if (l3_id != last_l3_id) {
 					/* new cache */
 					last_l3_id = l3_id;
@@ -590,7 +586,6 @@ void cpuinfo_x86_linux_init(void) {
 			}
 			if (x86_processor.cache.l4.size != 0) {
 				const uint32_t l4_id = apic_id & ~bit_mask(x86_processor.cache.l4.apic_bits);
-				processors[i].cache.l4 = &l4[l4_index];
 				if (l4_id != last_l4_id) {
 					/* new cache */
 					last_l4_id = l4_id;
-- 
2.43.0


From 35add05f071ce5512680b0fd7d74660f1ea4f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:55 +0000
Subject: [PATCH 08/73] fix: release memory when /proc/cpuinfo cannot be read
 on x86

---
 src/x86/linux/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index 56e404c..53a5917 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -207,7 +207,7 @@ void cpuinfo_x86_linux_init(void) {
 
 	if (!cpuinfo_x86_linux_parse_proc_cpuinfo(x86_linux_processors_count, x86_linux_processors)) {
 		cpuinfo_log_error("failed to parse processor information from /proc/cpuinfo");
-		return;
+		goto cleanup;
 	}
 
 	for (uint32_t i = 0; i < x86_linux_processors_count; i++) {
-- 
2.43.0


From cc021f8426fc733b16632d9648d62c283abca7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:55 +0000
Subject: [PATCH 09/73] fix: fail initialization when no x86 processor is
 usable

With an empty intersection of the possible and present lists the library
reported success with zero processors and read past the end of the empty
processors array.
---
 src/x86/linux/init.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index 53a5917..f688ed6 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -230,6 +230,11 @@ void cpuinfo_x86_linux_init(void) {
 		}
 	}
 
+	if (processors_count == 0) {
+		cpuinfo_log_error("failed to discover any usable logical processors");
+		goto cleanup;
+	}
+
 	qsort(x86_linux_processors,
 	      x86_linux_processors_count,
 	      sizeof(struct cpuinfo_x86_linux_processor),
-- 
2.43.0


From 61b3046bd28db51cb8099cd640df74d551f33c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:55 +0000
Subject: [PATCH 10/73] fix: stop at ':' in x86 /proc/cpuinfo processor numbers

---
 src/x86/linux/cpuinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/linux/cpuinfo.c b/src/x86/linux/cpuinfo.c
index 8f038b0..f5c42a2 100644
--- a/src/x86/linux/cpuinfo.c
+++ b/src/x86/linux/cpuinfo.c
@@ -25,7 +25,7 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 	uint32_t processor_number = 0;
 	for (const char* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr++) {
 		const uint32_t digit = (uint32_t)(*digit_ptr - '0');
-		if (digit > 10) {
+		if (digit >= 10) {
 			cpuinfo_log_warning(
 				"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored",
 				(int)(processor_end - digit_ptr),
-- 
2.43.0


From 6a3ff7b76c777b29fec4951160b408021a04d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:32 +0000
Subject: [PATCH 11/73] fix: ignore CPUID leaf 2 registers marked as reserved

Bit 31 of a leaf 2 register says that the register holds no descriptors.
Such registers were decoded regardless, so e.g. 0x80000000 turned into a
512 KB L2 cache.
---
 src/x86/cache/init.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/x86/cache/init.c b/src/x86/cache/init.c
index 34af90e..4ecb05c 100644
--- a/src/x86/cache/init.c
+++ b/src/x86/cache/init.c
@@ -18,6 +18,28 @@ enum cache_type {
 	cache_type_unified = 3,
 };
 
+/*
+ * Read cache and TLB descriptors. A register with the most significant bit set
+ * contains no valid descriptors.
+ */
+static inline struct cpuid_regs read_descriptors(void) {
+	struct cpuid_regs regs = cpuid(2);
+	const uint32_t invalid_mask = UINT32_C(0x80000000);
+	if (regs.eax & invalid_mask) {
+		regs.eax = 0;
+	}
+	if (regs.ebx & invalid_mask) {
+		regs.ebx = 0;
+	}
+	if (regs.ecx & invalid_mask) {
+		regs.ecx = 0;
+	}
+	if (regs.edx & invalid_mask) {
+		regs.edx = 0;
+	}
+	return regs;
+}
+
 void cpuinfo_x86_detect_cache(
 	uint32_t max_base_index,
 	uint32_t max_extended_index,
@@ -41,7 +63,7 @@ void cpuinfo_x86_detect_cache(
 	uint32_t* log2_package_cores_max) {
 	if (max_base_index >= 2) {
 		union cpuinfo_x86_cache_descriptors descriptors;
-		descriptors.regs = cpuid(2);
+		descriptors.regs = read_descriptors();
 		uint32_t iterations = (uint8_t)descriptors.as_bytes[0];
 		if (iterations != 0) {
 		iterate_descriptors:
@@ -70,7 +92,7 @@ void cpuinfo_x86_detect_cache(
 				}
 			}
 			if (--iterations != 0) {
-				descriptors.regs = cpuid(2);
+				descriptors.regs = read_descriptors();
 				goto iterate_descriptors;
 			}
 		}
-- 
2.43.0


From e58cbf2e2a334dc1183c85ade9ce5b8e1afce83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:32 +0000
Subject: [PATCH 12/73] fix: recognize Hygon Dhyana processors

They report family 18h. The decoder looked for family 0, which no Hygon
processor reports.
---
 src/x86/uarch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/uarch.c b/src/x86/uarch.c
index a21eabb..0379f2b 100644
--- a/src/x86/uarch.c
+++ b/src/x86/uarch.c
@@ -393,7 +393,7 @@ enum cpuinfo_uarch cpuinfo_x86_decode_uarch(
 			break;
 		case cpuinfo_vendor_hygon:
 			switch (model_info->family) {
-				case 0x00:
+				case 0x18:
 					return cpuinfo_uarch_dhyana;
 			}
 			break;
-- 
2.43.0


From 4f7a6b543815379d4678e1710336855ad3f7d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:32 +0000
Subject: [PATCH 13/73] fix: read the AVX10 version only from an existing CPUID
 leaf

Leaf 0x24 was read whenever leaf 7 exists. Past the last leaf Intel
processors return the contents of another one.
---
 src/x86/isa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index 222bd23..c6ab41c 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -47,7 +47,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	const struct cpuid_regs structured_feature_info1 =
 		(max_base_index >= 7) ? cpuidex(7, 1) : (struct cpuid_regs){0, 0, 0, 0};
 	const struct cpuid_regs structured_feature_info2 =
-		(max_base_index >= 7) ? cpuidex(0x24, 0) : (struct cpuid_regs){0, 0, 0, 0};
+		(max_base_index >= 0x24) ? cpuidex(0x24, 0) : (struct cpuid_regs){0, 0, 0, 0};
 
 	const uint32_t processor_capacity_info_index = UINT32_C(0x80000008);
 	const struct cpuid_regs processor_capacity_info = (max_extended_index >= processor_capacity_info_index)
-- 
2.43.0


From 22cb1e7914c36e09d43dab33dcaa85296140b510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:32 +0000
Subject: [PATCH 14/73] fix: require OS support of AVX registers for VAES and
 VPCLMULQDQ

Both extensions have VEX and EVEX encodings only, so like AVX2 they cannot
be used unless the operating system enabled the AVX state.
---
 src/x86/isa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index c6ab41c..b5b40ab 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -713,7 +713,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * VAES instructions:
 	 * - Intel: ecx[bit 9] in structured feature info (ecx = 0).
 	 */
-	isa.vaes = !!(structured_feature_info0.ecx & UINT32_C(0x00000200));
+	isa.vaes = avx_regs && !!(structured_feature_info0.ecx & UINT32_C(0x00000200));
 
 	/*
 	 * PCLMULQDQ instruction:
@@ -725,7 +725,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * VPCLMULQDQ instruction:
 	 * - Intel: ecx[bit 10] in structured feature info (ecx = 0).
 	 */
-	isa.vpclmulqdq = !!(structured_feature_info0.ecx & UINT32_C(0x00000400));
+	isa.vpclmulqdq = avx_regs && !!(structured_feature_info0.ecx & UINT32_C(0x00000400));
 
 	/*
 	 * GFNI instructions:
-- 
2.43.0


From 8bb5f1ba0f7240cc82fb1dedb4c04c82cb5f4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:32 +0000
Subject: [PATCH 15/73] fix: require OS support of tile registers for AMX

AMX was reported when the operating system enabled the AVX512 state. Its
TILECFG and TILEDATA state is enabled separately, and without it every AMX
instruction faults.
---
 src/x86/isa.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/x86/isa.c b/src/x86/isa.c
index b5b40ab..b23279d 100644
--- a/src/x86/isa.c
+++ b/src/x86/isa.c
@@ -54,7 +54,7 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 		? cpuid(processor_capacity_info_index)
 		: (struct cpuid_regs){0, 0, 0, 0};
 
-	bool avx_regs = false, avx512_regs = false, mpx_regs = false;
+	bool avx_regs = false, avx512_regs = false, mpx_regs = false, amx_regs = false;
 	/*
 	 * OSXSAVE: Operating system enabled XSAVE instructions for application
 	 * use:
@@ -112,6 +112,16 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 		if ((xcr0_valid_bits & mpx_regs_mask) == mpx_regs_mask) {
 			mpx_regs = (xfeature_enabled_mask & mpx_regs_mask) == mpx_regs_mask;
 		}
+
+		/*
+		 * AMX registers:
+		 * - Intel: XFEATURE_ENABLED_MASK[bit 17] for TILECFG
+		 * - Intel: XFEATURE_ENABLED_MASK[bit 18] for TILEDATA
+		 */
+		const uint64_t amx_regs_mask = UINT64_C(0x0000000000060000);
+		if ((xcr0_valid_bits & amx_regs_mask) == amx_regs_mask) {
+			amx_regs = (xfeature_enabled_mask & amx_regs_mask) == amx_regs_mask;
+		}
 	}
 
 #if CPUINFO_ARCH_X86
@@ -555,25 +565,25 @@ struct cpuinfo_x86_isa cpuinfo_x86_detect_isa(
 	 * AMX_BF16 instructions:
 	 * - Intel: edx[bit 22] in structured feature info (ecx = 0).
 	 */
-	isa.amx_bf16 = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x00400000));
+	isa.amx_bf16 = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x00400000));
 
 	/*
 	 * AMX_TILE instructions:
 	 * - Intel: edx[bit 24] in structured feature info (ecx = 0).
 	 */
-	isa.amx_tile = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x01000000));
+	isa.amx_tile = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x01000000));
 
 	/*
 	 * AMX_INT8 instructions:
 	 * - Intel: edx[bit 25] in structured feature info (ecx = 0).
 	 */
-	isa.amx_int8 = avx512_regs && !!(structured_feature_info0.edx & UINT32_C(0x02000000));
+	isa.amx_int8 = amx_regs && !!(structured_feature_info0.edx & UINT32_C(0x02000000));
 
 	/*
 	 * AMX_FP16 instructions:
 	 * - Intel: eax[bit 21] in structured feature info (ecx = 1).
 	 */
-	isa.amx_fp16 = avx512_regs && !!(structured_feature_info1.eax & UINT32_C(0x00200000));
+	isa.amx_fp16 = amx_regs && !!(structured_feature_info1.eax & UINT32_C(0x00200000));
 
 	/*
 	 * AVX_VNNI_INT8 instructions:
-- 
2.43.0


From 5bdd94cdebc9f036a2bdbd504ba54f1af1e71798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:01 +0000
Subject: [PATCH 16/73] fix: recognize Sapphire Rapids and Emerald Rapids
 processors

The core tests expect a known microarchitecture on the host, and failed on
servers with these processors.
---
 include/cpuinfo.h | 3 +++
 src/x86/uarch.c   | 3 +++
 tools/cpu-info.c  | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/include/cpuinfo.h b/include/cpuinfo.h
index 5f93819..9976a3b 100644
--- a/include/cpuinfo.h
+++ b/include/cpuinfo.h
@@ -353,6 +353,9 @@ enum cpuinfo_uarch {
 	cpuinfo_uarch_palm_cove = 0x0010020B,
 	/** Intel Sunny Cove microarchitecture (10 nm, Ice Lake). */
 	cpuinfo_uarch_sunny_cove = 0x0010020C,
+	/** Intel Golden Cove microarchitecture (Intel 7, Sapphire Rapids and
+	   Emerald Rapids). */
+	cpuinfo_uarch_golden_cove = 0x0010020E,
 
 	/** Pentium 4 with Willamette, Northwood, or Foster cores. */
 	cpuinfo_uarch_willamette = 0x00100300,
diff --git a/src/x86/uarch.c b/src/x86/uarch.c
index 0379f2b..96a0bcb 100644
--- a/src/x86/uarch.c
+++ b/src/x86/uarch.c
@@ -167,6 +167,9 @@ enum cpuinfo_uarch cpuinfo_x86_decode_uarch(
 						case 0x7D: // Ice Lake-Y
 						case 0x7E: // Ice Lake-U
 							return cpuinfo_uarch_sunny_cove;
+						case 0x8F: // Sapphire Rapids
+						case 0xCF: // Emerald Rapids
+							return cpuinfo_uarch_golden_cove;
 
 						/* Low-power cores */
 						case 0x1C: // Diamondville,
diff --git a/tools/cpu-info.c b/tools/cpu-info.c
index ca3ebfa..13fe278 100644
--- a/tools/cpu-info.c
+++ b/tools/cpu-info.c
@@ -80,6 +80,8 @@ static const char* uarch_to_string(enum cpuinfo_uarch uarch) {
 			return "Palm Cove";
 		case cpuinfo_uarch_sunny_cove:
 			return "Sunny Cove";
+		case cpuinfo_uarch_golden_cove:
+			return "Golden Cove";
 		case cpuinfo_uarch_willamette:
 			return "Willamette";
 		case cpuinfo_uarch_prescott:
-- 
2.43.0


From ce335173b4d7c01095949a47a99a0de5a9e39abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:27 +0000
Subject: [PATCH 17/73] fix: count offline ARM processors consistently in all
 topology levels

Processors which are possible and present, but not listed in /proc/cpuinfo,
took part in cluster, cache and microarchitecture detection, but were left
out of the processor count. The reported arrays then disagreed with each
other. Count every processor that takes part in the detection.
---
 src/arm/linux/init.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 1eab69d..835e7c4 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -203,14 +203,9 @@ void cpuinfo_arm_linux_init(void) {
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
 		arm_linux_processors[i].system_processor_id = i;
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_LINUX_FLAG_VALID)) {
-			if (arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR) {
-				/*
-				 * Processor is in possible and present lists,
-				 * and also reported in /proc/cpuinfo. This
-				 * processor is availble for compute.
-				 */
-				valid_processors += 1;
-			} else {
+			valid_processors += 1;
+
+			if (!(arm_linux_processors[i].flags & CPUINFO_ARM_LINUX_VALID_PROCESSOR)) {
 				/*
 				 * Processor is in possible and present lists,
 				 * but not reported in /proc/cpuinfo. This is
-- 
2.43.0


From 8c50037b4140327bf345e630ed57a3a08797cf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:44 +0000
Subject: [PATCH 18/73] fix: release memory when /proc/cpuinfo cannot be read
 on ARM

The table of processors was leaked if reading /proc/cpuinfo failed.
---
 src/arm/linux/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 835e7c4..cc92567 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -185,7 +185,7 @@ void cpuinfo_arm_linux_init(void) {
 		    arm_linux_processors_count,
 		    arm_linux_processors)) {
 		cpuinfo_log_error("failed to parse processor information from /proc/cpuinfo");
-		return;
+		goto cleanup;
 	}
 
 	for (uint32_t i = 0; i < arm_linux_processors_count; i++) {
-- 
2.43.0


From 9062e09dd7bd7c2f2ab32d3c39911e93c14bf7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:44 +0000
Subject: [PATCH 19/73] fix: fail initialization when no ARM processor is
 usable

If the lists of possible and present processors have no processor in
common, initialization went on with empty arrays and read the first
element of them.
---
 src/arm/linux/init.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index cc92567..f3dfe76 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -233,6 +233,11 @@ void cpuinfo_arm_linux_init(void) {
 		}
 	}
 
+	if (valid_processors == 0) {
+		cpuinfo_log_error("no processor is both possible and present");
+		goto cleanup;
+	}
+
 #if defined(__ANDROID__)
 	const struct cpuinfo_arm_chipset chipset =
 		cpuinfo_arm_android_decode_chipset(&android_properties, valid_processors, 0);
-- 
2.43.0


From 5e71792eeb1458d4919be55c9aff69070646e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:44 +0000
Subject: [PATCH 20/73] fix: stop at ':' in ARM /proc/cpuinfo processor numbers

The character after '9' was accepted as a decimal digit with value 10.
---
 src/arm/linux/cpuinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 081d9aa..e915a8a 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -26,7 +26,7 @@ static uint32_t parse_processor_number(const char* processor_start, const char*
 	uint32_t processor_number = 0;
 	for (const char* digit_ptr = processor_start; digit_ptr != processor_end; digit_ptr++) {
 		const uint32_t digit = (uint32_t)(*digit_ptr - '0');
-		if (digit > 10) {
+		if (digit >= 10) {
 			cpuinfo_log_warning(
 				"non-decimal suffix %.*s in /proc/cpuinfo processor number is ignored",
 				(int)(processor_end - digit_ptr),
-- 
2.43.0


From 906e371e581b25aa094349b2c67a7124a62f4a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:44 +0000
Subject: [PATCH 21/73] fix: do not write past the Hardware and Revision
 buffers

A value exactly as long as the buffer fills it completely, and the
terminating zero was written one byte past its end.
---
 src/arm/linux/cpuinfo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index e915a8a..2aaf9dc 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -879,7 +879,7 @@ static bool parse_line(
 						value_start,
 						CPUINFO_HARDWARE_VALUE_MAX);
 					value_length = CPUINFO_HARDWARE_VALUE_MAX;
-				} else {
+				} else if (value_length < CPUINFO_HARDWARE_VALUE_MAX) {
 					state->hardware[value_length] = '\0';
 				}
 				memcpy(state->hardware, value_start, value_length);
@@ -894,7 +894,7 @@ static bool parse_line(
 						value_start,
 						CPUINFO_REVISION_VALUE_MAX);
 					value_length = CPUINFO_REVISION_VALUE_MAX;
-				} else {
+				} else if (value_length < CPUINFO_REVISION_VALUE_MAX) {
 					state->revision[value_length] = '\0';
 				}
 				memcpy(state->revision, value_start, value_length);
-- 
2.43.0


From ef679fc08b5d7ed628c9942dcde2d1c1845003dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:44 +0000
Subject: [PATCH 22/73] fix: initialize the revision if /proc/cpuinfo does not
 report it

The chipset decoder reads the Revision value also when /proc/cpuinfo has
no Revision line, and the buffer held stack garbage in this case.
---
 src/arm/linux/cpuinfo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 2aaf9dc..20846ff 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -1011,6 +1011,7 @@ bool cpuinfo_arm_linux_parse_proc_cpuinfo(
 	uint32_t max_processors_count,
 	struct cpuinfo_arm_linux_processor processors[restrict static max_processors_count]) {
 	hardware[0] = '\0';
+	revision[0] = '\0';
 	struct proc_cpuinfo_parser_state state = {
 		.hardware = hardware,
 		.revision = revision,
-- 
2.43.0


From 61b1ed5056d94063db8651949b7cf2978155d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:06 +0000
Subject: [PATCH 23/73] fix: ignore invalid cache parameters in ARM
 /proc/cpuinfo

Zero values and unreasonable cache line lengths were reported as ignored
in the log, but used to describe the caches nevertheless.
---
 src/arm/linux/cpuinfo.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arm/linux/cpuinfo.c b/src/arm/linux/cpuinfo.c
index 20846ff..0b6dbe4 100644
--- a/src/arm/linux/cpuinfo.c
+++ b/src/arm/linux/cpuinfo.c
@@ -669,6 +669,7 @@ static void parse_cache_number(
 			number_name,
 			(int)(number_end - number_start),
 			number_start);
+		return;
 	}
 
 	/* If the number specifies a cache line size, verify that is a
@@ -686,6 +687,7 @@ static void parse_cache_number(
 					number_name,
 					(int)(number_end - number_start),
 					number_start);
+				return;
 		}
 	}
 
-- 
2.43.0


From 0bc65b0bdfd53c6e34fc8fd6c70431ebfb695999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:06 +0000
Subject: [PATCH 24/73] fix: set the processor of L1 caches described in
 /proc/cpuinfo

L1 caches described in /proc/cpuinfo of old ARM kernels were reported
as used by no processor.
---
 src/arm/linux/init.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index f3dfe76..777d1c9 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -670,8 +670,6 @@ void cpuinfo_arm_linux_init(void) {
 			&l1d[i],
 			&temp_l2,
 			&temp_l3);
-		l1i[i].processor_start = l1d[i].processor_start = i;
-		l1i[i].processor_count = l1d[i].processor_count = 1;
 #if CPUINFO_ARCH_ARM
 		/* L1I reported in /proc/cpuinfo overrides defaults */
 		if (bitmask_all(arm_linux_processors[i].flags, CPUINFO_ARM_LINUX_VALID_ICACHE)) {
@@ -692,6 +690,8 @@ void cpuinfo_arm_linux_init(void) {
 				.line_size = arm_linux_processors[i].proc_cpuinfo_cache.d_line_length};
 		}
 #endif
+		l1i[i].processor_start = l1d[i].processor_start = i;
+		l1i[i].processor_count = l1d[i].processor_count = 1;
 
 		if (temp_l3.size != 0) {
 			/*
-- 
2.43.0


From b2df55b755cd3715bff622b44669da9561804ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:06 +0000
Subject: [PATCH 25/73] fix: report the L3 cache of every ARM cluster

If L3 caches are not shared by all clusters, clusters with an L3 cache
as large as the one of the first cluster were not counted. The caches of
the clusters behind them were then lost.
---
 src/arm/linux/init.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 777d1c9..4ba7271 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -705,13 +705,12 @@ void cpuinfo_arm_linux_init(void) {
 			if (arm_linux_processors[i].package_leader_id == arm_linux_processors[i].system_processor_id) {
 				if (cluster_id == 0) {
 					big_l3_size = temp_l3.size;
-					l3_count = 1;
 				} else if (temp_l3.size != big_l3_size) {
 					/* If some cores have different L3 size,
 					 * L3 is not shared between all cores */
 					shared_l3 = false;
-					l3_count += 1;
 				}
+				l3_count += 1;
 			}
 		} else {
 			/* If some cores don't have L3 cache, L3 is not shared
@@ -729,6 +728,10 @@ void cpuinfo_arm_linux_init(void) {
 		}
 	}
 
+	if (shared_l3 && l3_count != 0) {
+		l3_count = 1;
+	}
+
 	if (l2_count != 0) {
 		l2 = calloc(l2_count, sizeof(struct cpuinfo_cache));
 		if (l2 == NULL) {
-- 
2.43.0


From ff95651b07e0c47e3815411f981d0434cdd14a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:06 +0000
Subject: [PATCH 26/73] fix: compare the first processor of heuristic clusters
 with the others

Clusters proposed by the heuristic must consist of processors with the
same known frequencies and MIDR. The first processor of each cluster was
not compared with the rest of the cluster.
---
 src/arm/linux/clusters.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arm/linux/clusters.c b/src/arm/linux/clusters.c
index 8dd452a..cd98d86 100644
--- a/src/arm/linux/clusters.c
+++ b/src/arm/linux/clusters.c
@@ -132,7 +132,12 @@ bool cpuinfo_arm_linux_detect_core_clusters_by_heuristic(
 						return false;
 					}
 				} else {
-					cluster_flags = 0;
+					cluster_flags = processors[i].flags &
+						(CPUINFO_LINUX_FLAG_MIN_FREQUENCY | CPUINFO_LINUX_FLAG_MAX_FREQUENCY |
+						 CPUINFO_ARM_LINUX_VALID_MIDR);
+					cluster_min_frequency = processors[i].min_frequency;
+					cluster_max_frequency = processors[i].max_frequency;
+					cluster_midr = processors[i].midr;
 				}
 
 				cluster_start = i;
-- 
2.43.0


From 110bf1a4fa1f13ceb2f4940d9435f59910f8666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:30 +0000
Subject: [PATCH 27/73] fix: do not read past the end of an incomplete cpu list
 entry

If a cpu list ends with a dash, the character after the end of the data
was read for the log message. This character is past the end of the
buffer if the buffer is full.
---
 src/linux/cpulist.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/linux/cpulist.c b/src/linux/cpulist.c
index f6c4c29..f9dd8e8 100644
--- a/src/linux/cpulist.c
+++ b/src/linux/cpulist.c
@@ -115,8 +115,7 @@ inline static bool parse_entry(
 	if (number_end == number_start) {
 		/* Failed to parse the second number; ignore the entry */
 		cpuinfo_log_warning(
-			"invalid character '%c' in the cpu list entry \"%.*s\": entry is ignored",
-			*number_start,
+			"missing last cpu number in the cpu list entry \"%.*s\": entry is ignored",
 			(int)entry_length,
 			entry_start);
 		return false;
-- 
2.43.0


From 3d2618cec81439978726e3935c0523fe73d53814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:32 +0000
Subject: [PATCH 28/73] fix: keep processors of a RISC-V core, cluster, and
 package adjacent

A processor is assigned to the core, cluster, and package created most
recently. If processors of different groups alternate in the system
numbering, many of them were assigned to a wrong group.
---
 src/riscv/linux/init.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index 9ab3d6e..e97890e 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -14,12 +14,29 @@ static inline bool bitmask_all(uint32_t flags, uint32_t mask) {
 }
 
 static int compare_riscv_linux_processors(const void* a, const void* b) {
+	const struct cpuinfo_riscv_linux_processor* processor_a = (const struct cpuinfo_riscv_linux_processor*)a;
+	const struct cpuinfo_riscv_linux_processor* processor_b = (const struct cpuinfo_riscv_linux_processor*)b;
+
 	/**
 	 * For our purposes, it is only relevant that the list is sorted by
 	 * micro-architecture, so the nature of ordering is irrelevant.
 	 */
-	return ((const struct cpuinfo_riscv_linux_processor*)a)->core.uarch -
-		((const struct cpuinfo_riscv_linux_processor*)b)->core.uarch;
+	if (processor_a->core.uarch != processor_b->core.uarch) {
+		return processor_a->core.uarch < processor_b->core.uarch ? -1 : 1;
+	}
+
+	/* Processors of the same package, cluster, and core must be adjacent. */
+	if (processor_a->package_leader_id != processor_b->package_leader_id) {
+		return processor_a->package_leader_id < processor_b->package_leader_id ? -1 : 1;
+	}
+	if (processor_a->cluster_leader_id != processor_b->cluster_leader_id) {
+		return processor_a->cluster_leader_id < processor_b->cluster_leader_id ? -1 : 1;
+	}
+	if (processor_a->core_leader_id != processor_b->core_leader_id) {
+		return processor_a->core_leader_id < processor_b->core_leader_id ? -1 : 1;
+	}
+	return processor_a->processor.linux_id < processor_b->processor.linux_id ? -1
+		: processor_a->processor.linux_id > processor_b->processor.linux_id;
 }
 
 /**
-- 
2.43.0


From 3f3ef6d1ed1acbf945da10629752e73dc9f9399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:32 +0000
Subject: [PATCH 29/73] fix: describe RISC-V topology with indices into the
 reported arrays

The first processor of a core, cluster, and package was its Linux ID.
This is not its position in the array of processors if some processors
are not present, and it is never the position of the first core or
cluster in their arrays. Inconsistent lists of siblings also led to
writes in front of the arrays.
---
 src/riscv/linux/init.c | 71 ++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index e97890e..e437e86 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -39,6 +39,27 @@ static int compare_riscv_linux_processors(const void* a, const void* b) {
 		: processor_a->processor.linux_id > processor_b->processor.linux_id;
 }
 
+/* Checks if a processor starts a new package in the sorted list. */
+static inline bool starts_package(
+	const struct cpuinfo_riscv_linux_processor* previous,
+	const struct cpuinfo_riscv_linux_processor* processor) {
+	return previous == NULL || previous->package_leader_id != processor->package_leader_id;
+}
+
+/* Checks if a processor starts a new cluster in the sorted list. */
+static inline bool starts_cluster(
+	const struct cpuinfo_riscv_linux_processor* previous,
+	const struct cpuinfo_riscv_linux_processor* processor) {
+	return starts_package(previous, processor) || previous->cluster_leader_id != processor->cluster_leader_id;
+}
+
+/* Checks if a processor starts a new core in the sorted list. */
+static inline bool starts_core(
+	const struct cpuinfo_riscv_linux_processor* previous,
+	const struct cpuinfo_riscv_linux_processor* processor) {
+	return starts_cluster(previous, processor) || previous->core_leader_id != processor->core_leader_id;
+}
+
 /**
  * Parses the core cpus list for each processor. This function is called once
  * per-processor, with the IDs of all other processors in the core list.
@@ -413,30 +434,24 @@ void cpuinfo_riscv_linux_init(void) {
 	size_t valid_clusters_count = 0;
 	size_t valid_packages_count = 0;
 	size_t valid_uarchs_count = 0;
+	const struct cpuinfo_riscv_linux_processor* previous = NULL;
 	enum cpuinfo_uarch last_uarch = cpuinfo_uarch_unknown;
 	for (size_t processor = 0; processor < max_processor_id; processor++) {
 		if (!bitmask_all(riscv_linux_processors[processor].flags, CPUINFO_LINUX_FLAG_VALID)) {
 			continue;
 		}
 
-		/**
-		 * All comparisons to the leader id values MUST be done against
-		 * the 'linux_id' as opposed to 'processor'. The sort function
-		 * above no longer allows us to make the assumption that these
-		 * two values are the same.
-		 */
-		uint32_t linux_id = riscv_linux_processors[processor].processor.linux_id;
-
 		valid_processors_count++;
-		if (riscv_linux_processors[processor].core_leader_id == linux_id) {
+		if (starts_core(previous, &riscv_linux_processors[processor])) {
 			valid_cores_count++;
 		}
-		if (riscv_linux_processors[processor].cluster_leader_id == linux_id) {
+		if (starts_cluster(previous, &riscv_linux_processors[processor])) {
 			valid_clusters_count++;
 		}
-		if (riscv_linux_processors[processor].package_leader_id == linux_id) {
+		if (starts_package(previous, &riscv_linux_processors[processor])) {
 			valid_packages_count++;
 		}
+		previous = &riscv_linux_processors[processor];
 		/**
 		 * As we've sorted by micro-architecture, when the uarch differs
 		 * between two entries, a unique uarch has been observed.
@@ -526,18 +541,13 @@ void cpuinfo_riscv_linux_init(void) {
 	size_t valid_clusters_index = 0;
 	size_t valid_packages_index = 0;
 	size_t valid_uarchs_index = 0;
+	previous = NULL;
 	last_uarch = cpuinfo_uarch_unknown;
 	for (size_t processor = 0; processor < max_processor_id; processor++) {
 		if (!bitmask_all(riscv_linux_processors[processor].flags, CPUINFO_LINUX_FLAG_VALID)) {
 			continue;
 		}
 
-		/**
-		 * All comparisons to the leader id values MUST be done against
-		 * the 'linux_id' as opposed to 'processor'. The sort function
-		 * above no longer allows us to make the assumption that these
-		 * two values are the same.
-		 */
 		uint32_t linux_id = riscv_linux_processors[processor].processor.linux_id;
 
 		/* Create uarch entry if this uarch has not been seen before. */
@@ -555,27 +565,48 @@ void cpuinfo_riscv_linux_init(void) {
 		uarchs[valid_uarchs_index - 1].processor_count++;
 
 		/* Copy cpuinfo_core information, if this is the leader. */
-		if (riscv_linux_processors[processor].core_leader_id == linux_id) {
+		if (starts_core(previous, &riscv_linux_processors[processor])) {
 			memcpy(&cores[valid_cores_index++],
 			       &riscv_linux_processors[processor].core,
 			       sizeof(struct cpuinfo_core));
+			cores[valid_cores_index - 1].processor_start = valid_processors_index - 1;
+			cores[valid_cores_index - 1].processor_count = 0;
 			/* Update uarch core count. */
 			uarchs[valid_uarchs_index - 1].core_count++;
 		}
 
 		/* Copy cpuinfo_cluster information, if this is the leader. */
-		if (riscv_linux_processors[processor].cluster_leader_id == linux_id) {
+		if (starts_cluster(previous, &riscv_linux_processors[processor])) {
 			memcpy(&clusters[valid_clusters_index++],
 			       &riscv_linux_processors[processor].cluster,
 			       sizeof(struct cpuinfo_cluster));
+			clusters[valid_clusters_index - 1].processor_start = valid_processors_index - 1;
+			clusters[valid_clusters_index - 1].processor_count = 0;
+			clusters[valid_clusters_index - 1].core_start = valid_cores_index - 1;
 		}
 
 		/* Copy cpuinfo_package information, if this is the leader. */
-		if (riscv_linux_processors[processor].package_leader_id == linux_id) {
+		if (starts_package(previous, &riscv_linux_processors[processor])) {
 			memcpy(&packages[valid_packages_index++],
 			       &riscv_linux_processors[processor].package,
 			       sizeof(struct cpuinfo_package));
+			packages[valid_packages_index - 1].processor_start = valid_processors_index - 1;
+			packages[valid_packages_index - 1].processor_count = 0;
+			packages[valid_packages_index - 1].core_start = valid_cores_index - 1;
+			packages[valid_packages_index - 1].cluster_start = valid_clusters_index - 1;
 		}
+		previous = &riscv_linux_processors[processor];
+
+		/* Count the members of the groups by position in the final structures. */
+		cores[valid_cores_index - 1].processor_count++;
+		clusters[valid_clusters_index - 1].processor_count++;
+		clusters[valid_clusters_index - 1].core_count =
+			valid_cores_index - clusters[valid_clusters_index - 1].core_start;
+		packages[valid_packages_index - 1].processor_count++;
+		packages[valid_packages_index - 1].core_count =
+			valid_cores_index - packages[valid_packages_index - 1].core_start;
+		packages[valid_packages_index - 1].cluster_count =
+			valid_clusters_index - packages[valid_packages_index - 1].cluster_start;
 
 		/* Commit pointers on the final structures. */
 		processors[valid_processors_index - 1].core = &cores[valid_cores_index - 1];
-- 
2.43.0


From 91f5ee86595b8a1b2ff3385cf25fb7f0ea1da187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:43 +0000
Subject: [PATCH 30/73] fix: fail initialization when no RISC-V processor is
 present

If every number in the list of present processors is out of range,
initialization was reported as successful without a single processor.
---
 src/riscv/linux/init.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index e437e86..63c6a6f 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -462,6 +462,11 @@ void cpuinfo_riscv_linux_init(void) {
 		}
 	}
 
+	if (valid_processors_count == 0) {
+		cpuinfo_log_error("failed to discover any processors");
+		goto cleanup;
+	}
+
 	/* Allocate and populate final public ABI structures. */
 	processors = calloc(valid_processors_count, sizeof(struct cpuinfo_processor));
 	if (processors == NULL) {
-- 
2.43.0


From 70069ab1445ac3c978f8be724d76543a239bf0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:05 +0000
Subject: [PATCH 31/73] fix: use one architecture version for all ARM cores of
 a cluster

The generic cache parameters for an unrecognized core depend on the
architecture version of the processor. /proc/cpuinfo does not report it for
processors that are off, so the cores of one cluster could disagree on whether
they have an L2 cache. If the first core had none, the others got an L2
pointer computed from a null or wrapped index.
---
 src/arm/linux/init.c | 5 ++++-
 src/arm/linux/midr.c | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arm/linux/init.c b/src/arm/linux/init.c
index 4ba7271..6b6a2bf 100644
--- a/src/arm/linux/init.c
+++ b/src/arm/linux/init.c
@@ -451,12 +451,15 @@ void cpuinfo_arm_linux_init(void) {
 					&arm_linux_processors[cluster_leader].uarch);
 			} else {
 				/* Cluster non-leader: copy vendor, uarch, MIDR,
-				 * and frequency from cluster leader */
+				 * architecture version, and frequency from
+				 * cluster leader */
 				arm_linux_processors[i].flags |= arm_linux_processors[cluster_leader].flags &
 					(CPUINFO_ARM_LINUX_VALID_MIDR | CPUINFO_LINUX_FLAG_MAX_FREQUENCY);
 				arm_linux_processors[i].midr = arm_linux_processors[cluster_leader].midr;
 				arm_linux_processors[i].vendor = arm_linux_processors[cluster_leader].vendor;
 				arm_linux_processors[i].uarch = arm_linux_processors[cluster_leader].uarch;
+				arm_linux_processors[i].architecture_version =
+					arm_linux_processors[cluster_leader].architecture_version;
 				arm_linux_processors[i].max_frequency =
 					arm_linux_processors[cluster_leader].max_frequency;
 			}
diff --git a/src/arm/linux/midr.c b/src/arm/linux/midr.c
index 10db278..f7704d3 100644
--- a/src/arm/linux/midr.c
+++ b/src/arm/linux/midr.c
@@ -869,6 +869,9 @@ uint32_t cpuinfo_arm_linux_detect_cluster_midr(
 					processors[group_leader].max_frequency = processors[i].max_frequency;
 					processors[group_leader].flags |= CPUINFO_LINUX_FLAG_MAX_FREQUENCY;
 				}
+				if (processors[group_leader].architecture_version == 0) {
+					processors[group_leader].architecture_version = processors[i].architecture_version;
+				}
 				if (!bitmask_all(processors[group_leader].flags, CPUINFO_ARM_LINUX_VALID_MIDR) &&
 				    bitmask_all(processors[i].flags, CPUINFO_ARM_LINUX_VALID_MIDR)) {
 					processors[group_leader].midr = processors[i].midr;
-- 
2.43.0


From 60226d001977b9947658ff3e7029c603fb2a633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:05 +0000
Subject: [PATCH 32/73] fix: correct the declared bound of the processor array
 in the big.LITTLE heuristic

The function accesses the element at last_processor_with_midr, so the array
has at least one element more than that. When processor 0 is the only one
with a known MIDR the bound evaluated to zero, which is undefined.
---
 src/arm/linux/midr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/midr.c b/src/arm/linux/midr.c
index f7704d3..766d8cd 100644
--- a/src/arm/linux/midr.c
+++ b/src/arm/linux/midr.c
@@ -701,7 +701,7 @@ static bool cpuinfo_arm_linux_detect_cluster_midr_by_big_little_heuristic(
 	uint32_t cluster_with_midr_count,
 	uint32_t last_processor_with_midr,
 	const uint32_t cluster_leaders[restrict static CLUSTERS_MAX],
-	struct cpuinfo_arm_linux_processor processors[restrict static last_processor_with_midr],
+	struct cpuinfo_arm_linux_processor processors[restrict static last_processor_with_midr + 1],
 	bool verify_midr) {
 	if (clusters_count != 2 || cluster_with_midr_count != 1) {
 		/* Not a big.LITTLE system, or MIDR is known for both/neither
-- 
2.43.0


From 15ac5aabaf7f5d431606a0de7230d7cbf97cb273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:05 +0000
Subject: [PATCH 33/73] fix: recognize Kryo 280 Gold when guessing its LITTLE
 core

The switch compares the MIDR without variant and revision, but the label for
Kryo 280 Gold has both, so it could never match.
---
 src/arm/midr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arm/midr.h b/src/arm/midr.h
index 5530d5a..b5768c4 100644
--- a/src/arm/midr.h
+++ b/src/arm/midr.h
@@ -261,7 +261,9 @@ inline static uint32_t midr_little_core_for_big(uint32_t midr) {
 		case CPUINFO_ARM_MIDR_CORTEX_A17:
 		case CPUINFO_ARM_MIDR_CORTEX_A15:
 			return CPUINFO_ARM_MIDR_CORTEX_A7;
-		case CPUINFO_ARM_MIDR_KRYO280_GOLD:
+		case CPUINFO_ARM_MIDR_KRYO280_GOLD &
+			(CPUINFO_ARM_MIDR_IMPLEMENTER_MASK | CPUINFO_ARM_MIDR_ARCHITECTURE_MASK |
+			 CPUINFO_ARM_MIDR_PART_MASK):
 			return CPUINFO_ARM_MIDR_KRYO280_SILVER;
 		case CPUINFO_ARM_MIDR_KRYO_GOLD:
 			return CPUINFO_ARM_MIDR_KRYO_SILVER_820;
-- 
2.43.0


From 87f93470cac56437fd58bfbe6e18a9b25f8e98f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:05 +0000
Subject: [PATCH 34/73] fix: MT6592 has eight cores

The table entry describes two clusters of four cores but gave a total of four
cores, so it never matched.
---
 src/arm/linux/midr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/midr.c b/src/arm/linux/midr.c
index 766d8cd..1a97e16 100644
--- a/src/arm/linux/midr.c
+++ b/src/arm/linux/midr.c
@@ -443,7 +443,7 @@ static const struct cluster_config
 				 * MediaTek MT6592: 4x Cortex-A7 + 4x Cortex-A7
 				 * Some phones use non-standard /proc/cpuinfo format.
 				 */
-				.cores = 4,
+				.cores = 8,
 				.series = cpuinfo_arm_chipset_series_mediatek_mt,
 				.model = UINT16_C(6592),
 				.clusters = 2,
-- 
2.43.0


From d59791003e9b42a89e5e34fa999c6996908cc50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:49 +0000
Subject: [PATCH 35/73] fix: report RISC-V core frequency in Hz

The kernel reports frequencies in kHz, while the public structures document Hz.
---
 src/riscv/linux/init.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/riscv/linux/init.c b/src/riscv/linux/init.c
index 63c6a6f..4ca1cdd 100644
--- a/src/riscv/linux/init.c
+++ b/src/riscv/linux/init.c
@@ -363,7 +363,8 @@ void cpuinfo_riscv_linux_init(void) {
 		/* Populate frequency information of this core. */
 		uint32_t frequency = cpuinfo_linux_get_processor_cur_frequency(processor);
 		if (frequency != 0) {
-			riscv_linux_processors[processor].core.frequency = frequency;
+			/* Linux reports frequencies in kHz. */
+			riscv_linux_processors[processor].core.frequency = UINT64_C(1000) * frequency;
 			riscv_linux_processors[processor].flags |= CPUINFO_LINUX_FLAG_CUR_FREQUENCY;
 		}
 	}
-- 
2.43.0


From 91ebb5deed66e6ab48135a283921636ec41bb6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:31 +0000
Subject: [PATCH 36/73] fix: do not report offline x86 processors as threads of
 core 0

Processors that are present but offline are not listed in /proc/cpuinfo, so
their APIC IDs are not known. They all took part with APIC ID 0 and were
reported as additional threads of the first core.
---
 src/x86/linux/init.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/x86/linux/init.c b/src/x86/linux/init.c
index f688ed6..b4e91af 100644
--- a/src/x86/linux/init.c
+++ b/src/x86/linux/init.c
@@ -167,13 +167,12 @@ void cpuinfo_x86_linux_init(void) {
 	const uint32_t max_present_processors_count = 1 + cpuinfo_linux_get_max_present_processor(max_processors_count);
 	cpuinfo_log_debug("maximum present processors count: %" PRIu32, max_present_processors_count);
 
-	uint32_t valid_processor_mask = 0;
+	/* Offline processors are not listed in /proc/cpuinfo, and their APIC IDs are not known */
+	uint32_t valid_processor_mask = CPUINFO_LINUX_FLAG_PROC_CPUINFO;
 	uint32_t x86_linux_processors_count = max_processors_count;
 	if (max_present_processors_count != 0) {
 		x86_linux_processors_count = min(x86_linux_processors_count, max_present_processors_count);
-		valid_processor_mask = CPUINFO_LINUX_FLAG_PRESENT;
-	} else {
-		valid_processor_mask = CPUINFO_LINUX_FLAG_PROC_CPUINFO;
+		valid_processor_mask |= CPUINFO_LINUX_FLAG_PRESENT;
 	}
 	if (max_possible_processors_count != 0) {
 		x86_linux_processors_count = min(x86_linux_processors_count, max_possible_processors_count);
-- 
2.43.0


From f3886457338418f523ad79915dadce2785b79058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:53 +0000
Subject: [PATCH 37/73] fix: read past lines of /proc/cpuinfo which do not fit
 into the buffer

A line longer than the buffer left no room for the next read. The read of
zero bytes was taken for the end of the file, and all processors described
after the line were lost.
---
 src/linux/multiline.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/linux/multiline.c b/src/linux/multiline.c
index 00f4583..151e874 100644
--- a/src/linux/multiline.c
+++ b/src/linux/multiline.c
@@ -40,6 +40,8 @@ bool cpuinfo_linux_parse_multiline_file(
 	uint64_t line_number = 1;
 	const char* buffer_end = &buffer[buffer_size];
 	char* data_start = buffer;
+	/* Indicates that the data in the buffer continues a line which did not fit into the buffer */
+	bool skip_line = false;
 	ssize_t bytes_read;
 	do {
 #if CPUINFO_MOCK
@@ -61,7 +63,7 @@ bool cpuinfo_linux_parse_multiline_file(
 			/* No more data in the file: process the remaining text
 			 * in the buffer as a single entry */
 			const char* line_end = data_end;
-			if (!callback(line_start, line_end, context, line_number)) {
+			if (!skip_line && !callback(line_start, line_end, context, line_number)) {
 				goto cleanup;
 			}
 		} else {
@@ -82,9 +84,11 @@ bool cpuinfo_linux_parse_multiline_file(
 				 * data at the end; read the file once again.
 				 */
 				if (line_end != data_end) {
-					if (!callback(line_start, line_end, context, line_number++)) {
+					if (!skip_line && !callback(line_start, line_end, context, line_number)) {
 						goto cleanup;
 					}
+					skip_line = false;
+					line_number++;
 					line_start = line_end + 1;
 				}
 			} while (line_end != data_end);
@@ -94,6 +98,16 @@ bool cpuinfo_linux_parse_multiline_file(
 			const size_t line_length = (size_t)(line_end - line_start);
 			memmove(buffer, line_start, line_length);
 			data_start = &buffer[line_length];
+
+			/* If the line does not fit into the buffer, process the part which does, and skip the rest:
+			 * reading into a full buffer would look like the end of the file. */
+			if (data_start == buffer_end) {
+				if (!skip_line && !callback(buffer, buffer_end, context, line_number)) {
+					goto cleanup;
+				}
+				skip_line = true;
+				data_start = buffer;
+			}
 		}
 	} while (bytes_read != 0);
 
-- 
2.43.0


From 85408559bd03485b3cd03cb390c6d8d7d9ba52f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:06 +0000
Subject: [PATCH 38/73] fix: do not let the processors count wrap around to
 zero

A kernel_max of 4294967295 made the count zero, and the library went on with
empty arrays of processors.
---
 src/linux/processors.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linux/processors.c b/src/linux/processors.c
index b68cd1c..5bc04b6 100644
--- a/src/linux/processors.c
+++ b/src/linux/processors.c
@@ -139,7 +139,8 @@ uint32_t cpuinfo_linux_get_max_processors_count(void) {
 				default_max_processors_count - 1);
 		}
 
-		return kernel_max + 1;
+		/* Saturate: the count must not wrap around to zero */
+		return kernel_max == UINT32_MAX ? UINT32_MAX : kernel_max + 1;
 	} else {
 		cpuinfo_log_warning(
 			"using platform-default max processors count = %" PRIu32, default_max_processors_count);
-- 
2.43.0


From b2f2689cf635de471fc1608d26de209ab79c2335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:27 +0000
Subject: [PATCH 39/73] fix: keep the last character of log messages which
 exactly fill the buffer

The terminator written by vsnprintf took the place of the last character when
prefix, message and newline were exactly 1024 characters long. The newline
overwrites the terminator, so no extra room is needed for it.
---
 src/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log.c b/src/log.c
index 2f85128..278cce2 100644
--- a/src/log.c
+++ b/src/log.c
@@ -67,7 +67,7 @@ static void cpuinfo_vlog(
 
 	const int format_chars = vsnprintf(
 		&stack_buffer[prefix_length],
-		CPUINFO_LOG_STACK_BUFFER_SIZE - (prefix_length + CPUINFO_LOG_NEWLINE_LENGTH) * sizeof(char),
+		CPUINFO_LOG_STACK_BUFFER_SIZE - prefix_length * sizeof(char) /* newline replaces '\0'-terminator */,
 		format,
 		args);
 	if (format_chars < 0) {
-- 
2.43.0


From 7967205284057eee73c5a05149401b15f1fd5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:27 +0000
Subject: [PATCH 40/73] fix: keep all characters of clog messages at the buffer
 size

A message of exactly 1024 characters, newline included, lost its last
character, and a prefix of exactly 1024 characters lost its last one: in both
cases a terminator was written in its place.
---
 deps/clog/src/clog.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/deps/clog/src/clog.c b/deps/clog/src/clog.c
index 27658f9..2e35d49 100644
--- a/deps/clog/src/clog.c
+++ b/deps/clog/src/clog.c
@@ -79,7 +79,7 @@ void clog_vlog_fatal(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars /* suffix replaces '\0'-terminator */,
 					format,
 					args);
 		}
@@ -94,7 +94,7 @@ void clog_vlog_fatal(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_FATAL_PREFIX_FORMAT, module);
 			} else {
@@ -157,7 +157,7 @@ void clog_vlog_error(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars /* suffix replaces '\0'-terminator */,
 					format,
 					args);
 		}
@@ -172,7 +172,7 @@ void clog_vlog_error(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_ERROR_PREFIX_FORMAT, module);
 			} else {
@@ -235,7 +235,7 @@ void clog_vlog_warning(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars /* suffix replaces '\0'-terminator */,
 					format,
 					args);
 		}
@@ -250,7 +250,7 @@ void clog_vlog_warning(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_WARNING_PREFIX_FORMAT, module);
 			} else {
@@ -313,7 +313,7 @@ void clog_vlog_info(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars /* suffix replaces '\0'-terminator */,
 					format,
 					args);
 		}
@@ -328,7 +328,7 @@ void clog_vlog_info(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_INFO_PREFIX_FORMAT, module);
 			} else {
@@ -391,7 +391,7 @@ void clog_vlog_debug(const char* module, const char* format, va_list args) {
 			format_chars =
 				vsnprintf(
 					&stack_buffer[prefix_chars],
-					CLOG_STACK_BUFFER_SIZE - prefix_chars - CLOG_SUFFIX_LENGTH,
+					CLOG_STACK_BUFFER_SIZE - prefix_chars /* suffix replaces '\0'-terminator */,
 					format,
 					args);
 		}
@@ -406,7 +406,7 @@ void clog_vlog_debug(const char* module, const char* format, va_list args) {
 				goto cleanup;
 			}
 
-			if (prefix_chars > CLOG_STACK_BUFFER_SIZE) {
+			if (prefix_chars >= CLOG_STACK_BUFFER_SIZE) {
 				/* Prefix didn't fit into on-stack buffer, re-format it again to on-heap buffer */
 				snprintf(heap_buffer, prefix_chars + 1 /* for '\0'-terminator */, CLOG_DEBUG_PREFIX_FORMAT, module);
 			} else {
-- 
2.43.0


From 1605dd6abf7fbf4d8f8e65233e93348ffc0e8ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:24 +0000
Subject: [PATCH 41/73] fix: keep the suffix letter of Leadcore chipsets

The suffix was stored in the output structure, which was then overwritten
with the empty local variable.
---
 src/arm/linux/chipset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm/linux/chipset.c b/src/arm/linux/chipset.c
index c4977c3..5a2bb90 100644
--- a/src/arm/linux/chipset.c
+++ b/src/arm/linux/chipset.c
@@ -1073,7 +1073,7 @@ static bool match_lc(const char* start, const char* end, struct cpuinfo_arm_chip
 		const char c = start[6];
 		if (is_ascii_alphabetic(c)) {
 			/* Convert to uppercase */
-			chipset->suffix[0] = c & '\xDF';
+			suffix = c & '\xDF';
 		} else {
 			/* Invalid suffix character */
 			return false;
-- 
2.43.0


From b6d72dec285fb0a3ee311fac2299e5dfe344afde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:24 +0000
Subject: [PATCH 42/73] fix: do not take four-digit Kirin models for
 three-digit ones

Nine symbols without whitespace, such as "kirin9000", were accepted and
decoded as the model made of the last three digits.
---
 src/arm/linux/chipset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arm/linux/chipset.c b/src/arm/linux/chipset.c
index 5a2bb90..351e2da 100644
--- a/src/arm/linux/chipset.c
+++ b/src/arm/linux/chipset.c
@@ -704,6 +704,9 @@ static bool match_kirin(const char* start, const char* end, struct cpuinfo_arm_c
 		if (length != 9) {
 			return false;
 		}
+	} else if (length != 8) {
+		/* Without whitespace, expect 8 symbols total */
+		return false;
 	}
 
 	/* Validate and parse 3-digit model number */
-- 
2.43.0


From a862a73a5821b82e29f7709be728ee03f2b66490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:01 +0000
Subject: [PATCH 43/73] fix: report the actual number of cores and L1 caches on
 WebAssembly

On x86 hosts with an even number of logical processors, two processors
share a core.  The counts of cores, L1I and L1D caches were still set to
the number of processors, so the upper half of the core array was empty
and the upper half of the L1 arrays lay outside their allocation.
---
 src/emscripten/init.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emscripten/init.c b/src/emscripten/init.c
index c239324..d9b1413 100644
--- a/src/emscripten/init.c
+++ b/src/emscripten/init.c
@@ -251,8 +251,8 @@ void cpuinfo_emscripten_init(void) {
 	cpuinfo_clusters = clusters;
 	cpuinfo_packages = &static_package;
 
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = processor_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = processor_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = core_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = core_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	if (is_x86) {
 		cpuinfo_cache_count[cpuinfo_cache_level_3] = 1;
@@ -265,7 +265,7 @@ void cpuinfo_emscripten_init(void) {
 	};
 
 	cpuinfo_processors_count = processor_count;
-	cpuinfo_cores_count = processor_count;
+	cpuinfo_cores_count = core_count;
 	cpuinfo_clusters_count = cluster_count;
 	cpuinfo_packages_count = 1;
 
-- 
2.43.0


From b11996767a6b21469294a8c8a37311610314d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:01 +0000
Subject: [PATCH 44/73] fix: free memory when a cache array cannot be allocated
 on macOS x86

The function returned without passing through its cleanup code, which
leaked every array allocated so far.
---
 src/x86/mach/init.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/x86/mach/init.c b/src/x86/mach/init.c
index b8ea604..3c69e43 100644
--- a/src/x86/mach/init.c
+++ b/src/x86/mach/init.c
@@ -205,7 +205,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L1I caches",
 				l1_count * sizeof(struct cpuinfo_cache),
 				l1_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l1_count; c++) {
 			l1i[c] = (struct cpuinfo_cache){
@@ -231,7 +231,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L1D caches",
 				l1_count * sizeof(struct cpuinfo_cache),
 				l1_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l1_count; c++) {
 			l1d[c] = (struct cpuinfo_cache){
@@ -257,7 +257,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L2 caches",
 				l2_count * sizeof(struct cpuinfo_cache),
 				l2_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l2_count; c++) {
 			l2[c] = (struct cpuinfo_cache){
@@ -283,7 +283,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L3 caches",
 				l3_count * sizeof(struct cpuinfo_cache),
 				l3_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l3_count; c++) {
 			l3[c] = (struct cpuinfo_cache){
@@ -309,7 +309,7 @@ void cpuinfo_x86_mach_init(void) {
 				"failed to allocate %zu bytes for descriptions of %" PRIu32 " L4 caches",
 				l4_count * sizeof(struct cpuinfo_cache),
 				l4_count);
-			return;
+			goto cleanup;
 		}
 		for (uint32_t c = 0; c < l4_count; c++) {
 			l4[c] = (struct cpuinfo_cache){
-- 
2.43.0


From fb19ac7ae3dbacea7978b5f8015c6a31f2159fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:01 +0000
Subject: [PATCH 45/73] fix: do not count L1 caches that do not exist on macOS,
 iOS and FreeBSD

When only one of the L1 instruction and data caches is known, the array
of the other is NULL but its count was non-zero, and queries for it
returned invalid pointers.
---
 src/arm/mach/init.c    | 4 ++--
 src/x86/freebsd/init.c | 4 ++--
 src/x86/mach/init.c    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arm/mach/init.c b/src/arm/mach/init.c
index c4e6521..b0666b9 100644
--- a/src/arm/mach/init.c
+++ b/src/arm/mach/init.c
@@ -662,8 +662,8 @@ void cpuinfo_arm_mach_init(void) {
 	cpuinfo_clusters_count = num_clusters;
 	cpuinfo_packages_count = mach_topology.packages;
 	cpuinfo_uarchs_count = num_clusters;
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1i != NULL ? l1_count : 0;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1d != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;
 	cpuinfo_max_cache_size = cpuinfo_compute_max_cache_size(&processors[0]);
diff --git a/src/x86/freebsd/init.c b/src/x86/freebsd/init.c
index 797fa24..0b911fa 100644
--- a/src/x86/freebsd/init.c
+++ b/src/x86/freebsd/init.c
@@ -361,8 +361,8 @@ void cpuinfo_x86_freebsd_init(void) {
 	cpuinfo_cores_count = freebsd_topology.cores;
 	cpuinfo_clusters_count = freebsd_topology.packages;
 	cpuinfo_packages_count = freebsd_topology.packages;
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1i != NULL ? l1_count : 0;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1d != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_4] = l4_count;
diff --git a/src/x86/mach/init.c b/src/x86/mach/init.c
index 3c69e43..bf241d6 100644
--- a/src/x86/mach/init.c
+++ b/src/x86/mach/init.c
@@ -343,8 +343,8 @@ void cpuinfo_x86_mach_init(void) {
 	cpuinfo_cores_count = mach_topology.cores;
 	cpuinfo_clusters_count = mach_topology.packages;
 	cpuinfo_packages_count = mach_topology.packages;
-	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1_count;
-	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1_count;
+	cpuinfo_cache_count[cpuinfo_cache_level_1i] = l1i != NULL ? l1_count : 0;
+	cpuinfo_cache_count[cpuinfo_cache_level_1d] = l1d != NULL ? l1_count : 0;
 	cpuinfo_cache_count[cpuinfo_cache_level_2] = l2_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_3] = l3_count;
 	cpuinfo_cache_count[cpuinfo_cache_level_4] = l4_count;
-- 
2.43.0


From 9206f4b94f280655d738e37fa770580fe79ab7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:01 +0000
Subject: [PATCH 46/73] fix: number cores within their package in reconstructed
 APIC IDs

The core field of an APIC ID counts the cores of one package.  The
number of the core in the whole system was used instead, which gave
wrong APIC IDs in all packages but the first on macOS and FreeBSD.
---
 src/x86/freebsd/init.c | 2 +-
 src/x86/mach/init.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x86/freebsd/init.c b/src/x86/freebsd/init.c
index 0b911fa..913b147 100644
--- a/src/x86/freebsd/init.c
+++ b/src/x86/freebsd/init.c
@@ -110,7 +110,7 @@ void cpuinfo_x86_freebsd_init(void) {
 	}
 	for (uint32_t i = 0; i < freebsd_topology.threads; i++) {
 		const uint32_t smt_id = i % threads_per_core;
-		const uint32_t core_id = i / threads_per_core;
+		const uint32_t core_id = i / threads_per_core % cores_per_package;
 		const uint32_t package_id = i / threads_per_package;
 
 		/* Reconstruct APIC IDs from topology components */
diff --git a/src/x86/mach/init.c b/src/x86/mach/init.c
index bf241d6..eecaeb3 100644
--- a/src/x86/mach/init.c
+++ b/src/x86/mach/init.c
@@ -105,7 +105,7 @@ void cpuinfo_x86_mach_init(void) {
 	}
 	for (uint32_t i = 0; i < mach_topology.threads; i++) {
 		const uint32_t smt_id = i % threads_per_core;
-		const uint32_t core_id = i / threads_per_core;
+		const uint32_t core_id = i / threads_per_core % cores_per_package;
 		const uint32_t package_id = i / threads_per_package;
 
 		/* Reconstruct APIC IDs from topology components */
-- 
2.43.0


From f0f95de44d017d602045262bf9243102ff26e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:01 +0000
Subject: [PATCH 47/73] fix: avoid division by zero when the cache line size is
 not known

The number of sets of a cache is computed from the line size that the
kernel reports.  Do not describe caches when it is not available.
---
 src/arm/mach/init.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/arm/mach/init.c b/src/arm/mach/init.c
index b0666b9..e1c8893 100644
--- a/src/arm/mach/init.c
+++ b/src/arm/mach/init.c
@@ -508,10 +508,14 @@ void cpuinfo_arm_mach_init(void) {
 	}
 
 	const uint32_t cacheline_size = get_sys_info(HW_CACHELINE, "HW_CACHELINE");
-	const uint32_t l1d_cache_size = get_sys_info(HW_L1DCACHESIZE, "HW_L1DCACHESIZE");
-	const uint32_t l1i_cache_size = get_sys_info(HW_L1ICACHESIZE, "HW_L1ICACHESIZE");
-	const uint32_t l2_cache_size = get_sys_info(HW_L2CACHESIZE, "HW_L2CACHESIZE");
-	const uint32_t l3_cache_size = get_sys_info(HW_L3CACHESIZE, "HW_L3CACHESIZE");
+	uint32_t l1d_cache_size = get_sys_info(HW_L1DCACHESIZE, "HW_L1DCACHESIZE");
+	uint32_t l1i_cache_size = get_sys_info(HW_L1ICACHESIZE, "HW_L1ICACHESIZE");
+	uint32_t l2_cache_size = get_sys_info(HW_L2CACHESIZE, "HW_L2CACHESIZE");
+	uint32_t l3_cache_size = get_sys_info(HW_L3CACHESIZE, "HW_L3CACHESIZE");
+	if (cacheline_size == 0) {
+		cpuinfo_log_warning("cache line size is not known; cache information will be unavailable");
+		l1d_cache_size = l1i_cache_size = l2_cache_size = l3_cache_size = 0;
+	}
 	const uint32_t l1_cache_associativity = 4;
 	const uint32_t l2_cache_associativity = 8;
 	const uint32_t l3_cache_associativity = 16;
-- 
2.43.0


From ebf1ecb44a34ca7f18ac8b2cd6d4f4d9641354f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:45 +0000
Subject: [PATCH 48/73] fix: handle inconsistent processor counts on macOS and
 iOS

If the number of threads could not be read it stayed at one, and with
several cores the number of threads per core became zero, a divisor.
Counts that do not divide evenly gave processors and cores that point
outside the arrays.  Assume one thread per core and one package then.
---
 src/mach/topology.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mach/topology.c b/src/mach/topology.c
index 53160ce..43d543d 100644
--- a/src/mach/topology.c
+++ b/src/mach/topology.c
@@ -20,7 +20,7 @@ struct cpuinfo_mach_topology cpuinfo_mach_detect_topology(void) {
 		cores = 1;
 	}
 
-	int threads = 1;
+	int threads = cores;
 	size_t sizeof_threads = sizeof(threads);
 	if (sysctlbyname("hw.logicalcpu_max", &threads, &sizeof_threads, NULL, 0) != 0) {
 		cpuinfo_log_error("sysctlbyname(\"hw.logicalcpu_max\") failed: %s", strerror(errno));
@@ -40,6 +40,15 @@ struct cpuinfo_mach_topology cpuinfo_mach_detect_topology(void) {
 	}
 #endif
 
+	if (threads % cores != 0) {
+		cpuinfo_log_error("%d threads cannot be divided between %d cores; assume one thread per core", threads, cores);
+		threads = cores;
+	}
+	if (cores % packages != 0) {
+		cpuinfo_log_error("%d cores cannot be divided between %d packages; assume one package", cores, packages);
+		packages = 1;
+	}
+
 	cpuinfo_log_debug("mach topology: packages = %d, cores = %d, threads = %d", packages, (int)cores, (int)threads);
 	struct cpuinfo_mach_topology topology = {
 		.packages = (uint32_t)packages, .cores = (uint32_t)cores, .threads = (uint32_t)threads};
-- 
2.43.0


From 87fbbcb35dbb15c7c0dcdb103e75799531676997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:45 +0000
Subject: [PATCH 49/73] fix: ignore cache sharing that does not fit the
 processors on macOS

In virtual machines hw.cacheconfig can describe the host, e.g. say that
eight threads share a cache of a guest with six.  The number of caches
was then too small, and processors pointed outside the array of caches.
Fall back to the assumptions made when the kernel does not report it.
---
 src/mach/topology.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mach/topology.c b/src/mach/topology.c
index 43d543d..0937dc5 100644
--- a/src/mach/topology.c
+++ b/src/mach/topology.c
@@ -69,7 +69,9 @@ struct cpuinfo_mach_topology cpuinfo_mach_detect_topology(void) {
 			}
 			for (size_t i = 0; i < cache_configs; i++) {
 				cpuinfo_log_debug("mach hw.cacheconfig[%zu]: %" PRIu64, i, cacheconfig[i]);
-				topology.threads_per_cache[i] = cacheconfig[i];
+				if (cacheconfig[i] != 0 && topology.threads % cacheconfig[i] == 0) {
+					topology.threads_per_cache[i] = cacheconfig[i];
+				}
 			}
 		}
 	}
-- 
2.43.0


From f888f43247ed21dd8945a77c63a91a8f53d864b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:45 +0000
Subject: [PATCH 50/73] fix: reject core counts that packages cannot share
 evenly on FreeBSD

Cores are distributed evenly over packages.  With a remainder, the last
cores and processors pointed outside the arrays of packages and clusters.
---
 src/freebsd/topology.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/freebsd/topology.c b/src/freebsd/topology.c
index 675a81f..85267e5 100644
--- a/src/freebsd/topology.c
+++ b/src/freebsd/topology.c
@@ -82,6 +82,11 @@ struct cpuinfo_freebsd_topology cpuinfo_freebsd_detect_topology(void) {
 		cpuinfo_log_error("invalid numbers of package and core: %d %d", topology.packages, topology.cores);
 		goto fail;
 	}
+	if (topology.cores % topology.packages != 0) {
+		cpuinfo_log_error(
+			"%d cores cannot be divided between %d packages", topology.cores, topology.packages);
+		goto fail;
+	}
 	topology.threads_per_core = sysctl_int("kern.smp.threads_per_core");
 	if (topology.threads_per_core == 0) {
 		goto fail;
-- 
2.43.0


From cf2b1078f2322527e08fcf91a790c28076e195d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:15 +0000
Subject: [PATCH 51/73] fix: count processors rather than cores in Apple ARM
 clusters and caches

The kernel's counts of cores and threads differ when one of them could
not be read.  Clusters, microarchitectures and shared caches then covered
only as many processors as there are cores, and every processor was given
its own L1 caches although these belong to cores.
---
 src/arm/mach/init.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/arm/mach/init.c b/src/arm/mach/init.c
index e1c8893..e5f24b6 100644
--- a/src/arm/mach/init.c
+++ b/src/arm/mach/init.c
@@ -475,12 +475,12 @@ void cpuinfo_arm_mach_init(void) {
 			cluster_idx++;
 			uarchs[cluster_idx] = (struct cpuinfo_uarch_info){
 				.uarch = cores[i].uarch,
-				.processor_count = 1,
+				.processor_count = threads_per_core,
 				.core_count = 1,
 			};
 			clusters[cluster_idx] = (struct cpuinfo_cluster){
 				.processor_start = i * threads_per_core,
-				.processor_count = 1,
+				.processor_count = threads_per_core,
 				.core_start = i,
 				.core_count = 1,
 				.cluster_id = cluster_idx,
@@ -489,9 +489,9 @@ void cpuinfo_arm_mach_init(void) {
 				.uarch = cores[i].uarch,
 			};
 		} else {
-			uarchs[cluster_idx].processor_count++;
+			uarchs[cluster_idx].processor_count += threads_per_core;
 			uarchs[cluster_idx].core_count++;
-			clusters[cluster_idx].processor_count++;
+			clusters[cluster_idx].processor_count += threads_per_core;
 			clusters[cluster_idx].core_count++;
 		}
 		cores[i].cluster = &clusters[cluster_idx];
@@ -525,7 +525,7 @@ void cpuinfo_arm_mach_init(void) {
 	uint32_t threads_per_l1 = 0, l1_count = 0;
 	if (l1i_cache_size != 0 || l1d_cache_size != 0) {
 		/* Assume L1 caches are private to each core */
-		threads_per_l1 = 1;
+		threads_per_l1 = threads_per_core;
 		l1_count = mach_topology.threads / threads_per_l1;
 		cpuinfo_log_debug("detected %" PRIu32 " L1 caches", l1_count);
 	}
@@ -533,7 +533,7 @@ void cpuinfo_arm_mach_init(void) {
 	uint32_t threads_per_l2 = 0, l2_count = 0;
 	if (l2_cache_size != 0) {
 		/* Assume L2 cache is shared between all cores */
-		threads_per_l2 = mach_topology.cores;
+		threads_per_l2 = mach_topology.threads;
 		l2_count = 1;
 		cpuinfo_log_debug("detected %" PRIu32 " L2 caches", l2_count);
 	}
@@ -541,7 +541,7 @@ void cpuinfo_arm_mach_init(void) {
 	uint32_t threads_per_l3 = 0, l3_count = 0;
 	if (l3_cache_size != 0) {
 		/* Assume L3 cache is shared between all cores */
-		threads_per_l3 = mach_topology.cores;
+		threads_per_l3 = mach_topology.threads;
 		l3_count = 1;
 		cpuinfo_log_debug("detected %" PRIu32 " L3 caches", l3_count);
 	}
-- 
2.43.0


From 55833daf049a0b15582bd02e4f2bade18a071254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:54 +0000
Subject: [PATCH 52/73] fix: assign processors to the cluster of their package
 on x86 Windows

The cluster of a processor was never set, so on systems with several
packages every processor and core referred to the first cluster, and
the other clusters were empty.
---
 src/x86/windows/init.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/x86/windows/init.c b/src/x86/windows/init.c
index d233280..3de7a1f 100644
--- a/src/x86/windows/init.c
+++ b/src/x86/windows/init.c
@@ -228,6 +228,8 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 				const uint32_t group_processor_id = low_index_from_kaffinity(group_processors_mask);
 				const uint32_t processor_id = group_processors_start + group_processor_id;
 				processors[processor_id].package = (const struct cpuinfo_package*)NULL + package_id;
+				/* Every package has one cluster */
+				processors[processor_id].cluster = (const struct cpuinfo_cluster*)NULL + package_id;
 				processors[processor_id].windows_group_id = (uint16_t)group_id;
 				processors[processor_id].windows_processor_id = (uint16_t)group_processor_id;
 				processors[processor_id].apic_id = package_apic_id;
-- 
2.43.0


From b83b148c489ace9bda4c31797ba9990cfd2ba0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:54 +0000
Subject: [PATCH 53/73] fix: free processor information buffer on x86 Windows

The buffer filled by GetLogicalProcessorInformationEx was never freed.
---
 src/x86/windows/init.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/x86/windows/init.c b/src/x86/windows/init.c
index 3de7a1f..c45beeb 100644
--- a/src/x86/windows/init.c
+++ b/src/x86/windows/init.c
@@ -642,6 +642,9 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 	l1i = l1d = l2 = l3 = l4 = NULL;
 
 cleanup:
+	if (processor_infos != NULL) {
+		HeapFree(heap, 0, processor_infos);
+	}
 	if (processors != NULL) {
 		HeapFree(heap, 0, processors);
 	}
-- 
2.43.0


From 48f72e421dd6edf35804d3fa579b07225ea2051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:54 +0000
Subject: [PATCH 54/73] fix: report unknown vendor and uarch for unrecognized
 MIDR on ARM Windows

cpuinfo_arm_decode_vendor_uarch leaves its outputs alone when it does
not recognize the implementer or part, so uninitialized values were
reported.
---
 src/arm/windows/init.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arm/windows/init.c b/src/arm/windows/init.c
index 79e947a..2e46912 100644
--- a/src/arm/windows/init.c
+++ b/src/arm/windows/init.c
@@ -118,8 +118,9 @@ static wchar_t* wcsndup(const wchar_t* src, size_t n) {
 
 static struct core_info_by_chip_name get_core_info_from_midr(uint32_t midr, uint64_t frequency) {
 	struct core_info_by_chip_name info;
-	enum cpuinfo_vendor vendor;
-	enum cpuinfo_uarch uarch;
+	/* Not set for unknown implementers and parts */
+	enum cpuinfo_vendor vendor = cpuinfo_vendor_unknown;
+	enum cpuinfo_uarch uarch = cpuinfo_uarch_unknown;
 
 #if CPUINFO_ARCH_ARM
 	bool has_vfpv4 = false;
-- 
2.43.0


From f018d27258546fa18a1ae6fab95ecf2c0240288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:54 +0000
Subject: [PATCH 55/73] fix: free registry data on ARM Windows

The processor name read from the registry and the chip description
made from it were never freed.
---
 src/arm/windows/init.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/arm/windows/init.c b/src/arm/windows/init.c
index 2e46912..0e14df3 100644
--- a/src/arm/windows/init.c
+++ b/src/arm/windows/init.c
@@ -32,6 +32,13 @@ BOOL CALLBACK cpuinfo_arm_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 
 	cpuinfo_is_initialized = cpu_info_init_by_logical_sys_info(chip_info, chip_info->uarchs[0].vendor);
 
+	if (chip_info != &woa_chip_unknown) {
+		if (chip_info->chip_name_string != NULL) {
+			HeapFree(GetProcessHeap(), 0, chip_info->chip_name_string);
+		}
+		HeapFree(GetProcessHeap(), 0, chip_info);
+	}
+
 	return true;
 }
 
@@ -159,7 +166,7 @@ static struct woa_chip_info* get_system_info_from_registry(void) {
 	uint64_t midr_qword = (uint32_t)read_registry_qword(cpu0_subkey, chip_midr_value);
 	if (midr_qword == 0) {
 		cpuinfo_log_error("Registry read error for MIDR value");
-		return NULL;
+		goto cleanup;
 	}
 	// MIDR is only 32 bits, so we need to cast it to uint32_t
 	uint32_t midr_value = (uint32_t)midr_qword;
@@ -169,7 +176,7 @@ static struct woa_chip_info* get_system_info_from_registry(void) {
 	uint64_t frequency_mhz = read_registry_dword(cpu0_subkey, chip_mhz_value);
 	if (frequency_mhz == 0) {
 		cpuinfo_log_error("Registry read error for frequency value");
-		return NULL;
+		goto cleanup;
 	}
 	// Convert MHz to Hz
 	uint64_t frequency_hz = frequency_mhz * 1000000;
@@ -178,7 +185,7 @@ static struct woa_chip_info* get_system_info_from_registry(void) {
 	chip_info = HeapAlloc(GetProcessHeap(), HEAP_ZERO_MEMORY, sizeof(struct woa_chip_info));
 	if (chip_info == NULL) {
 		cpuinfo_log_error("Heap allocation error for chip_info");
-		return NULL;
+		goto cleanup;
 	}
 
 	// set chip_info fields
@@ -187,6 +194,8 @@ static struct woa_chip_info* get_system_info_from_registry(void) {
 
 	cpuinfo_log_debug("detected chip model name: %ls", chip_info->chip_name_string);
 
+cleanup:
+	HeapFree(GetProcessHeap(), 0, text_buffer);
 	return chip_info;
 }
 
-- 
2.43.0


From 26d482b9f7816d4a75d6f5b3f17d393b7485bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:54 +0000
Subject: [PATCH 56/73] fix: list unknown microarchitecture on ARM Windows

When the microarchitecture of the cores was unknown, the list of
microarchitectures was empty.
---
 src/arm/windows/init-by-logical-sys-info.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index ef6b144..75279ee 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -274,7 +274,7 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 	 * neighbors */
 	enum cpuinfo_uarch prev_uarch = cpuinfo_uarch_unknown;
 	for (uint32_t i = 0; i < nr_of_cores; i++) {
-		if (prev_uarch != cores[i].uarch) {
+		if (i == 0 || prev_uarch != cores[i].uarch) {
 			nr_of_uarchs++;
 			prev_uarch = cores[i].uarch;
 		}
@@ -289,7 +289,7 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 	}
 	prev_uarch = cpuinfo_uarch_unknown;
 	for (uint32_t i = 0, uarch_index = 0; i < nr_of_cores; i++) {
-		if (prev_uarch != cores[i].uarch) {
+		if (i == 0 || prev_uarch != cores[i].uarch) {
 			if (i != 0) {
 				uarch_index++;
 			}
@@ -300,7 +300,7 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 			uarchs[uarch_index].uarch = cores[i].uarch;
 			uarchs[uarch_index].core_count = 1;
 			uarchs[uarch_index].processor_count = cores[i].processor_count;
-		} else if (prev_uarch != cpuinfo_uarch_unknown) {
+		} else {
 			uarchs[uarch_index].core_count++;
 			uarchs[uarch_index].processor_count += cores[i].processor_count;
 		}
-- 
2.43.0


From d6dec69fd46afcc04241f49eaa60a457858ad55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:54 +0000
Subject: [PATCH 57/73] fix: use group mask of caches without group count on
 ARM Windows

Windows versions that predate CACHE_RELATIONSHIP.GroupCount leave it
zero and fill in only GroupMask. The caches were then not connected to
any processor.
---
 src/arm/windows/init-by-logical-sys-info.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 75279ee..394ec37 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -701,9 +701,9 @@ static bool parse_relation_cache_info(
 		current_cache->flags = CPUINFO_CACHE_UNIFIED;
 	}
 
-	for (uint32_t i = 0; i < info->Cache.GroupCount; i++) {
-		/* Zero GroupCount is valid, GroupMask still can store bits set.
-		 */
+	/* Zero GroupCount is valid, GroupMask still can store bits set. */
+	const uint32_t group_count = max(info->Cache.GroupCount, 1);
+	for (uint32_t i = 0; i < group_count; i++) {
 		const uint32_t group_id = info->Cache.GroupMasks[i].Group;
 		/* Bitmask representing processors in this group belonging to
 		 * this package
-- 
2.43.0


From b8fb8d866db9df599175ad5f804db8b5f87c9b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:19 +0000
Subject: [PATCH 58/73] fix: count only active processors on Windows

GetMaximumProcessorCount includes processors that may be added while
the system runs. They were reported as processors of the first core of
the first package on x86, and crashed the initialization on ARM.
---
 src/arm/windows/init-by-logical-sys-info.c | 2 +-
 src/x86/windows/init.c                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 394ec37..575897a 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -376,7 +376,7 @@ static uint32_t count_logical_processors(const uint32_t max_group_count, uint32_
 	uint32_t nr_of_processors = 0;
 
 	for (uint32_t i = 0; i < max_group_count; i++) {
-		uint32_t nr_of_processors_per_group = GetMaximumProcessorCount((WORD)i);
+		uint32_t nr_of_processors_per_group = GetActiveProcessorCount((WORD)i);
 		cpuinfo_log_debug(
 			"detected %" PRIu32 " processor(s) in group %" PRIu32 "", nr_of_processors_per_group, i);
 		global_proc_index_per_group[i] = nr_of_processors;
diff --git a/src/x86/windows/init.c b/src/x86/windows/init.c
index c45beeb..49120cb 100644
--- a/src/x86/windows/init.c
+++ b/src/x86/windows/init.c
@@ -137,7 +137,7 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 	uint32_t processors_count = 0;
 	uint32_t* processors_per_group = (uint32_t*)CPUINFO_ALLOCA(max_group_count * sizeof(uint32_t));
 	for (uint32_t i = 0; i < max_group_count; i++) {
-		processors_per_group[i] = GetMaximumProcessorCount((WORD)i);
+		processors_per_group[i] = GetActiveProcessorCount((WORD)i);
 		cpuinfo_log_debug("detected %" PRIu32 " processors in group %" PRIu32, processors_per_group[i], i);
 		processors_count += processors_per_group[i];
 	}
-- 
2.43.0


From 85bfb3cdb55d8bb3ea3f6f95b52b3f408316a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:52 +0000
Subject: [PATCH 59/73] fix: keep thread bits of leaf 0xB within the APIC ID

A thread level that follows other levels gave a field that reached
beyond the 32 bits of the APIC ID, and the package number was shifted
by more than 31 bits when the ID was reconstructed.
---
 src/x86/topology.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index 132d961..edb4fee 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -122,7 +122,8 @@ void cpuinfo_x86_detect_topology(
 						level_shift,
 						total_shift);
 					topology->thread_bits_offset = total_shift;
-					topology->thread_bits_length = level_shift;
+					topology->thread_bits_length =
+						level_shift > total_shift ? level_shift - total_shift : 0;
 					break;
 				case topology_type_core:
 					cpuinfo_log_debug(
-- 
2.43.0


From 149aa6729aa5d0f6b18968e35ad1bbd394b21dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:52 +0000
Subject: [PATCH 60/73] fix: ignore caches without a place in the report on ARM
 Windows

Caches of level 4 and above and L1 caches that hold neither only
instructions nor only data were not counted, but then written through
a null pointer. A cache without line size or associativity divided by
zero.
---
 src/arm/windows/init-by-logical-sys-info.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 575897a..72028fe 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -689,6 +689,10 @@ static bool parse_relation_cache_info(
 			l3_counter++;
 			break;
 	}
+	if (current_cache == NULL) {
+		/* Not counted either: unified L1, trace and level 4+ caches */
+		return true;
+	}
 	current_cache->size = info->Cache.CacheSize;
 	current_cache->line_size = info->Cache.LineSize;
 	current_cache->associativity = info->Cache.Associativity;
@@ -696,7 +700,9 @@ static bool parse_relation_cache_info(
 	 * so we set partitions to 1 and calculate the expected sets.
 	 */
 	current_cache->partitions = 1;
-	current_cache->sets = current_cache->size / current_cache->line_size / current_cache->associativity;
+	if (current_cache->line_size != 0 && current_cache->associativity != 0) {
+		current_cache->sets = current_cache->size / current_cache->line_size / current_cache->associativity;
+	}
 	if (info->Cache.Type == CacheUnified) {
 		current_cache->flags = CPUINFO_CACHE_UNIFIED;
 	}
-- 
2.43.0


From 247db1eb9b585dfe1e3e5b4d8de4ed7a09529ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:59 +0000
Subject: [PATCH 61/73] fix: number cores and clusters within their package on
 ARM Windows

The IDs of clusters were not set, and the IDs of cores were their
indices among the cores of all packages.
---
 src/arm/windows/init-by-logical-sys-info.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 72028fe..0f8a65b 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -908,6 +908,12 @@ static bool connect_packages_cores_clusters_by_processors(
 		cluster->uarch = cores[cluster->core_start].uarch;
 		cluster->frequency = cores[cluster->core_start].frequency;
 	}
+	/* Number cores and clusters within their package, now that it is known
+	 * where they start */
+	for (uint32_t i = 0; i < nr_of_cores; i++) {
+		cores[i].core_id = i - cores[i].package->core_start;
+		clusters[i].cluster_id = i - clusters[i].package->cluster_start;
+	}
 	return true;
 }
 
-- 
2.43.0


From 6a54c966f75026098a1ad97b754700f88ff48c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:11 +0000
Subject: [PATCH 62/73] fix: report failed allocation of uarchs on ARM Windows

Initialization was reported as successful, with no processors, when
the list of microarchitectures could not be allocated.
---
 src/arm/windows/init-by-logical-sys-info.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index 0f8a65b..af5a1ee 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -285,6 +285,7 @@ bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, co
 			"failed to allocate %zu bytes for descriptions of %" PRIu32 " uarchs",
 			nr_of_uarchs * sizeof(struct cpuinfo_uarch_info),
 			nr_of_uarchs);
+		result = false;
 		goto clean_up;
 	}
 	prev_uarch = cpuinfo_uarch_unknown;
-- 
2.43.0


From 8f862cef10f869a0e31ede500255bf24545e790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:32 +0000
Subject: [PATCH 63/73] fix: read hexadecimal subleaf numbers in
 parse-x86-cpuid-dump.py

cpuid-dump prints the subleaf in hexadecimal. The parser accepted decimal
digits only, and recorded subleaf 0A and above as subleaf 0.
---
 scripts/parse-x86-cpuid-dump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/parse-x86-cpuid-dump.py b/scripts/parse-x86-cpuid-dump.py
index f3f112a..42beec1 100755
--- a/scripts/parse-x86-cpuid-dump.py
+++ b/scripts/parse-x86-cpuid-dump.py
@@ -22,7 +22,7 @@ def main(args):
             input_eax, eax, ebx, ecx, edx = tuple(int(match.group(i), 16) for i in [1, 2, 3, 4, 5])
             line = line[match.end(0):].strip()
             input_ecx = None
-            match = re.match(r"\[SL (\d{2})\]", line)
+            match = re.match(r"\[SL ([\dA-F]{2,8})\]", line)
             if match is not None:
                 input_ecx = int(match.group(1), 16)
             cpuid_dump.append((input_eax, input_ecx, eax, ebx, ecx, edx))
-- 
2.43.0


From 9a67fa878db80449a91ea178ae126a500d7a11fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:33 +0000
Subject: [PATCH 64/73] fix: escape the bytes of recorded files in
 arm-linux-filesystem-dump.py

Under Python 3 the script failed on the first file, because it took the
numbers in a bytes object for characters. A byte outside of ASCII was
written as "xNN" without a backslash, and a zero byte before a digit
became another octal escape.
---
 scripts/arm-linux-filesystem-dump.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/arm-linux-filesystem-dump.py b/scripts/arm-linux-filesystem-dump.py
index feecf4b..ffba7d7 100755
--- a/scripts/arm-linux-filesystem-dump.py
+++ b/scripts/arm-linux-filesystem-dump.py
@@ -41,7 +41,8 @@ CACHE_FILES = [
 
 def c_escape(string):
     c_string = ""
-    for c in string:
+    for byte in bytearray(string):
+        c = chr(byte)
         if c == "\\":
             c_string += "\\\\"
         elif c == "\"":
@@ -52,12 +53,11 @@ def c_escape(string):
             c_string += "\\n"
         elif c == "\r":
             c_string += "\\r"
-        elif ord(c) == 0:
-            c_string += "\\0"
-        elif 32 <= ord(c) < 127:
+        elif 32 <= byte < 127:
             c_string += c
         else:
-            c_string += "x%02X" % ord(c)
+            # Exactly three octal digits: never merges with the digits that follow
+            c_string += "\\%03o" % byte
     return c_string
 
 
-- 
2.43.0


From accdb6fa5675d0ead46526a7656b71e7592d7db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:33 +0000
Subject: [PATCH 65/73] fix: escape the bytes of recorded files in
 android-device-dump.py

Under Python 3 the script failed on the first answer of adb, which is a
bytes object and not a string. A byte outside of ASCII was written as "xNN"
without a backslash, and a zero byte before a digit became another octal
escape.
---
 scripts/android-device-dump.py | 38 +++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/scripts/android-device-dump.py b/scripts/android-device-dump.py
index 098903c..1e00a18 100755
--- a/scripts/android-device-dump.py
+++ b/scripts/android-device-dump.py
@@ -221,7 +221,8 @@ CACHE_FILES = [
 
 def c_escape(string):
     c_string = ""
-    for c in string:
+    for byte in bytearray(string):
+        c = chr(byte)
         if c == "\\":
             c_string += "\\\\"
         elif c == "\"":
@@ -232,12 +233,11 @@ def c_escape(string):
             c_string += "\\n"
         elif c == "\r":
             c_string += "\\r"
-        elif ord(c) == 0:
-            c_string += "\\0"
-        elif 32 <= ord(c) < 127:
+        elif 32 <= byte < 127:
             c_string += c
         else:
-            c_string += "x%02X" % ord(c)
+            # Exactly three octal digits: never merges with the digits that follow
+            c_string += "\\%03o" % byte
     return c_string
 
 def adb_shell(commands):
@@ -261,7 +261,7 @@ def adb_pull(device_path, local_path):
     if any(device_path.startswith(prefix) for prefix in SHELL_PREFIX):
         content = adb_shell(["cat", device_path])
         if content is not None:
-            if not content.rstrip().endswith("No such file or directory"):
+            if not content.rstrip().endswith(b"No such file or directory"):
                 with open(local_path, "wb") as local_file:
                     local_file.write(content)
                     return True
@@ -277,15 +277,15 @@ def adb_getprop():
     properties = adb_shell(["getprop"])
     properties_list = list()
     while properties:
-        assert properties.startswith("[")
+        assert properties.startswith(b"[")
         properties = properties[1:]
-        key, properties = properties.split("]", 1)
+        key, properties = properties.split(b"]", 1)
         properties = properties.strip()
-        assert properties.startswith(":")
+        assert properties.startswith(b":")
         properties = properties[1:].strip()
-        assert properties.startswith("[")
+        assert properties.startswith(b"[")
         properties = properties[1:]
-        value, properties = properties.split("]", 1)
+        value, properties = properties.split(b"]", 1)
         properties = properties.strip()
         properties_list.append((key, value))
     return properties_list
@@ -325,10 +325,10 @@ def main(args):
     options = parser.parse_args(args)
 
     dmesg_content = adb_shell(["dmesg"])
-    if dmesg_content is not None and dmesg_content.strip() == "klogctl: Operation not permitted":
+    if dmesg_content is not None and dmesg_content.strip() == b"klogctl: Operation not permitted":
         dmesg_content = None
     if dmesg_content is not None:
-        with open(os.path.join("test", "dmesg", options.prefix + ".log"), "w") as dmesg_dump:
+        with open(os.path.join("test", "dmesg", options.prefix + ".log"), "wb") as dmesg_dump:
             dmesg_dump.write(dmesg_content)
 
     build_prop_content = None
@@ -340,11 +340,11 @@ def main(args):
         android_props = adb_getprop()
         abi = None
         for key, value in android_props:
-            if key == "ro.product.cpu.abi":
+            if key == b"ro.product.cpu.abi":
                 abi = value
         for path in SYSTEM_FILES:
             arm64_prefix = None
-            if path == "/proc/cpuinfo" and abi == "arm64-v8a":
+            if path == "/proc/cpuinfo" and abi == b"arm64-v8a":
                 arm64_prefix = "#if CPUINFO_ARCH_ARM64\n"
             content = dump_device_file(file_header, path, prefix_line=arm64_prefix)
             if content is not None:
@@ -360,7 +360,7 @@ def main(args):
                 adb_push(cpuinfo_dump_binary, "/data/local/tmp/cpuinfo-dump")
                 proc_cpuinfo_content32 = adb_shell(["/data/local/tmp/cpuinfo-dump"])
                 if proc_cpuinfo_content32:
-                    proc_cpuinfo_content32 = "\n".join(proc_cpuinfo_content32.splitlines())
+                    proc_cpuinfo_content32 = b"\n".join(proc_cpuinfo_content32.splitlines())
                     file_header.write("#elif CPUINFO_ARCH_ARM\n")
                     add_mock_file(file_header, "/proc/cpuinfo", proc_cpuinfo_content32)
                 file_header.write("#endif\n")
@@ -387,13 +387,13 @@ def main(args):
         file_header.write("#endif /* __ANDROID__ */\n")
 
     if proc_cpuinfo_content is not None:
-        with open(os.path.join("test", "cpuinfo", options.prefix + ".log"), "w") as proc_cpuinfo_dump:
+        with open(os.path.join("test", "cpuinfo", options.prefix + ".log"), "wb") as proc_cpuinfo_dump:
             proc_cpuinfo_dump.write(proc_cpuinfo_content)
     if proc_cpuinfo_content32 is not None:
-        with open(os.path.join("test", "cpuinfo", options.prefix + ".armeabi.log"), "w") as proc_cpuinfo_dump32:
+        with open(os.path.join("test", "cpuinfo", options.prefix + ".armeabi.log"), "wb") as proc_cpuinfo_dump32:
             proc_cpuinfo_dump32.write(proc_cpuinfo_content32)
     if build_prop_content is not None:
-        with open(os.path.join("test", "build.prop", options.prefix + ".log"), "w") as build_prop_dump:
+        with open(os.path.join("test", "build.prop", options.prefix + ".log"), "wb") as build_prop_dump:
             build_prop_dump.write(build_prop_content)
 
 if __name__ == "__main__":
-- 
2.43.0


From 8f5448f4e9ee42edff4928d231bc06795837139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:42 +0000
Subject: [PATCH 66/73] fix: record all topology files that the library reads

The library takes clusters, cores and packages from cluster_cpus_list,
core_cpus_list and package_cpus_list, but the recording scripts left these
files out. Replaying a recording reported other clusters and caches than the
device.
---
 scripts/android-device-dump.py       | 3 +++
 scripts/arm-linux-filesystem-dump.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/scripts/android-device-dump.py b/scripts/android-device-dump.py
index 1e00a18..067e2e0 100755
--- a/scripts/android-device-dump.py
+++ b/scripts/android-device-dump.py
@@ -196,11 +196,14 @@ CPU_FILES = [
     "regs/identification/midr_el1",
     "regs/identification/revidr_el1",
     "sched_load_boost",
+    "topology/cluster_cpus_list",
+    "topology/core_cpus_list",
     "topology/core_id",
     "topology/core_siblings",
     "topology/core_siblings_list",
     "topology/cpu_capacity",
     "topology/max_cpu_capacity",
+    "topology/package_cpus_list",
     "topology/physical_package_id",
     "topology/thread_siblings",
     "topology/thread_siblings_list",
diff --git a/scripts/arm-linux-filesystem-dump.py b/scripts/arm-linux-filesystem-dump.py
index ffba7d7..9cec799 100755
--- a/scripts/arm-linux-filesystem-dump.py
+++ b/scripts/arm-linux-filesystem-dump.py
@@ -22,8 +22,11 @@ CPU_FILES = [
     "cpufreq/cpuinfo_max_freq",
     "cpufreq/cpuinfo_min_freq",
     "topology/physical_package_id",
+    "topology/cluster_cpus_list",
+    "topology/core_cpus_list",
     "topology/core_siblings_list",
     "topology/core_id",
+    "topology/package_cpus_list",
     "topology/thread_siblings_list",
 ]
 
-- 
2.43.0


From 45512ade3c9ebaa52a09dbc8b565973a0dba3da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:42 +0000
Subject: [PATCH 67/73] fix: print all subleaves of leaf 0x8000001D in
 cpuid-dump

AMD processors describe one cache in each subleaf of this leaf. Only the
first was printed, and a replayed dump lost all other caches.
---
 tools/cpuid-dump.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/cpuid-dump.c b/tools/cpuid-dump.c
index 1a65510..49d3cf3 100644
--- a/tools/cpuid-dump.c
+++ b/tools/cpuid-dump.c
@@ -149,6 +149,15 @@ int main(int argc, char** argv) {
 			case UINT32_C(0x80000004):
 				print_cpuid_brand_string(cpuid(eax), eax);
 				break;
+			case UINT32_C(0x8000001D):
+				for (uint32_t ecx = 0;; ecx++) {
+					const struct cpuid_regs regs = cpuidex(eax, ecx);
+					if ((regs.eax & UINT32_C(0x1F)) == 0) {
+						break;
+					}
+					print_cpuidex(regs, eax, ecx);
+				}
+				break;
 			default:
 				print_cpuid(cpuidex(eax, 0), eax);
 		}
-- 
2.43.0


From a763eb20d58875d7b1692a65fc7f14547c02c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:34 +0000
Subject: [PATCH 68/73] fix: limit the debug message about the brand string to
 its 48 bytes

The brand string that CPUID returns need not end with a zero byte. With
debug logging the message printed it without a length limit and read past
the end of the structure on 32-bit x86.

"%48s" is a minimum width; "%.48s" is the maximum that was meant.
---
 src/x86/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x86/init.c b/src/x86/init.c
index adc5d36..63b49a9 100644
--- a/src/x86/init.c
+++ b/src/x86/init.c
@@ -73,6 +73,6 @@ void cpuinfo_x86_init_processor(struct cpuinfo_x86_processor* processor) {
 			brand_string[i] = cpuid(UINT32_C(0x80000002) + i);
 		}
 		memcpy(processor->brand_string, brand_string, sizeof(processor->brand_string));
-		cpuinfo_log_debug("raw CPUID brand string: \"%48s\"", processor->brand_string);
+		cpuinfo_log_debug("raw CPUID brand string: \"%.48s\"", processor->brand_string);
 	}
 }
-- 
2.43.0


From 2e563fd2ecc545c0aedf89d5c4d8cbbdd9b2c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:51 +0000
Subject: [PATCH 69/73] fix: record Android properties whose values contain
 brackets

android-device-dump.py took the first closing bracket for the end of a
value, and stopped with an assertion when a value contained one itself.
A property ends with a bracket at the end of a line.
---
 scripts/android-device-dump.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/scripts/android-device-dump.py b/scripts/android-device-dump.py
index 067e2e0..ce800b6 100755
--- a/scripts/android-device-dump.py
+++ b/scripts/android-device-dump.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 import os
+import re
 import sys
 import string
 import argparse
@@ -278,20 +279,10 @@ def adb_pull(device_path, local_path):
 
 def adb_getprop():
     properties = adb_shell(["getprop"])
-    properties_list = list()
-    while properties:
-        assert properties.startswith(b"[")
-        properties = properties[1:]
-        key, properties = properties.split(b"]", 1)
-        properties = properties.strip()
-        assert properties.startswith(b":")
-        properties = properties[1:].strip()
-        assert properties.startswith(b"[")
-        properties = properties[1:]
-        value, properties = properties.split(b"]", 1)
-        properties = properties.strip()
-        properties_list.append((key, value))
-    return properties_list
+    if properties is None:
+        return list()
+    # Values can contain brackets, and span several lines
+    return re.findall(br"^\[([^\]]*)\]: \[(.*?)\]\r?$", properties, re.DOTALL | re.MULTILINE)
 
 def add_mock_file(stream, path, content):
     assert content is not None
-- 
2.43.0


From 67b7323a55f4eb2a52da8c239d517b895fce4346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:57 +0000
Subject: [PATCH 70/73] fix: end the list of caches when CPUID does not end it

CPUID leaves 4 and 0x8000001D describe one cache per subleaf until a
subleaf of type 0. A hypervisor which answers every subleaf alike made
initialization loop forever. Stop after 64 subleaves.
---
 src/x86/cache/init.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/x86/cache/init.c b/src/x86/cache/init.c
index 4ecb05c..132e006 100644
--- a/src/x86/cache/init.c
+++ b/src/x86/cache/init.c
@@ -6,6 +6,9 @@
 #include <x86/api.h>
 #include <x86/cpuid.h>
 
+/* Hypervisors may answer all subleaves of a cache leaf alike: do not rely on the CPU to end the list */
+#define CPUINFO_X86_MAX_CACHE_SUBLEAVES 64
+
 union cpuinfo_x86_cache_descriptors {
 	struct cpuid_regs regs;
 	uint8_t as_bytes[16];
@@ -103,7 +106,8 @@ void cpuinfo_x86_detect_cache(
 			uint32_t package_cores_max = 0;
 			do {
 				leaf4 = cpuidex(4, input_ecx++);
-			} while (cpuinfo_x86_decode_deterministic_cache_parameters(leaf4, cache, &package_cores_max));
+			} while (cpuinfo_x86_decode_deterministic_cache_parameters(leaf4, cache, &package_cores_max) &&
+				 input_ecx < CPUINFO_X86_MAX_CACHE_SUBLEAVES);
 			if (package_cores_max != 0) {
 				*log2_package_cores_max = bit_length(package_cores_max);
 			}
@@ -114,6 +118,7 @@ void cpuinfo_x86_detect_cache(
 		uint32_t input_ecx = 0;
 		do {
 			leaf0x8000001D = cpuidex(UINT32_C(0x8000001D), input_ecx++);
-		} while (cpuinfo_x86_decode_cache_properties(leaf0x8000001D, cache));
+		} while (cpuinfo_x86_decode_cache_properties(leaf0x8000001D, cache) &&
+			 input_ecx < CPUINFO_X86_MAX_CACHE_SUBLEAVES);
 	}
 }
-- 
2.43.0


From 5ba67020d5f8786706e322bc852684af5c793d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:57 +0000
Subject: [PATCH 71/73] fix: end the list of topology levels when CPUID does
 not end it

CPUID leaf 0xB lists the levels of the processor topology until a level
of type 0. A hypervisor which answers every subleaf alike made
initialization loop forever. The level number is an 8-bit field, so stop
after 256 levels.
---
 src/x86/topology.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x86/topology.c b/src/x86/topology.c
index edb4fee..4906617 100644
--- a/src/x86/topology.c
+++ b/src/x86/topology.c
@@ -152,7 +152,8 @@ void cpuinfo_x86_detect_topology(
 			/* Level shifts count from bit 0 of x2APIC ID, i.e. they include all lower levels */
 			total_shift = level_shift;
 			level += 1;
-		} while (type != 0);
+			/* Level number is an 8-bit field: the list ends there even if the CPU does not end it */
+		} while (type != 0 && level < 256);
 		cpuinfo_log_debug(
 			"x2APIC ID 0x%08" PRIx32
 			", "
-- 
2.43.0


From c44516f84dbfc12227607889e39c469459da8ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:41 +0000
Subject: [PATCH 72/73] fix: ignore processors that Windows did not count on
 x86

A processor that was added between the questions to Windows, or one of
a group that was not counted, was written behind the array of
processors. Skip such processors and refuse to go on when there are no
processors, packages or cores at all.
---
 src/x86/windows/init.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/x86/windows/init.c b/src/x86/windows/init.c
index 49120cb..fae2398 100644
--- a/src/x86/windows/init.c
+++ b/src/x86/windows/init.c
@@ -217,6 +217,10 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 		 */
 		for (uint32_t i = 0; i < package_info->Processor.GroupCount; i++) {
 			const uint32_t group_id = package_info->Processor.GroupMask[i].Group;
+			if (group_id >= max_group_count) {
+				cpuinfo_log_warning("unexpected processor group %" PRIu32, group_id);
+				continue;
+			}
 			/* Global index of the first logical processor belonging
 			 * to this group */
 			const uint32_t group_processors_start = processors_before_group[group_id];
@@ -226,6 +230,13 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 			KAFFINITY group_processors_mask = package_info->Processor.GroupMask[i].Mask;
 			while (group_processors_mask != 0) {
 				const uint32_t group_processor_id = low_index_from_kaffinity(group_processors_mask);
+				if (group_processor_id >= processors_per_group[group_id]) {
+					cpuinfo_log_warning(
+						"unexpected processor %" PRIu32 " in group %" PRIu32,
+						group_processor_id,
+						group_id);
+					break;
+				}
 				const uint32_t processor_id = group_processors_start + group_processor_id;
 				processors[processor_id].package = (const struct cpuinfo_package*)NULL + package_id;
 				/* Every package has one cluster */
@@ -273,6 +284,10 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 		 * ID */
 		for (uint32_t i = 0; i < core_info->Processor.GroupCount; i++) {
 			const uint32_t group_id = core_info->Processor.GroupMask[i].Group;
+			if (group_id >= max_group_count) {
+				cpuinfo_log_warning("unexpected processor group %" PRIu32, group_id);
+				continue;
+			}
 			/* Global index of the first logical processor belonging
 			 * to this group */
 			const uint32_t group_processors_start = processors_before_group[group_id];
@@ -282,6 +297,13 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 			KAFFINITY group_processors_mask = core_info->Processor.GroupMask[i].Mask;
 			while (group_processors_mask != 0) {
 				const uint32_t group_processor_id = low_index_from_kaffinity(group_processors_mask);
+				if (group_processor_id >= processors_per_group[group_id]) {
+					cpuinfo_log_warning(
+						"unexpected processor %" PRIu32 " in group %" PRIu32,
+						group_processor_id,
+						group_id);
+					break;
+				}
 				const uint32_t processor_id = group_processors_start + group_processor_id;
 
 				/* Check if this is the first core on a new
@@ -315,6 +337,11 @@ BOOL CALLBACK cpuinfo_x86_windows_init(PINIT_ONCE init_once, PVOID parameter, PV
 		}
 	}
 
+	if (processors_count == 0 || packages_count == 0 || cores_count == 0) {
+		cpuinfo_log_error("no processors, packages or cores are listed");
+		goto cleanup;
+	}
+
 	cores = HeapAlloc(heap, HEAP_ZERO_MEMORY, cores_count * sizeof(struct cpuinfo_core));
 	if (cores == NULL) {
 		cpuinfo_log_error(
-- 
2.43.0


From 196be7de3fe748e4dff50eb4e8a9a39ec31f7fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:49:41 +0000
Subject: [PATCH 73/73] fix: check the processors, cores and caches that
 Windows lists on ARM

A cache record that names a processor that was not counted wrote behind
the array of processors, as did a record of an unknown processor group.
A processor or core that the other records leave out led to a null
pointer. A cache that lists no processor was reported with a start
behind the end of the list.
---
 src/arm/windows/init-by-logical-sys-info.c | 48 +++++++++++++++++++---
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/arm/windows/init-by-logical-sys-info.c b/src/arm/windows/init-by-logical-sys-info.c
index af5a1ee..cd6699e 100644
--- a/src/arm/windows/init-by-logical-sys-info.c
+++ b/src/arm/windows/init-by-logical-sys-info.c
@@ -71,6 +71,7 @@ static bool parse_relation_processor_info(
 
 static bool parse_relation_cache_info(
 	struct cpuinfo_processor* processors,
+	uint32_t nr_of_processors,
 	struct cpuinfo_cache* caches,
 	uint32_t* numbers_of_caches,
 	const uint32_t* global_proc_index_per_group,
@@ -110,6 +111,11 @@ static bool connect_packages_cores_clusters_by_processors(
 
 static inline uint32_t low_index_from_kaffinity(KAFFINITY kaffinity);
 
+static inline uint32_t get_global_processor_index(
+	const uint32_t* global_proc_index_per_group,
+	const uint32_t group_id,
+	const uint32_t processor_id_in_group);
+
 bool cpu_info_init_by_logical_sys_info(const struct woa_chip_info* chip_info, const enum cpuinfo_vendor vendor) {
 	struct cpuinfo_processor* processors = NULL;
 	struct cpuinfo_package* packages = NULL;
@@ -528,7 +534,12 @@ static uint32_t read_all_logical_processor_info_of_relation(
 				break;
 			case RelationCache:
 				result = parse_relation_cache_info(
-					processors, caches, numbers_of_caches, global_proc_index_per_group, info);
+					processors,
+					number_of_processors,
+					caches,
+					numbers_of_caches,
+					global_proc_index_per_group,
+					info);
 				break;
 			default:
 				cpuinfo_log_error(
@@ -565,8 +576,8 @@ static bool parse_relation_processor_info(
 		KAFFINITY group_processors_mask = info->Processor.GroupMask[i].Mask;
 		while (group_processors_mask != 0) {
 			const uint32_t processor_id_in_group = low_index_from_kaffinity(group_processors_mask);
-			const uint32_t processor_global_index =
-				global_proc_index_per_group[group_id] + processor_id_in_group;
+			const uint32_t processor_global_index = get_global_processor_index(
+				global_proc_index_per_group, group_id, processor_id_in_group);
 
 			if (processor_global_index >= nr_of_processors) {
 				cpuinfo_log_error("unexpected processor index %" PRIu32 "", processor_global_index);
@@ -603,6 +614,7 @@ static bool parse_relation_processor_info(
 
 static bool parse_relation_cache_info(
 	struct cpuinfo_processor* processors,
+	uint32_t nr_of_processors,
 	struct cpuinfo_cache* caches,
 	uint32_t* numbers_of_caches,
 	const uint32_t* global_proc_index_per_group,
@@ -718,8 +730,13 @@ static bool parse_relation_cache_info(
 		KAFFINITY group_processors_mask = info->Cache.GroupMasks[i].Mask;
 		while (group_processors_mask != 0) {
 			const uint32_t processor_id_in_group = low_index_from_kaffinity(group_processors_mask);
-			const uint32_t processor_global_index =
-				global_proc_index_per_group[group_id] + processor_id_in_group;
+			const uint32_t processor_global_index = get_global_processor_index(
+				global_proc_index_per_group, group_id, processor_id_in_group);
+
+			if (processor_global_index >= nr_of_processors) {
+				cpuinfo_log_error("unexpected processor index %" PRIu32 "", processor_global_index);
+				return false;
+			}
 
 			store_cache_info_per_processor(processors, processor_global_index, info, current_cache);
 
@@ -728,6 +745,9 @@ static bool parse_relation_cache_info(
 			group_processors_mask &= (group_processors_mask - 1);
 		}
 	}
+	if (current_cache->processor_count == 0) {
+		current_cache->processor_start = 0;
+	}
 	return true;
 }
 
@@ -827,6 +847,10 @@ static bool connect_packages_cores_clusters_by_processors(
 		struct cpuinfo_processor* processor = processors + processor_id;
 
 		struct cpuinfo_core* core = (struct cpuinfo_core*)processor->core;
+		if (core == NULL) {
+			cpuinfo_log_error("processor %" PRIu32 " belongs to no core", processor_id);
+			return false;
+		}
 
 		/* We stored the offset of pointers when we haven't allocated
 		 * memory for packages and clusters, so now add offsets to base
@@ -886,6 +910,10 @@ static bool connect_packages_cores_clusters_by_processors(
 	for (uint32_t i = nr_of_cores; i != 0; i--) {
 		const uint32_t global_core_id = i - 1;
 		struct cpuinfo_core* core = cores + global_core_id;
+		if (core->processor_count == 0) {
+			cpuinfo_log_error("core %" PRIu32 " has no processors", global_core_id);
+			return false;
+		}
 		const struct cpuinfo_processor* processor = processors + core->processor_start;
 		struct cpuinfo_package* package = (struct cpuinfo_package*)processor->package;
 		struct cpuinfo_cluster* cluster = (struct cpuinfo_cluster*)processor->cluster;
@@ -923,3 +951,13 @@ static inline uint32_t low_index_from_kaffinity(KAFFINITY kaffinity) {
 	_BitScanForward64(&index, (unsigned __int64)kaffinity);
 	return (uint32_t)index;
 }
+
+static inline uint32_t get_global_processor_index(
+	const uint32_t* global_proc_index_per_group,
+	const uint32_t group_id,
+	const uint32_t processor_id_in_group) {
+	if (group_id >= (uint32_t)GetMaximumProcessorGroupCount()) {
+		return UINT32_MAX;
+	}
+	return global_proc_index_per_group[group_id] + processor_id_in_group;
+}
-- 
2.43.0

