/*
 * Scenario runner: executes the real library against a virtual platform.
 *
 * The library's sources are linked in unmodified; open/read/close, the
 * allocator, getauxval, prctl, syscall and the CPUID/XGETBV instructions are
 * redirected to the scenario. Every scenario runs in a fresh child process,
 * which records what the public API reports and what the library did.
 *
 * stdin: a stream of scenarios (see vlib/scenario.py). stdout: one JSON line per
 * scenario.
 */
#include <cpuinfo.h>

#include <pthread.h>
#include <sched.h>

#include "events.h"

#define SHARED_SIZE (96u << 20)

static char* out_base;
static size_t out_len;

static void out_raw(const char* s, size_t n) {
	if (out_len + n + 1 < SHARED_SIZE) {
		memcpy(out_base + out_len, s, n);
		out_len += n;
	}
}
static void out_str(const char* s) {
	out_raw(s, strlen(s));
}
static void out_u(uint64_t v) {
	char b[24];
	int n = 0;
	do {
		b[n++] = (char)('0' + v % 10);
		v /= 10;
	} while (v);
	char r[24];
	for (int i = 0; i < n; i++)
		r[i] = b[n - 1 - i];
	out_raw(r, (size_t)n);
}
static void out_i(int64_t v) {
	if (v < 0) {
		out_raw("-", 1);
		out_u((uint64_t)0 - (uint64_t)v);
	} else
		out_u((uint64_t)v);
}
static void out_bytes_json(const unsigned char* p, size_t n) {
	static const char hex[] = "0123456789abcdef";
	out_raw("\"", 1);
	for (size_t i = 0; i < n; i++) {
		unsigned char c = p[i];
		if (c == '"' || c == '\\') {
			char b[2] = {'\\', (char)c};
			out_raw(b, 2);
		} else if (c >= 32 && c < 127) {
			out_raw((const char*)&p[i], 1);
		} else {
			char b[6] = {'\\', 'u', '0', '0', hex[c >> 4], hex[c & 15]};
			out_raw(b, 6);
		}
	}
	out_raw("\"", 1);
}

/* ---- scenario ------------------------------------------------------- */

struct vfile {
	const char* path;
	size_t path_len;
	uint32_t mode; /* 0 normal, 1 open fails with param, 2 read at offset param fails */
	uint32_t param;
	uint32_t nchunks;
	const uint8_t* chunks; /* u32 LE each */
	const uint8_t* data;
	size_t size;
	uint32_t opens;
};
struct vopen {
	struct vfile* file;
	size_t pos;
	uint32_t chunk;
	int open;
};
struct vcpuid {
	uint32_t leaf, sub, any, r[4];
};
struct vhwprobe {
	uint32_t cpu;
	int32_t ret;
	uint64_t v[3];
	uint32_t mask, pad;
};

#define MAX_FILES 60000
#define MAX_OPENS 400000
#define FD_BASE 100000
#define MAX_LIVE 200000

static struct vfile* files;
static uint32_t files_count;
static uint32_t* file_hash; /* open addressing over files */
#define HASH_SIZE 131072
static struct vopen* opens;
static uint32_t opens_count;
static struct vcpuid* cpuids;
static uint32_t cpuids_count;
static struct vhwprobe* hwprobes;
static uint32_t hwprobes_count;
static const uint8_t* getcpus;
static uint32_t getcpus_count;
static struct {
	uint64_t xcr0, hwcap, hwcap2;
	int64_t sve_vl;
	uint32_t fpsid, mvfr0, wcid, auxv_missing;
} regs;
static struct {
	const char* key;
	const char* value;
} props[64];
static uint32_t props_count;

enum { FAULT_NONE, FAULT_ALLOC, FAULT_OPEN, FAULT_READ, FAULT_ALLOC_FROM, FAULT_OPEN_FROM, FAULT_READ_FROM };
static uint32_t fault_kind, fault_index, fault_errno;
static uint32_t opts;
#define OPT_GETCPU 1u
#define OPT_RANGES 2u
#define OPT_STABLE 4u
#define OPT_SECCOMP 8u
#define OPT_EVENTS 16u
#define OPT_OUTPUT 32u
#define OPT_PREINIT 64u
#define OPT_NODUMP 128u
#define OPT_POSTFAIL 256u
#define OPT_THREADS 512u
#define OPT_TOOL 1024u
#define OPT_MOCKFS 2048u
static uint32_t preinit_index;

/* ---- observed events ------------------------------------------------ */

volatile int vp_active;
static uint32_t n_alloc, n_free, n_open, n_read, n_close, n_cpuid, n_xgetbv, n_getcpu, n_bad_close, n_bad_read,
	n_bad_free, n_fault_hits, n_real_open, n_other_syscall;
static __thread int64_t current_getcpu = 0;
static int in_query_phase;

struct live {
	void* p;
	size_t n;
	int mark;
};
static struct live* live;
static uint32_t live_count;

static void runaway(const char* what) {
	vp_active = 0;
	dprintf(2, "RUNAWAY: unbounded %s loop\n", what);
	_exit(77);
}

static void live_add(void* p, size_t n) {
	if (live_count < MAX_LIVE) {
		live[live_count].p = p;
		live[live_count].n = n;
		live_count++;
	}
}
static int live_del(void* p) {
	for (uint32_t i = live_count; i-- > 0;) {
		if (live[i].p == p) {
			live[i] = live[--live_count];
			return 1;
		}
	}
	return 0;
}

/* In threaded runs, each call the library makes may be delayed, to vary the schedule. */
static uint32_t jitter;
static __thread uint32_t jitter_state;
static void perturb(void) {
	if (!jitter)
		return;
	if (jitter_state == 0)
		jitter_state = jitter ^ (uint32_t)(uintptr_t)&jitter_state;
	jitter_state = jitter_state * 1664525u + 1013904223u;
	switch (jitter_state >> 28) {
		case 0:
		case 1:
		case 2:
			sched_yield();
			break;
		case 3:
			usleep((jitter_state >> 16) & 63);
			break;
	}
}

static int alloc_fault(void) {
	perturb();
	uint32_t k = n_alloc++;
	if ((fault_kind == FAULT_ALLOC && k == fault_index) || (fault_kind == FAULT_ALLOC_FROM && k >= fault_index)) {
		n_fault_hits++;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}

/* The library's references to these functions are renamed to __wrap_* in its objects. */
/* Requests this large are refused like a real, memory-limited system does. */
#define ALLOC_LIMIT ((size_t)256 << 20)

void* __wrap_malloc(size_t n) {
	if (!vp_active)
		return malloc(n);
	if (alloc_fault() || n > ALLOC_LIMIT)
		return NULL;
	void* p = malloc(n);
	if (p)
		live_add(p, n);
	return p;
}
void* __wrap_calloc(size_t a, size_t b) {
	if (!vp_active)
		return calloc(a, b);
	size_t total;
	if (alloc_fault() || __builtin_mul_overflow(a, b, &total) || total > ALLOC_LIMIT)
		return NULL;
	void* p = calloc(a, b);
	if (p)
		live_add(p, a * b);
	return p;
}
void* __wrap_realloc(void* o, size_t n) {
	if (!vp_active)
		return realloc(o, n);
	if (alloc_fault() || n > ALLOC_LIMIT)
		return NULL;
	if (o)
		live_del(o);
	void* p = realloc(o, n);
	if (p)
		live_add(p, n);
	return p;
}
void __wrap_free(void* p) {
	if (vp_active && p) {
		n_free++;
		if (!live_del(p))
			n_bad_free++;
	}
	free(p);
}

static uint32_t hash_path(const char* s, size_t n) {
	uint32_t h = 2166136261u;
	for (size_t i = 0; i < n; i++)
		h = (h ^ (unsigned char)s[i]) * 16777619u;
	return h;
}
static struct vfile* find_file(const char* path) {
	size_t n = strlen(path);
	uint32_t h = hash_path(path, n) & (HASH_SIZE - 1);
	while (file_hash[h]) {
		struct vfile* f = &files[file_hash[h] - 1];
		if (f->path_len == n && memcmp(f->path, path, n) == 0)
			return f;
		h = (h + 1) & (HASH_SIZE - 1);
	}
	return NULL;
}

static int vopen_path(const char* path) {
	perturb();
	uint32_t k = n_open++;
	if (n_open > 300000)
		runaway("open");
	if ((fault_kind == FAULT_OPEN && k == fault_index) || (fault_kind == FAULT_OPEN_FROM && k >= fault_index)) {
		n_fault_hits++;
		errno = (int)fault_errno;
		return -1;
	}
	struct vfile* f = find_file(path);
	if (!f) {
		errno = ENOENT;
		return -1;
	}
	if (f->mode == 1) {
		errno = (int)f->param;
		return -1;
	}
	struct vopen* o = &opens[opens_count];
	o->file = f;
	o->pos = 0;
	o->chunk = f->opens;
	o->open = 1;
	f->opens++;
	return FD_BASE + (int)opens_count++;
}
int __wrap_open(const char* path, int flags, ...) {
	(void)flags;
	return vopen_path(path);
}
int __wrap_open64(const char* path, int flags, ...) {
	(void)flags;
	return vopen_path(path);
}
int __wrap_openat(int d, const char* path, int flags, ...) {
	(void)d;
	(void)flags;
	return vopen_path(path);
}
static ssize_t vread(struct vopen* o, void* buf, size_t n) {
	uint32_t k = n_read++;
	if (n_read > 3000000)
		runaway("read");
	if ((fault_kind == FAULT_READ && k == fault_index) || (fault_kind == FAULT_READ_FROM && k >= fault_index)) {
		n_fault_hits++;
		errno = (int)fault_errno;
		return -1;
	}
	struct vfile* f = o->file;
	size_t left = f->size - o->pos;
	if (f->mode == 2) {
		if (o->pos >= f->param) {
			errno = EIO;
			return -1;
		}
		if (left > f->param - o->pos)
			left = f->param - o->pos;
	}
	size_t want = n < left ? n : left;
	if (f->nchunks) {
		uint32_t c;
		memcpy(&c, f->chunks + 4u * (o->chunk++ % f->nchunks), 4);
		if (c && want > c)
			want = c;
	}
	memcpy(buf, f->data + o->pos, want);
	o->pos += want;
	return (ssize_t)want;
}
static struct vopen* fd_lookup(int fd) {
	if (fd < FD_BASE || fd >= FD_BASE + (int)opens_count || !opens[fd - FD_BASE].open)
		return NULL;
	return &opens[fd - FD_BASE];
}
ssize_t __wrap_read(int fd, void* buf, size_t n) {
	struct vopen* o = fd_lookup(fd);
	if (!o) {
		n_bad_read++;
		errno = EBADF;
		return -1;
	}
	return vread(o, buf, n);
}
ssize_t __wrap_pread(int fd, void* buf, size_t n, off_t off) {
	struct vopen* o = fd_lookup(fd);
	if (!o) {
		n_bad_read++;
		errno = EBADF;
		return -1;
	}
	o->pos = (size_t)off < o->file->size ? (size_t)off : o->file->size;
	return vread(o, buf, n);
}
int __wrap_close(int fd) {
	n_close++;
	struct vopen* o = fd_lookup(fd);
	if (!o) {
		n_bad_close++;
		errno = EBADF;
		return -1;
	}
	o->open = 0;
	return 0;
}
FILE* __wrap_fopen(const char* path, const char* mode) {
	struct vfile* f = find_file(path);
	n_open++;
	if (!f || f->mode == 1) {
		errno = f ? (int)f->param : ENOENT;
		return NULL;
	}
	return fmemopen((void*)(uintptr_t)f->data, f->size ? f->size : 1, "r");
}
unsigned long __wrap_getauxval(unsigned long t) {
	if (t == AT_HWCAP)
		return (unsigned long)regs.hwcap;
	if (t == AT_HWCAP2)
		return (unsigned long)regs.hwcap2;
	errno = ENOENT;
	return 0;
}
int __wrap_prctl(int op, ...) {
	if (op == 51 /* PR_SVE_GET_VL */ && regs.sve_vl >= 0)
		return (int)regs.sve_vl;
	errno = EINVAL;
	return -1;
}

static long do_getcpu(unsigned* cpu) {
	__atomic_fetch_add(&n_getcpu, 1, __ATOMIC_RELAXED);
	if (current_getcpu < 0) {
		errno = ENOSYS;
		return -1;
	}
	if (cpu)
		*cpu = (unsigned)current_getcpu;
	return 0;
}
struct pair {
	int64_t key;
	uint64_t value;
};
static long do_hwprobe(struct pair* pairs, size_t count, size_t set_size, const unsigned long* set) {
	/* Kernel semantics: values common to all harts in the set, key -1 when unknown or not common. */
	int64_t cpu = -1;
	uint32_t members = 0;
	for (size_t i = 0; i < set_size * 8; i++)
		if ((((const unsigned char*)set)[i / 8] >> (i % 8)) & 1) {
			cpu = (int64_t)i;
			members++;
		}
	if (members != 1)
		n_bad_read++;
	for (uint32_t i = 0; i < hwprobes_count; i++) {
		if ((int64_t)hwprobes[i].cpu == cpu) {
			if (hwprobes[i].ret < 0) {
				errno = -hwprobes[i].ret;
				return -1;
			}
			for (size_t p = 0; p < count; p++) {
				int64_t k = pairs[p].key;
				if (k >= 0 && k < 3 && (hwprobes[i].mask >> k) & 1) {
					pairs[p].value = hwprobes[i].v[k];
				} else {
					pairs[p].key = -1;
					pairs[p].value = 0;
				}
			}
			return 0;
		}
	}
	errno = ENOSYS;
	return -1;
}
long __wrap_syscall(long nr, ...) {
	va_list ap;
	long ret = -1;
	va_start(ap, nr);
	if (nr == __NR_getcpu) {
		ret = do_getcpu(va_arg(ap, unsigned*));
#if CPUINFO_ARCH_RISCV64 || CPUINFO_ARCH_RISCV32
	} else if (nr == 258) {
		struct pair* pairs = va_arg(ap, struct pair*);
		size_t count = va_arg(ap, size_t), size = va_arg(ap, size_t);
		ret = do_hwprobe(pairs, count, size, va_arg(ap, const unsigned long*));
#endif
	} else {
		n_other_syscall++;
		errno = ENOSYS;
	}
	va_end(ap);
	return ret;
}
int __wrap_sched_getcpu(void) {
	unsigned cpu = 0;
	return do_getcpu(&cpu) ? -1 : (int)cpu;
}
static unsigned long vp_getauxval(unsigned long t) {
	return __wrap_getauxval(t);
}
void* __wrap_dlopen(const char* name, int flags) {
	if (regs.auxv_missing & 2)
		return NULL;
	n_open++;
	return (void*)&regs;
}
void* __wrap_dlsym(void* h, const char* name) {
	if (!vp_active || h != (void*)&regs)
		return dlsym(h, name);
	if (regs.auxv_missing & 1)
		return NULL;
	return strcmp(name, "getauxval") == 0 ? (void*)(uintptr_t)&vp_getauxval : NULL;
}
int __wrap_dlclose(void* h) {
	if (!vp_active || h != (void*)&regs)
		return dlclose(h);
	n_close++;
	return 0;
}
#ifdef __ANDROID__
int __system_property_get(const char* key, char* value) {
	for (uint32_t i = 0; i < props_count; i++) {
		if (strcmp(props[i].key, key) == 0) {
			/* PROP_VALUE_MAX is 92 including the terminator */
			size_t n = strlen(props[i].value);
			if (n > 91)
				n = 91;
			memcpy(value, props[i].value, n);
			value[n] = 0;
			return (int)n;
		}
	}
	value[0] = 0;
	return 0;
}
#endif

#ifdef VERIF_AS_WASM
int emscripten_num_logical_cores(void) {
	struct vfile* f = find_file("cores");
	int32_t v = 1;
	n_open++;
	if (f && f->size == 4)
		memcpy(&v, f->data, 4);
	return v;
}
#endif
#if defined(VERIF_AS_FREEBSD) || defined(VERIF_AS_APPLE)
/* sysctl: the value of "name" is the file "sysctl:name" */
#include <sys/sysctl.h>
int sysctlbyname(const char* name, void* oldp, size_t* oldlenp, const void* newp, size_t newlen) {
	char path[256];
	perturb();
	uint32_t k = n_open++;
	if (newp || newlen)
		n_bad_read++;
	if ((fault_kind == FAULT_OPEN && k == fault_index) || (fault_kind == FAULT_OPEN_FROM && k >= fault_index)) {
		n_fault_hits++;
		errno = (int)fault_errno;
		return -1;
	}
	snprintf(path, sizeof(path), "sysctl:%s", name);
	struct vfile* f = find_file(path);
	if (!f || f->mode == 1) {
		errno = f ? (int)f->param : ENOENT;
		return -1;
	}
	if (!oldp) {
		if (oldlenp)
			*oldlenp = f->size;
		return 0;
	}
	if (*oldlenp < f->size) {
		memcpy(oldp, f->data, *oldlenp);
		errno = ENOMEM;
		return -1;
	}
	memcpy(oldp, f->data, f->size);
	*oldlenp = f->size;
	return 0;
}
int sysctl(const int* mib, unsigned n, void* oldp, size_t* oldlenp, const void* newp, size_t newlen) {
	char name[64];
	if (n != 2)
		n_bad_read++;
	snprintf(name, sizeof(name), "%d.%d", mib[0], mib[1]);
	return sysctlbyname(name, oldp, oldlenp, newp, newlen);
}
#endif

#ifdef VERIF_AS_WINDOWS
/*
 * Windows: files "win:groups" and "win:max" (one 32-bit count of active and
 * of possible processors per group),
 * "win:rel:N" (the records of relation N), "win:reg:NAME" (a registry value,
 * preceded by its type), "win:features" (numbers of the features present),
 * "win:level" and "win:wine".
 */
#include <windows.h>
static __thread DWORD last_error;
DWORD GetLastError(void) {
	return last_error;
}
void SetLastError(DWORD e) {
	last_error = e;
}
/* one call to the system: whether it is made to fail */
static int win_fault(void) {
	perturb();
	uint32_t k = n_open++;
	if ((fault_kind == FAULT_OPEN && k == fault_index) || (fault_kind == FAULT_OPEN_FROM && k >= fault_index)) {
		n_fault_hits++;
		last_error = ERROR_GEN_FAILURE;
		return 1;
	}
	return 0;
}
static pthread_mutex_t once_lock = PTHREAD_MUTEX_INITIALIZER;
BOOL InitOnceExecuteOnce(PINIT_ONCE once, PINIT_ONCE_FN f, PVOID arg, LPVOID* context) {
	BOOL ok = TRUE;
	pthread_mutex_lock(&once_lock);
	if (once->state == 0) {
		ok = f(once, arg, context);
		once->state = ok ? 1 : 0;
	}
	pthread_mutex_unlock(&once_lock);
	return ok;
}
static char the_heap;
HANDLE GetProcessHeap(void) {
	return &the_heap;
}
LPVOID HeapAlloc(HANDLE heap, DWORD flags, SIZE_T n) {
	if (heap != &the_heap)
		n_bad_read++;
	void* p = flags & HEAP_ZERO_MEMORY ? __wrap_calloc(1, n ? n : 1) : __wrap_malloc(n ? n : 1);
	/* memory that is not asked to be zero is not */
	if (p && !(flags & HEAP_ZERO_MEMORY)) {
#if !__has_feature(memory_sanitizer)
		memset(p, 0xA5, n);
#endif
	}
	return p;
}
BOOL HeapFree(HANDLE heap, DWORD flags, LPVOID p) {
	if (heap != &the_heap)
		n_bad_read++;
	__wrap_free(p);
	return TRUE;
}
static DWORD win_count(const char* file, WORD group) {
	struct vfile* f = find_file(file);
	DWORD v = 0, sum = 0;
	n_open++;
	for (size_t i = 0; f && i < f->size / 4; i++) {
		memcpy(&v, f->data + 4 * i, 4);
		if (i == group && v)
			return v;
		sum += v;
	}
	if (group == ALL_PROCESSOR_GROUPS)
		return sum;
	last_error = ERROR_INVALID_PARAMETER;
	return 0;
}
static WORD win_groups(const char* file) {
	struct vfile* f = find_file(file);
	if (find_file("win:wine"))
		abort(); /* as Wine does */
	n_open++;
	return f ? (WORD)(f->size / 4) : 1;
}
/* processors may be added while the system runs: there can be more than are active */
WORD GetMaximumProcessorGroupCount(void) {
	return win_groups("win:max");
}
WORD GetActiveProcessorGroupCount(void) {
	return win_groups("win:groups");
}
DWORD GetMaximumProcessorCount(WORD group) {
	return win_count("win:max", group);
}
DWORD GetActiveProcessorCount(WORD group) {
	return win_count("win:groups", group);
}
BOOL GetLogicalProcessorInformationEx(
	LOGICAL_PROCESSOR_RELATIONSHIP rel,
	PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX buffer,
	LPDWORD size) {
	char path[32];
	if (win_fault())
		return FALSE;
	snprintf(path, sizeof(path), "win:rel:%u", (unsigned)rel);
	struct vfile* f = find_file(path);
	if (!f) {
		last_error = ERROR_INVALID_PARAMETER;
		return FALSE;
	}
	if (!buffer || *size < f->size) {
		*size = (DWORD)f->size;
		last_error = ERROR_INSUFFICIENT_BUFFER;
		return FALSE;
	}
	memcpy(buffer, f->data, f->size);
	*size = (DWORD)f->size;
	return TRUE;
}
static const WCHAR ntdll_name[] = L"ntdll.dll";
HMODULE GetModuleHandleW(LPCWSTR name) {
	if (wcscmp(name, ntdll_name) == 0 && !find_file("win:no-ntdll"))
		return (HMODULE)ntdll_name;
	last_error = ERROR_FILE_NOT_FOUND;
	return NULL;
}
static void wine_get_version(void) {
	abort();
}
FARPROC GetProcAddress(HMODULE m, LPCSTR name) {
	if (m != (HMODULE)ntdll_name)
		n_bad_read++;
	return strcmp(name, "wine_get_version") == 0 && find_file("win:wine") ? wine_get_version : NULL;
}
BOOL IsProcessorFeaturePresent(DWORD n) {
	struct vfile* f = find_file("win:features");
	return f && memchr(f->data, (int)n, f->size) != NULL;
}
void GetSystemInfo(LPSYSTEM_INFO i) {
	struct vfile* f = find_file("win:level");
	memset(i, 0, sizeof(*i));
	i->dwPageSize = 4096;
	if (f && f->size == 2)
		memcpy(&i->wProcessorLevel, f->data, 2);
}
LSTATUS RegGetValueW(HKEY key, LPCWSTR sub, LPCWSTR value, DWORD flags, LPDWORD type, PVOID data, LPDWORD size) {
	char path[128];
	size_t i = 8;
	if (win_fault())
		return ERROR_GEN_FAILURE;
	if (key != HKEY_LOCAL_MACHINE || wcscmp(sub, L"HARDWARE\\DESCRIPTION\\System\\CentralProcessor\\0") != 0)
		return ERROR_FILE_NOT_FOUND;
	memcpy(path, "win:reg:", 8);
	for (; *value && i < sizeof(path) - 1; value++)
		path[i++] = (char)*value;
	path[i] = 0;
	struct vfile* f = find_file(path);
	if (!f || f->size < 1)
		return ERROR_FILE_NOT_FOUND;
	const DWORD t = f->data[0];
	const DWORD mask = t == REG_SZ ? RRF_RT_REG_SZ : t == REG_DWORD ? RRF_RT_REG_DWORD : t == REG_QWORD ? RRF_RT_REG_QWORD : RRF_RT_REG_BINARY;
	if (!(flags & mask))
		return ERROR_UNSUPPORTED_TYPE;
	if (type)
		*type = t;
	/* strings are wide, and get their terminator when they lack it */
	const size_t n = f->size - 1;
	const size_t need = t == REG_SZ ? (n + 1) * sizeof(WCHAR) : n;
	if (!data) {
		*size = (DWORD)need;
		return ERROR_SUCCESS;
	}
	if (*size < need) {
		*size = (DWORD)need;
		return ERROR_MORE_DATA;
	}
	if (t == REG_SZ) {
		for (size_t j = 0; j < n; j++)
			((WCHAR*)data)[j] = f->data[1 + j];
		((WCHAR*)data)[n] = 0;
	} else
		memcpy(data, f->data + 1, n);
	*size = (DWORD)need;
	return ERROR_SUCCESS;
}
int WideCharToMultiByte(UINT cp, DWORD flags, LPCWSTR src, int len, LPSTR dst, int size, LPCSTR def, BOOL* used) {
	const size_t n = !src ? 0 : len < 0 ? wcslen(src) + 1 : (size_t)len;
	size_t o = 0;
	if (!src || cp != CP_UTF8 || def || used) {
		last_error = ERROR_INVALID_PARAMETER;
		return 0;
	}
	for (size_t i = 0; i < n; i++) {
		const uint32_t c = (uint32_t)src[i];
		char b[3];
		size_t k = 0;
		if (c >= 0xD800 && c < 0xE000) {
			last_error = ERROR_NO_UNICODE_TRANSLATION;
			return 0;
		}
		if (c < 0x80)
			b[k++] = (char)c;
		else if (c < 0x800) {
			b[k++] = (char)(0xC0 | c >> 6);
			b[k++] = (char)(0x80 | (c & 0x3F));
		} else {
			b[k++] = (char)(0xE0 | (c >> 12 & 0xF));
			b[k++] = (char)(0x80 | (c >> 6 & 0x3F));
			b[k++] = (char)(0x80 | (c & 0x3F));
		}
		if (size) {
			if (o + k > (size_t)size) {
				last_error = ERROR_INSUFFICIENT_BUFFER;
				return 0;
			}
			memcpy(dst + o, b, k);
		}
		o += k;
	}
	return (int)o;
}
int wcsncpy_s(wchar_t* d, size_t dn, const wchar_t* s, size_t n) {
	const size_t m = wcsnlen(s, n);
	if (m >= dn)
		abort(); /* the invalid parameter handler */
	memcpy(d, s, m * sizeof(wchar_t));
	d[m] = 0;
	return 0;
}
HANDLE GetStdHandle(DWORD h) {
	return (HANDLE)(uintptr_t)(h == STD_ERROR_HANDLE ? 2 : h == STD_OUTPUT_HANDLE ? 1 : 99);
}
BOOL WriteFile(HANDLE h, LPCVOID p, DWORD n, LPDWORD written, void* o) {
	const ssize_t r = write((int)(uintptr_t)h, p, n);
	*written = r < 0 ? 0 : (DWORD)r;
	return r >= 0;
}
#endif

/* CPUID (patched to CC 90) and XGETBV (patched to CC 66 90) trap here. */
#if defined(VERIF_HOST64)
#define R_IP REG_RIP
#define R_A REG_RAX
#define R_B REG_RBX
#define R_C REG_RCX
#define R_D REG_RDX
#else
#define R_IP REG_EIP
#define R_A REG_EAX
#define R_B REG_EBX
#define R_C REG_ECX
#define R_D REG_EDX
#endif
static void on_trap(int sig, siginfo_t* si, void* uc_) {
	(void)sig;
	(void)si;
	ucontext_t* uc = (ucontext_t*)uc_;
	greg_t* g = uc->uc_mcontext.gregs;
	const unsigned char* ip = (const unsigned char*)(uintptr_t)g[R_IP];
	if (ip[0] == 0x90) { /* cpuid */
		uint32_t leaf = (uint32_t)g[R_A], sub = (uint32_t)g[R_C];
		uint32_t r[4] = {0, 0, 0, 0};
		if (vp_active && ++n_cpuid > 400000)
			runaway("cpuid");
		for (uint32_t i = 0; i < cpuids_count; i++) {
			if (cpuids[i].leaf == leaf && (cpuids[i].any || cpuids[i].sub == sub)) {
				memcpy(r, cpuids[i].r, sizeof(r));
				break;
			}
		}
		g[R_A] = (greg_t)r[0];
		g[R_B] = (greg_t)r[1];
		g[R_C] = (greg_t)r[2];
		g[R_D] = (greg_t)r[3];
		g[R_IP] += 1;
	} else { /* xgetbv */
		n_xgetbv++;
		uint64_t x = (uint32_t)g[R_C] == 0 ? regs.xcr0 : 0;
		g[R_A] = (greg_t)(uint32_t)x;
		g[R_D] = (greg_t)(uint32_t)(x >> 32);
		g[R_IP] += 2;
	}
}

/* ---- dump ------------------------------------------------------------ */

static int64_t idx(const void* p, const void* base, size_t count, size_t sz) {
	if (p == NULL)
		return -1;
	if (base == NULL)
		return -2;
	uintptr_t d = (uintptr_t)p - (uintptr_t)base;
	if ((uintptr_t)p < (uintptr_t)base || d % sz != 0 || d / sz >= count)
		return -2;
	return (int64_t)(d / sz);
}

#ifdef VERIF_AS_UNKNOWN_OS
/* defined by the code of the known systems */
#if CPUINFO_ARCH_ARM || CPUINFO_ARCH_ARM64
__attribute__((weak)) struct cpuinfo_arm_isa cpuinfo_isa;
#elif CPUINFO_ARCH_RISCV64 || CPUINFO_ARCH_RISCV32
__attribute__((weak)) struct cpuinfo_riscv_isa cpuinfo_isa;
#endif
#endif

struct acc {
	const char* name;
	bool (*fn)(void);
};
static const struct acc accessors[] = {
#define ACC(x) {#x, x},
#include "accessors.inc"
#undef ACC
};

static const struct cpuinfo_cache* (*const cache_arrays[5])(void) = {
	cpuinfo_get_l1i_caches,
	cpuinfo_get_l1d_caches,
	cpuinfo_get_l2_caches,
	cpuinfo_get_l3_caches,
	cpuinfo_get_l4_caches};
static uint32_t (*const cache_counts[5])(void) = {
	cpuinfo_get_l1i_caches_count,
	cpuinfo_get_l1d_caches_count,
	cpuinfo_get_l2_caches_count,
	cpuinfo_get_l3_caches_count,
	cpuinfo_get_l4_caches_count};
static const struct cpuinfo_cache* (*const cache_gets[5])(uint32_t) = {
	cpuinfo_get_l1i_cache,
	cpuinfo_get_l1d_cache,
	cpuinfo_get_l2_cache,
	cpuinfo_get_l3_cache,
	cpuinfo_get_l4_cache};

#define SEP()             \
	do {              \
		out_str(","); \
	} while (0)
#if CPUINFO_ARCH_X86 || CPUINFO_ARCH_X86_64
#define ID_OF(x) ((x)->cpuid)
#elif CPUINFO_ARCH_ARM || CPUINFO_ARCH_ARM64
#define ID_OF(x) ((x)->midr)
#else
#define ID_OF(x) 0u
#endif

static void dump_isa(void) {
	out_str(",\"isa\":[");
	int first = 1;
	for (size_t i = 0; i < sizeof(accessors) / sizeof(accessors[0]); i++) {
		if (accessors[i].fn()) {
			out_str(first ? "\"" : ",\"");
			out_str(accessors[i].name + strlen("cpuinfo_has_"));
			out_str("\"");
			first = 0;
		}
	}
	out_str("]");
#ifdef HAVE_SVE_LENGTH
	out_str(",\"sve\":");
	out_u(cpuinfo_get_max_arm_sve_length());
#endif
}

static void dump_state(void) {
	const uint32_t np = cpuinfo_get_processors_count(), nc = cpuinfo_get_cores_count(),
		       ncl = cpuinfo_get_clusters_count(), npk = cpuinfo_get_packages_count(),
		       nu = cpuinfo_get_uarchs_count();
	const struct cpuinfo_processor* P = cpuinfo_get_processors();
	const struct cpuinfo_core* C = cpuinfo_get_cores();
	const struct cpuinfo_cluster* L = cpuinfo_get_clusters();
	const struct cpuinfo_package* K = cpuinfo_get_packages();
	const struct cpuinfo_uarch_info* U = cpuinfo_get_uarchs();
	const struct cpuinfo_cache* A[5];
	uint32_t na[5];
	for (int l = 0; l < 5; l++) {
		A[l] = cache_arrays[l]();
		na[l] = cache_counts[l]();
	}
	out_str(",\"procs\":[");
	for (uint32_t i = 0; i < np; i++) {
		const struct cpuinfo_processor* p = &P[i];
		out_str(i ? ",[" : "[");
		out_u(p->smt_id);
		SEP();
		out_i(idx(p->core, C, nc, sizeof(*C)));
		SEP();
		out_i(idx(p->cluster, L, ncl, sizeof(*L)));
		SEP();
		out_i(idx(p->package, K, npk, sizeof(*K)));
		SEP();
#ifdef __linux__
		out_i(p->linux_id);
#elif defined(VERIF_AS_WINDOWS)
		out_u((uint32_t)p->windows_group_id << 16 | p->windows_processor_id);
#else
		out_u(i);
#endif
		SEP();
#if CPUINFO_ARCH_X86 || CPUINFO_ARCH_X86_64
		out_u(p->apic_id);
#else
		out_u(0);
#endif
		const struct cpuinfo_cache* pc[5] = {
			p->cache.l1i, p->cache.l1d, p->cache.l2, p->cache.l3, p->cache.l4};
		for (int l = 0; l < 5; l++) {
			SEP();
			out_i(idx(pc[l], A[l], na[l], sizeof(struct cpuinfo_cache)));
		}
		out_str("]");
	}
	out_str("],\"cores\":[");
	for (uint32_t i = 0; i < nc; i++) {
		const struct cpuinfo_core* c = &C[i];
		out_str(i ? ",[" : "[");
		out_u(c->processor_start);
		SEP();
		out_u(c->processor_count);
		SEP();
		out_u(c->core_id);
		SEP();
		out_i(idx(c->cluster, L, ncl, sizeof(*L)));
		SEP();
		out_i(idx(c->package, K, npk, sizeof(*K)));
		SEP();
		out_u(c->vendor);
		SEP();
		out_u(c->uarch);
		SEP();
		out_u(ID_OF(c));
		SEP();
		out_u(c->frequency);
		out_str("]");
	}
	out_str("],\"clusters\":[");
	for (uint32_t i = 0; i < ncl; i++) {
		const struct cpuinfo_cluster* c = &L[i];
		out_str(i ? ",[" : "[");
		out_u(c->processor_start);
		SEP();
		out_u(c->processor_count);
		SEP();
		out_u(c->core_start);
		SEP();
		out_u(c->core_count);
		SEP();
		out_u(c->cluster_id);
		SEP();
		out_i(idx(c->package, K, npk, sizeof(*K)));
		SEP();
		out_u(c->vendor);
		SEP();
		out_u(c->uarch);
		SEP();
		out_u(ID_OF(c));
		SEP();
		out_u(c->frequency);
		out_str("]");
	}
	out_str("],\"packages\":[");
	for (uint32_t i = 0; i < npk; i++) {
		const struct cpuinfo_package* c = &K[i];
		out_str(i ? ",[" : "[");
		size_t n = strnlen(c->name, CPUINFO_PACKAGE_NAME_MAX);
		if (n == CPUINFO_PACKAGE_NAME_MAX)
			out_str("null");
		else
			out_bytes_json((const unsigned char*)c->name, n);
		SEP();
		out_u(c->processor_start);
		SEP();
		out_u(c->processor_count);
		SEP();
		out_u(c->core_start);
		SEP();
		out_u(c->core_count);
		SEP();
		out_u(c->cluster_start);
		SEP();
		out_u(c->cluster_count);
		out_str("]");
	}
	out_str("],\"uarchs\":[");
	for (uint32_t i = 0; i < nu; i++) {
		const struct cpuinfo_uarch_info* c = &U[i];
		out_str(i ? ",[" : "[");
		out_u(c->uarch);
		SEP();
		out_u(ID_OF(c));
		SEP();
		out_u(c->processor_count);
		SEP();
		out_u(c->core_count);
		out_str("]");
	}
	out_str("],\"caches\":[");
	for (int l = 0; l < 5; l++) {
		out_str(l ? ",[" : "[");
		for (uint32_t i = 0; i < na[l]; i++) {
			const struct cpuinfo_cache* c = &A[l][i];
			out_str(i ? ",[" : "[");
			out_u(c->size);
			SEP();
			out_u(c->associativity);
			SEP();
			out_u(c->sets);
			SEP();
			out_u(c->partitions);
			SEP();
			out_u(c->line_size);
			SEP();
			out_u(c->flags);
			SEP();
			out_u(c->processor_start);
			SEP();
			out_u(c->processor_count);
			out_str("]");
		}
		out_str("]");
	}
	out_str("],\"maxcache\":");
	out_u(cpuinfo_get_max_cache_size());
	dump_isa();
}

struct snapshot {
	const void* p[10];
	uint32_t n[10];
	uint64_t hash;
};
static uint64_t hmix(uint64_t h, const void* p, size_t n) {
	const unsigned char* b = p;
	for (size_t i = 0; i < n; i++)
		h = (h ^ b[i]) * 1099511628211ull;
	return h;
}
static void snap(struct snapshot* s) {
	memset(s, 0, sizeof(*s));
	s->p[0] = cpuinfo_get_processors();
	s->p[1] = cpuinfo_get_cores();
	s->p[2] = cpuinfo_get_clusters();
	s->p[3] = cpuinfo_get_packages();
	s->p[4] = cpuinfo_get_uarchs();
	s->n[0] = cpuinfo_get_processors_count();
	s->n[1] = cpuinfo_get_cores_count();
	s->n[2] = cpuinfo_get_clusters_count();
	s->n[3] = cpuinfo_get_packages_count();
	s->n[4] = cpuinfo_get_uarchs_count();
	uint64_t h = 1469598103934665603ull;
	static const size_t sz[5] = {
		sizeof(struct cpuinfo_processor),
		sizeof(struct cpuinfo_core),
		sizeof(struct cpuinfo_cluster),
		sizeof(struct cpuinfo_package),
		sizeof(struct cpuinfo_uarch_info)};
	for (int i = 0; i < 5; i++)
		h = hmix(h, s->p[i], sz[i] * s->n[i]);
	for (int l = 0; l < 5; l++) {
		s->p[5 + l] = cache_arrays[l]();
		s->n[5 + l] = cache_counts[l]();
		h = hmix(h, s->p[5 + l], sizeof(struct cpuinfo_cache) * s->n[5 + l]);
	}
	uint32_t m = cpuinfo_get_max_cache_size();
	h = hmix(h, &m, sizeof(m));
	for (size_t i = 0; i < sizeof(accessors) / sizeof(accessors[0]); i++) {
		bool b = accessors[i].fn();
		h = hmix(h, &b, 1);
	}
	s->hash = h;
}

static void check_ranges(void) {
	/* every in-range index yields the array element; everything else NULL */
	out_str(",\"range_bad\":[");
	int bad = 0;
	uint32_t probes = 0;
#define CHECK_KIND(NAME, GET, ARR, CNT)                                                       \
	do {                                                                                  \
		const uint32_t n = CNT();                                                     \
		const uint32_t extra[] = {n, n + 1, n + 2, n + 7, 2 * n + 1, 0x7fffffffu, 0x80000000u, \
					  0xfffffffeu, 0xffffffffu};                          \
		for (uint32_t i = 0; i < n; i++) {                                            \
			probes++;                                                             \
			if (GET(i) != &ARR()[i]) {                                            \
				out_str(bad++ ? ",\"" : "\"");                                \
				out_str(NAME "[");                                            \
				out_u(i);                                                     \
				out_str("]\"");                                               \
				if (bad > 20)                                                 \
					break;                                                \
			}                                                                     \
		}                                                                             \
		for (size_t e = 0; e < sizeof(extra) / sizeof(extra[0]); e++) {               \
			if (extra[e] < n)                                                     \
				continue;                                                     \
			probes++;                                                             \
			if (GET(extra[e]) != NULL) {                                          \
				out_str(bad++ ? ",\"" : "\"");                                \
				out_str(NAME "[");                                            \
				out_u(extra[e]);                                              \
				out_str("]!=NULL\"");                                         \
			}                                                                     \
		}                                                                             \
	} while (0)
	CHECK_KIND("processor", cpuinfo_get_processor, cpuinfo_get_processors, cpuinfo_get_processors_count);
	CHECK_KIND("core", cpuinfo_get_core, cpuinfo_get_cores, cpuinfo_get_cores_count);
	CHECK_KIND("cluster", cpuinfo_get_cluster, cpuinfo_get_clusters, cpuinfo_get_clusters_count);
	CHECK_KIND("package", cpuinfo_get_package, cpuinfo_get_packages, cpuinfo_get_packages_count);
	CHECK_KIND("uarch", cpuinfo_get_uarch, cpuinfo_get_uarchs, cpuinfo_get_uarchs_count);
	for (int l = 0; l < 5; l++) {
		static const char* names[5] = {"l1i", "l1d", "l2", "l3", "l4"};
		const uint32_t n = cache_counts[l]();
		const struct cpuinfo_cache* a = cache_arrays[l]();
		const uint32_t extra[] = {n, n + 1, n + 5, 0x7fffffffu, 0x80000000u, 0xffffffffu};
		for (uint32_t i = 0; i < n; i++) {
			probes++;
			if (cache_gets[l](i) != &a[i]) {
				out_str(bad++ ? ",\"" : "\"");
				out_str(names[l]);
				out_str("\"");
				break;
			}
		}
		for (size_t e = 0; e < sizeof(extra) / sizeof(extra[0]); e++) {
			probes++;
			if (extra[e] >= n && cache_gets[l](extra[e]) != NULL) {
				out_str(bad++ ? ",\"" : "\"");
				out_str(names[l]);
				out_str(" oor!=NULL\"");
			}
		}
		if (n != 0 && a == NULL) {
			out_str(bad++ ? ",\"" : "\"");
			out_str(names[l]);
			out_str(" array NULL\"");
		}
	}
	out_str("],\"range_probes\":");
	out_u(probes);
}

/* leak scan: blocks allocated by the library that nothing static refers to */
extern char __data_start[], _end[];
static uint32_t count_leaks(void) {
	uint32_t leaked = 0;
	for (uint32_t i = 0; i < live_count; i++)
		live[i].mark = 0;
	/* mark from the data segment */
	int changed = 0;
	for (int pass = 0; pass < 64; pass++) {
		changed = 0;
		for (uint32_t k = 0; k <= live_count; k++) {
			const uintptr_t *b, *e;
			if (k == live_count) {
				if (pass)
					continue;
				b = (const uintptr_t*)(((uintptr_t)__data_start + sizeof(void*) - 1) &
						       ~(sizeof(void*) - 1));
				e = (const uintptr_t*)((uintptr_t)_end & ~(sizeof(void*) - 1));
			} else {
				if (live[k].mark != 1)
					continue;
				live[k].mark = 2;
				b = (const uintptr_t*)live[k].p;
				e = (const uintptr_t*)((uintptr_t)live[k].p + (live[k].n & ~(sizeof(void*) - 1)));
			}
			vp_mark(b, e, &changed);
		}
		if (!changed)
			break;
	}
	for (uint32_t i = 0; i < live_count; i++)
		if (!live[i].mark)
			leaked++;
	return leaked;
}
__attribute__((no_sanitize("address", "memory", "thread"), noinline)) void vp_mark(
	const uintptr_t* b,
	const uintptr_t* e,
	int* changed) {
	uintptr_t lo = UINTPTR_MAX, hi = 0;
	for (uint32_t i = 0; i < live_count; i++) {
		uintptr_t p = (uintptr_t)live[i].p, q = p + (live[i].n ? live[i].n : 1);
		if (p < lo)
			lo = p;
		if (q > hi)
			hi = q;
	}
	for (; b < e; b++) {
		uintptr_t v = *b;
		if (v < lo || v >= hi)
			continue;
		for (uint32_t i = 0; i < live_count; i++) {
			uintptr_t p = (uintptr_t)live[i].p;
			if (!live[i].mark && v >= p && v < p + (live[i].n ? live[i].n : 1)) {
				live[i].mark = 1;
				*changed = 1;
			}
		}
	}
}

/* the functions of the public API that must refuse to run before initialization */
struct preinit {
	const char* name;
	void (*fn)(void);
};
#define PRE(NAME, CALL)                                       \
	static void pre_##NAME(void) {                        \
		volatile uintptr_t sink = (uintptr_t)(CALL);  \
		(void)sink;                                   \
	}
#define PRES(X)                                                                            \
	X(cpuinfo_get_processors, cpuinfo_get_processors())                                \
	X(cpuinfo_get_cores, cpuinfo_get_cores())                                          \
	X(cpuinfo_get_clusters, cpuinfo_get_clusters())                                    \
	X(cpuinfo_get_packages, cpuinfo_get_packages())                                    \
	X(cpuinfo_get_uarchs, cpuinfo_get_uarchs())                                        \
	X(cpuinfo_get_l1i_caches, cpuinfo_get_l1i_caches())                                \
	X(cpuinfo_get_l1d_caches, cpuinfo_get_l1d_caches())                                \
	X(cpuinfo_get_l2_caches, cpuinfo_get_l2_caches())                                  \
	X(cpuinfo_get_l3_caches, cpuinfo_get_l3_caches())                                  \
	X(cpuinfo_get_l4_caches, cpuinfo_get_l4_caches())                                  \
	X(cpuinfo_get_processor, cpuinfo_get_processor(0))                                 \
	X(cpuinfo_get_core, cpuinfo_get_core(0))                                           \
	X(cpuinfo_get_cluster, cpuinfo_get_cluster(0))                                     \
	X(cpuinfo_get_package, cpuinfo_get_package(0))                                     \
	X(cpuinfo_get_uarch, cpuinfo_get_uarch(0))                                         \
	X(cpuinfo_get_l1i_cache, cpuinfo_get_l1i_cache(0))                                 \
	X(cpuinfo_get_l1d_cache, cpuinfo_get_l1d_cache(0))                                 \
	X(cpuinfo_get_l2_cache, cpuinfo_get_l2_cache(0))                                   \
	X(cpuinfo_get_l3_cache, cpuinfo_get_l3_cache(0))                                   \
	X(cpuinfo_get_l4_cache, cpuinfo_get_l4_cache(0))                                   \
	X(cpuinfo_get_processors_count, cpuinfo_get_processors_count())                    \
	X(cpuinfo_get_cores_count, cpuinfo_get_cores_count())                              \
	X(cpuinfo_get_clusters_count, cpuinfo_get_clusters_count())                        \
	X(cpuinfo_get_packages_count, cpuinfo_get_packages_count())                        \
	X(cpuinfo_get_uarchs_count, cpuinfo_get_uarchs_count())                            \
	X(cpuinfo_get_l1i_caches_count, cpuinfo_get_l1i_caches_count())                    \
	X(cpuinfo_get_l1d_caches_count, cpuinfo_get_l1d_caches_count())                    \
	X(cpuinfo_get_l2_caches_count, cpuinfo_get_l2_caches_count())                      \
	X(cpuinfo_get_l3_caches_count, cpuinfo_get_l3_caches_count())                      \
	X(cpuinfo_get_l4_caches_count, cpuinfo_get_l4_caches_count())                      \
	X(cpuinfo_get_max_cache_size, cpuinfo_get_max_cache_size())                        \
	X(cpuinfo_get_current_processor, cpuinfo_get_current_processor())                  \
	X(cpuinfo_get_current_core, cpuinfo_get_current_core())                            \
	X(cpuinfo_get_current_uarch_index, cpuinfo_get_current_uarch_index())              \
	X(cpuinfo_get_current_uarch_index_with_default, cpuinfo_get_current_uarch_index_with_default(3)) \
	X(cpuinfo_get_processor_big, cpuinfo_get_processor(0xffffffffu))                   \
	X(cpuinfo_get_core_big, cpuinfo_get_core(0xffffffffu))                             \
	X(cpuinfo_get_cluster_big, cpuinfo_get_cluster(0xffffffffu))                       \
	X(cpuinfo_get_package_big, cpuinfo_get_package(0xffffffffu))                       \
	X(cpuinfo_get_uarch_big, cpuinfo_get_uarch(0xffffffffu))                           \
	X(cpuinfo_get_l1i_cache_big, cpuinfo_get_l1i_cache(7))                             \
	X(cpuinfo_get_l1d_cache_big, cpuinfo_get_l1d_cache(7))                             \
	X(cpuinfo_get_l2_cache_big, cpuinfo_get_l2_cache(7))                               \
	X(cpuinfo_get_l3_cache_big, cpuinfo_get_l3_cache(7))                               \
	X(cpuinfo_get_l4_cache_big, cpuinfo_get_l4_cache(7))
PRES(PRE)
#define PRE_ROW(NAME, CALL) {#NAME, pre_##NAME},
static const struct preinit preinits[] = {PRES(PRE_ROW)};
#define PREINITS (sizeof(preinits) / sizeof(preinits[0]))

static void out_events(void) {
	uint32_t unclosed = 0;
	for (uint32_t i = 0; i < opens_count; i++)
		unclosed += opens[i].open ? 1 : 0;
	out_str(",\"ev\":{\"alloc\":");
	out_u(n_alloc);
	out_str(",\"free\":");
	out_u(n_free);
	out_str(",\"live\":");
	out_u(live_count);
	out_str(",\"leak\":");
	out_u(count_leaks());
	out_str(",\"open\":");
	out_u(n_open);
	out_str(",\"read\":");
	out_u(n_read);
	out_str(",\"close\":");
	out_u(n_close);
	out_str(",\"unclosed\":");
	out_u(unclosed);
	out_str(",\"bad_close\":");
	out_u(n_bad_close);
	out_str(",\"bad_read\":");
	out_u(n_bad_read);
	out_str(",\"bad_free\":");
	out_u(n_bad_free);
	out_str(",\"hits\":");
	out_u(n_fault_hits);
	out_str(",\"cpuid\":");
	out_u(n_cpuid);
	out_str(",\"xgetbv\":");
	out_u(n_xgetbv);
	out_str(",\"getcpu\":");
	out_u(n_getcpu);
	out_str(",\"sys\":");
	out_u(n_other_syscall);
	out_str("}");
}

static void query_current(void) {
	out_str(",\"cur\":[");
	const struct cpuinfo_processor* P = cpuinfo_get_processors();
	const struct cpuinfo_core* C = cpuinfo_get_cores();
	const uint32_t np = cpuinfo_get_processors_count(), nc = cpuinfo_get_cores_count();
	for (uint32_t i = 0; i < getcpus_count; i++) {
		int64_t v;
		memcpy(&v, getcpus + 8u * i, 8);
		current_getcpu = v;
		out_str(i ? ",[" : "[");
		out_i(v);
		SEP();
		out_i(idx(cpuinfo_get_current_processor(), P, np, sizeof(*P)));
		SEP();
		out_i(idx(cpuinfo_get_current_core(), C, nc, sizeof(*C)));
		SEP();
		out_u(cpuinfo_get_current_uarch_index());
		SEP();
		out_u(cpuinfo_get_current_uarch_index_with_default(4242u + i));
		out_str("]");
	}
	out_str("]");
}

static void stable_check(void) {
	/* Re-initialization, deinitialization and any number of queries change nothing. */
	struct snapshot a, b;
	snap(&a);
	const uint32_t al = n_alloc, fr = n_free, op = n_open, rd = n_read, cp = n_cpuid;
	bool again = true;
	for (int r = 0; r < 3; r++) {
		again &= cpuinfo_initialize();
		snap(&b);
		if (memcmp(&a, &b, sizeof(a)) != 0)
			break;
		cpuinfo_deinitialize();
		snap(&b);
		if (memcmp(&a, &b, sizeof(a)) != 0)
			break;
		for (uint32_t i = 0; i < getcpus_count; i++) {
			int64_t v;
			memcpy(&v, getcpus + 8u * i, 8);
			current_getcpu = v;
			(void)cpuinfo_get_current_processor();
			(void)cpuinfo_get_current_core();
			(void)cpuinfo_get_current_uarch_index();
			(void)cpuinfo_get_current_uarch_index_with_default(1);
		}
		snap(&b);
		if (memcmp(&a, &b, sizeof(a)) != 0)
			break;
	}
	out_str(",\"stable\":{\"again\":");
	out_str(again ? "true" : "false");
	out_str(",\"same\":");
	out_str(memcmp(&a, &b, sizeof(a)) == 0 ? "true" : "false");
	out_str(",\"alloc\":");
	out_u(n_alloc - al);
	out_str(",\"free\":");
	out_u(n_free - fr);
	out_str(",\"open\":");
	out_u(n_open - op);
	out_str(",\"read\":");
	out_u(n_read - rd);
	out_str(",\"cpuid\":");
	out_u(n_cpuid - cp);
	out_str("}");
}

static size_t* shared_len;

/* ---- threads ----------------------------------------------------------- */

#define MAX_THREADS 16
struct worker {
	pthread_t thread;
	uint32_t index;
	int ok, again;
	int current_bad;
	struct snapshot s;
};
static struct worker workers[MAX_THREADS];
static volatile int gate;

static void* work(void* arg) {
	struct worker* w = arg;
	/* a plain spin: it orders nothing between the threads after the start */
	while (!__atomic_load_n(&gate, __ATOMIC_RELAXED)) {
	}
	uint32_t r = (jitter ^ (w->index * 2654435761u)) * 1664525u + 1013904223u;
	for (volatile uint32_t i = 0; i < ((r >> 20) & 1023) * (r >> 30); i++) {
	}
	if ((r & 0x300) == 0)
		cpuinfo_deinitialize();
	w->ok = cpuinfo_initialize();
	if (!w->ok)
		return NULL;
	if (r & 0x400)
		cpuinfo_deinitialize();
	const struct cpuinfo_processor* P = cpuinfo_get_processors();
	const uint32_t n = cpuinfo_get_processors_count();
	for (uint32_t i = 0; i < getcpus_count; i++) {
		int64_t v;
		memcpy(&v, getcpus + 8u * ((i + w->index) % getcpus_count), 8);
		current_getcpu = v;
		const struct cpuinfo_processor* p = cpuinfo_get_current_processor();
		const struct cpuinfo_core* c = cpuinfo_get_current_core();
		(void)cpuinfo_get_current_uarch_index();
		(void)cpuinfo_get_current_uarch_index_with_default(7);
		const struct cpuinfo_processor* want = NULL;
		for (uint32_t k = 0; k < n; k++)
#ifdef __linux__
			if (v >= 0 && P[k].linux_id == (int)v)
				want = &P[k];
#else
			(void)P;
#endif
		if (p != want || c != (want ? want->core : NULL))
			w->current_bad++;
	}
	snap(&w->s);
	for (uint32_t i = 0; i < 3; i++) {
		(void)cpuinfo_get_processor(i);
		(void)cpuinfo_get_core(i);
		(void)cpuinfo_get_cluster(i);
		(void)cpuinfo_get_package(i);
		(void)cpuinfo_get_uarch(i);
		for (int l = 0; l < 5; l++)
			(void)cache_gets[l](i);
	}
	w->again = cpuinfo_initialize();
	return NULL;
}

static void run_threads(void) {
	const uint32_t n = 2 + preinit_index % (MAX_THREADS - 1);
	jitter = preinit_index | 1u;
	vp_active = 1;
	for (uint32_t i = 0; i < n; i++) {
		workers[i].index = i;
		if (pthread_create(&workers[i].thread, NULL, work, &workers[i]) != 0)
			_exit(78);
	}
	__atomic_store_n(&gate, 1, __ATOMIC_RELAXED);
	uint32_t ok = 0, again = 0, differ = 0, current_bad = 0;
	for (uint32_t i = 0; i < n; i++)
		pthread_join(workers[i].thread, NULL);
	vp_active = 0;
	jitter = 0;
	for (uint32_t i = 0; i < n; i++) {
		ok += workers[i].ok != 0;
		again += workers[i].again != 0;
		current_bad += workers[i].current_bad != 0;
		differ += memcmp(&workers[i].s, &workers[0].s, sizeof(struct snapshot)) != 0;
	}
	out_str(",\"threads\":[");
	out_u(n);
	SEP();
	out_u(ok);
	SEP();
	out_u(again);
	SEP();
	out_u(differ);
	SEP();
	out_u(current_bad);
	out_str("]");
}

/* ---- command-line tools ------------------------------------------------- */

#define TOOL(name) extern int tool_##name(int, char**) __attribute__((weak));
TOOL(cpu_info)
TOOL(cache_info)
TOOL(isa_info)
TOOL(cpuid_dump)
TOOL(cpuinfo_dump)
TOOL(auxv_dump)

static void run_tool(void) {
	int (*const tools[])(int, char**) = {
		tool_cpu_info, tool_cache_info, tool_isa_info, tool_cpuid_dump, tool_cpuinfo_dump, tool_auxv_dump};
	static char name[] = "tool";
	char* argv[] = {name, NULL};
	vp_active = 1;
	/* no look at the result: renamed, a main without return has none */
	(void)tools[preinit_index](1, argv);
	vp_active = 0;
	fflush(stdout);
}

/* ---- the library's own replay mode ---------------------------------------- */

#if CPUINFO_MOCK
#include <cpuinfo-mock.h>

static struct cpuinfo_mock_file* mock_files;

/* hands the scenario over through the public mock interface only */
static void install_mock(void) {
	mock_files = calloc(files_count + 1, sizeof(*mock_files));
	for (uint32_t i = 0; i < files_count; i++) {
		/* exact-size copies, so that a read past the end is seen */
		char* path = malloc(files[i].path_len + 1);
		memcpy(path, files[i].path, files[i].path_len);
		path[files[i].path_len] = 0;
		char* data = malloc(files[i].size);
		memcpy(data, files[i].data, files[i].size);
		mock_files[i].path = path;
		mock_files[i].size = files[i].size;
		mock_files[i].content = data;
	}
	cpuinfo_mock_filesystem(mock_files);
#if CPUINFO_ARCH_X86 || CPUINFO_ARCH_X86_64
	struct cpuinfo_mock_cpuid* c = malloc(sizeof(*c) * cpuids_count);
	for (uint32_t i = 0; i < cpuids_count; i++) {
		c[i].input_eax = cpuids[i].leaf;
		c[i].input_ecx = cpuids[i].any ? 0 : cpuids[i].sub;
		c[i].eax = cpuids[i].r[0];
		c[i].ebx = cpuids[i].r[1];
		c[i].ecx = cpuids[i].r[2];
		c[i].edx = cpuids[i].r[3];
	}
	cpuinfo_mock_set_cpuid(c, cpuids_count);
#endif
#if CPUINFO_ARCH_ARM || CPUINFO_ARCH_ARM64
	cpuinfo_set_hwcap((uint32_t)regs.hwcap);
#endif
#if CPUINFO_ARCH_ARM
	cpuinfo_set_hwcap2(regs.hwcap2);
	cpuinfo_set_fpsid(regs.fpsid);
	cpuinfo_set_wcid(regs.wcid);
#endif
#if defined(__ANDROID__)
	struct cpuinfo_mock_property* pr = calloc(props_count + 1, sizeof(*pr));
	for (uint32_t i = 0; i < props_count; i++) {
		pr[i].key = props[i].key;
		pr[i].value = props[i].value;
	}
	cpuinfo_mock_android_properties(pr);
#endif
}

/* a history of calls of the mock file system, given as (call, file, argument) in the first file */
static void run_mockfs(void) {
	const uint8_t* p = files[0].data;
	int* last = malloc(sizeof(int) * (files_count + 1));
	for (uint32_t i = 0; i <= files_count; i++)
		last[i] = -1;
	out_str(",\"calls\":[");
	for (size_t k = 0; k + 12 <= files[0].size; k += 12) {
		uint32_t call, file, arg;
		memcpy(&call, p + k, 4);
		memcpy(&file, p + k + 4, 4);
		memcpy(&arg, p + k + 8, 4);
		int64_t ret = 0;
		uint32_t h = 2166136261u;
		errno = 0;
		if (call == 0) {
			ret = cpuinfo_mock_open(file < files_count ? mock_files[file].path : "/no/such/file", (int)arg);
			if (ret >= 0 && file < files_count)
				last[file] = (int)ret;
		} else if (call == 1) {
			uint8_t* b = malloc(arg);
			memset(b, 0xA5, arg);
			ret = cpuinfo_mock_read(file < files_count ? last[file] : (int)file, b, arg);
			for (uint32_t i = 0; i < arg; i++)
				h = (h ^ b[i]) * 16777619u;
			free(b);
		} else if (call == 2) {
			ret = cpuinfo_mock_close(file < files_count ? last[file] : (int)file);
		} else {
			cpuinfo_mock_filesystem(mock_files);
		}
		out_str(k ? ",[" : "[");
		out_i(ret);
		SEP();
		out_u((uint64_t)errno);
		SEP();
		out_u(h);
		out_str("]");
	}
	out_str("]");
}
#endif

static void run_case(void) {
#if CPUINFO_MOCK
	install_mock();
	if (opts & OPT_MOCKFS) {
		run_mockfs();
		return;
	}
#endif
	if (opts & OPT_TOOL) {
		run_tool();
		return;
	}
	if (opts & OPT_THREADS)
		run_threads();
	if (opts & OPT_PREINIT) {
		out_str(",\"pre\":\"");
		out_str(preinits[preinit_index % PREINITS].name);
		out_str("\"");
		*shared_len = out_len;
		vp_active = 1;
		preinits[preinit_index % PREINITS].fn();
		vp_active = 0;
		out_str(",\"returned\":true");
		return;
	}
	vp_active = 1;
	bool ok = cpuinfo_initialize();
	vp_active = 0;
	out_str(",\"init\":");
	out_str(ok ? "true" : "false");
	if (opts & OPT_EVENTS)
		out_events();
	if (!ok) {
		if (opts & OPT_POSTFAIL) {
			/* a failed initialization stays failed, quietly */
			vp_active = 1;
			bool again = cpuinfo_initialize();
			cpuinfo_deinitialize();
			again |= cpuinfo_initialize();
			vp_active = 0;
			out_str(",\"again\":");
			out_str(again ? "true" : "false");
#ifdef VERIF_AS_UNKNOWN_ARCH
			dump_isa();
#endif
			out_str(",\"pre\":\"");
			out_str(preinits[preinit_index % PREINITS].name);
			out_str("\"");
			/* what is known so far stays known if the call aborts */
			*shared_len = out_len;
			vp_active = 1;
			preinits[preinit_index % PREINITS].fn();
			vp_active = 0;
			out_str(",\"returned\":true");
		}
		return;
	}
	vp_active = 1;
	if (!(opts & OPT_NODUMP))
		dump_state();
	if (opts & OPT_RANGES)
		check_ranges();
	if (opts & OPT_GETCPU)
		query_current();
	if (opts & OPT_STABLE)
		stable_check();
	vp_active = 0;
}

/* ---- scenario decoding ------------------------------------------------ */

static int read_full(int fd, void* b, size_t n) {
	size_t d = 0;
	while (d < n) {
		ssize_t r = read(fd, (char*)b + d, n - d);
		if (r <= 0)
			return 0;
		d += (size_t)r;
	}
	return 1;
}
static uint32_t u32(const uint8_t* p) {
	uint32_t v;
	memcpy(&v, p, 4);
	return v;
}

static void decode(const uint8_t* p, size_t n) {
	files_count = opens_count = cpuids_count = hwprobes_count = getcpus_count = props_count = 0;
	fault_kind = opts = preinit_index = 0;
	memset(&regs, 0, sizeof(regs));
	regs.sve_vl = -1;
	const uint8_t* e = p + n;
	while (p + 8 <= e) {
		uint32_t type = u32(p), len = u32(p + 4);
		const uint8_t* q = p + 8;
		p = q + len;
		switch (type) {
			case 1: {
				if (files_count >= MAX_FILES)
					break;
				struct vfile* f = &files[files_count++];
				f->path_len = u32(q);
				f->mode = u32(q + 4);
				f->param = u32(q + 8);
				f->nchunks = u32(q + 12);
				f->path = (const char*)q + 16;
				f->chunks = q + 16 + f->path_len;
				f->data = f->chunks + 4u * f->nchunks;
				f->size = (size_t)(p - f->data);
				f->opens = 0;
				uint32_t h = hash_path(f->path, f->path_len) & (HASH_SIZE - 1);
				while (file_hash[h])
					h = (h + 1) & (HASH_SIZE - 1);
				file_hash[h] = files_count;
				break;
			}
			case 2:
				cpuids = (struct vcpuid*)(uintptr_t)q;
				cpuids_count = len / sizeof(struct vcpuid);
				break;
			case 3:
				memcpy(&regs, q, sizeof(regs));
				break;
			case 4:
				hwprobes = (struct vhwprobe*)(uintptr_t)q;
				hwprobes_count = len / sizeof(struct vhwprobe);
				break;
			case 5:
				getcpus = q;
				getcpus_count = len / 8;
				break;
			case 6:
				fault_kind = u32(q);
				fault_index = u32(q + 4);
				fault_errno = u32(q + 8);
				break;
			case 7:
				opts = u32(q);
				preinit_index = u32(q + 4);
				break;
			case 8:
				if (props_count < 64) {
					props[props_count].key = (const char*)q;
					props[props_count].value = (const char*)q + strlen((const char*)q) + 1;
					props_count++;
				}
				break;
		}
	}
}

#if CPUINFO_ARCH_ARM
/* the AArch32 identification registers, as read by the mock build of the decoder */
extern uint32_t cpuinfo_arm_fpsid __attribute__((weak));
extern uint32_t cpuinfo_arm_mvfr0 __attribute__((weak));
extern uint32_t cpuinfo_arm_wcid __attribute__((weak));
#endif

static void* map_anon(size_t n) {
	void* p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED)
		_exit(3);
	return p;
}

int main(int argc, char** argv) {
	if (argc > 1 && strcmp(argv[1], "--preinits") == 0) {
		for (size_t i = 0; i < PREINITS; i++)
			printf("%s\n", preinits[i].name);
		return 0;
	}
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = on_trap;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGTRAP, &sa, NULL);

	out_base = mmap(NULL, SHARED_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	shared_len =
		mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	files = map_anon(sizeof(*files) * MAX_FILES);
	file_hash = map_anon(sizeof(*file_hash) * HASH_SIZE);
	opens = map_anon(sizeof(*opens) * MAX_OPENS);
	live = map_anon(sizeof(*live) * MAX_LIVE);
	uint8_t* buf = map_anon(64u << 20);
	int cap = memfd_create("cap", 0);
	if (cap < 0)
		return 3;
	char hdr[8];
	int hangs = 0;
	while (read_full(0, hdr, 8)) {
		uint32_t total = u32((uint8_t*)hdr), id = u32((uint8_t*)hdr + 4);
		if (total > (64u << 20) || !read_full(0, buf, total))
			return 4;
		*shared_len = 0;
		out_len = 0;
		if (ftruncate(cap, 0) != 0 || lseek(cap, 0, SEEK_SET) != 0)
			return 3;
		pid_t pid = fork();
		if (pid < 0)
			return 3;
		if (pid == 0) {
			dup2(cap, 1);
			dup2(cap, 2);
			alarm(hangs ? 30 : 60);
			decode(buf, total);
#if CPUINFO_ARCH_ARM
			if (&cpuinfo_arm_fpsid) {
				cpuinfo_arm_fpsid = regs.fpsid;
				cpuinfo_arm_mvfr0 = regs.mvfr0;
				cpuinfo_arm_wcid = regs.wcid;
			}
#endif
			/* the body of one JSON object; the parent closes it */
			run_case();
			*shared_len = out_len;
			_exit(0);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
		}
		out_len = *shared_len;
		static char line[256];
		int n = snprintf(line, sizeof(line), "{\"id\":%u", id);
		fwrite(line, 1, (size_t)n, stdout);
		int normal = WIFEXITED(st) && WEXITSTATUS(st) == 0;
		fwrite(out_base, 1, out_len, stdout);
		if (!normal) {
			if (WIFSIGNALED(st))
				printf(",\"sig\":%d", WTERMSIG(st));
			else
				printf(",\"exit\":%d", WEXITSTATUS(st));
		}
		uint32_t peek = 0;
		memcpy(&peek, buf, 4);
		int want_output = !normal;
		/* OPT_OUTPUT is looked up in the raw scenario to keep the parent free of scenario state */
		for (uint8_t* p = buf; p + 8 <= buf + total; p += 8 + u32(p + 4))
			if (u32(p) == 7 && (u32(p + 8) & OPT_OUTPUT))
				want_output = 1;
		if (want_output) {
			static unsigned char tail[65536];
			off_t sz = lseek(cap, 0, SEEK_END);
			off_t from = 0;
			if (sz > (off_t)sizeof(tail))
				from = sz - (off_t)sizeof(tail);
			ssize_t r = pread(cap, tail, sizeof(tail), from);
			if (r < 0)
				r = 0;
			out_len = 0;
			out_str(",\"out\":");
			out_bytes_json(tail, (size_t)r);
			fwrite(out_base, 1, out_len, stdout);
		}
		fwrite("}\n", 1, 2, stdout);
		fflush(stdout);
		/* the rest would take a minute each */
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++hangs == 2)
			return 42;
	}
	return 0;
}
