/* Emits log messages on request and reports the records that arrive at standard output and error. */
#include <clog.h>
#include <cpuinfo/log.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

#undef malloc
#undef free
extern void* malloc(size_t);
extern void free(void*);

static int fail_alloc;
static struct shared {
	uint32_t allocs, frees, fails, returned;
}* sh;

void* vp_malloc(size_t n) {
	if (fail_alloc) {
		sh->fails++;
		return NULL;
	}
	__atomic_fetch_add(&sh->allocs, 1, __ATOMIC_RELAXED);
	return malloc(n);
}
void vp_free(void* p) {
	if (p)
		__atomic_fetch_add(&sh->frees, 1, __ATOMIC_RELAXED);
	free(p);
}

#ifdef VERIF_AS_WINDOWS
#include <windows.h>
HANDLE GetProcessHeap(void) {
	return (HANDLE)7;
}
LPVOID HeapAlloc(HANDLE h, DWORD flags, SIZE_T n) {
	void* p = vp_malloc(n);
	if (p)
		memset(p, flags & HEAP_ZERO_MEMORY ? 0 : 0xA5, n);
	return p;
}
BOOL HeapFree(HANDLE h, DWORD flags, LPVOID p) {
	vp_free(p);
	return TRUE;
}
HANDLE GetStdHandle(DWORD h) {
	return (HANDLE)(uintptr_t)(h == STD_ERROR_HANDLE ? 2 : h == STD_OUTPUT_HANDLE ? 1 : 99);
}
BOOL WriteFile(HANDLE h, LPCVOID p, DWORD n, LPDWORD written, void* o) {
	const ssize_t r = write((int)(uintptr_t)h, p, n);
	*written = r < 0 ? 0 : (DWORD)r;
	return r >= 0;
}
#endif

static const char* g_module;
static int g_level;
CLOG_DEFINE_LOG_DEBUG(clog_d, g_module, g_level)
CLOG_DEFINE_LOG_INFO(clog_i, g_module, g_level)
CLOG_DEFINE_LOG_WARNING(clog_w, g_module, g_level)
CLOG_DEFINE_LOG_ERROR(clog_e, g_module, g_level)
CLOG_DEFINE_LOG_FATAL(clog_f, g_module, g_level)

/* api, level of the message, threshold, format, failing allocation, threads, number, lengths of module (or -1) and text */
struct cmd {
	uint32_t api, level, threshold, format, fail, threads;
	int32_t number, module_len, text_len;
};
static struct cmd c;
static char *module, *text;

#define EMIT(fn)                                                         \
	switch (c.format) {                                              \
		case 0:                                                  \
			fn("%s", text);                                  \
			break;                                           \
		case 1:                                                  \
			fn("%.*s", c.number, text);                      \
			break;                                           \
		case 2:                                                  \
			fn("%s=%d", text, c.number);                     \
			break;                                           \
		case 3:                                                  \
			fn("%%%c|%*d|%s", 'x', 7, c.number, text);       \
			break;                                           \
		case 4:                                                  \
			fn("plain text");                                \
			break;                                           \
		default:                                                 \
			fn("%s %08x %s %d %s", text, (unsigned)c.number, "mid", c.number, text); \
			break;                                           \
	}                                                                \
	break

static void emit(void) {
	if (c.api == 0) {
		switch (c.level) {
			case 1:
				EMIT(cpuinfo_log_fatal);
			case 2:
				EMIT(cpuinfo_log_error);
			case 3:
				EMIT(cpuinfo_log_warning);
			case 4:
				EMIT(cpuinfo_log_info);
			case 5:
				EMIT(cpuinfo_log_debug);
		}
	} else {
		switch (c.level) {
			case 1:
				EMIT(clog_f);
			case 2:
				EMIT(clog_e);
			case 3:
				EMIT(clog_w);
			case 4:
				EMIT(clog_i);
			case 5:
				EMIT(clog_d);
		}
	}
}
static void* worker(void* arg) {
	(void)arg;
	for (int i = 0; i < 5; i++)
		emit();
	return NULL;
}

static int read_full(int fd, void* b, size_t n) {
	char* p = b;
	while (n) {
		ssize_t r = read(fd, p, n);
		if (r <= 0)
			return 0;
		p += r;
		n -= (size_t)r;
	}
	return 1;
}
static void put(FILE* f, const void* b, uint32_t n) {
	fwrite(&n, 4, 1, f);
	fwrite(b, 1, n, f);
}

int main(void) {
	sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	static char rec[1 << 20];
	int san = memfd_create("san", 0);
	FILE* out = fdopen(dup(1), "wb");
	while (read_full(0, &c, sizeof(c))) {
		module = c.module_len >= 0 ? malloc((size_t)c.module_len + 1) : NULL;
		text = malloc((size_t)c.text_len + 1);
		if (module) {
			if (!read_full(0, module, (size_t)c.module_len))
				return 4;
			module[c.module_len] = 0;
		}
		if (!read_full(0, text, (size_t)c.text_len))
			return 4;
		text[c.text_len] = 0;
		int s[2][2];
		for (int i = 0; i < 2; i++) {
			int big = 1 << 20;
			if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, s[i]) != 0)
				return 3;
			setsockopt(s[i][1], SOL_SOCKET, SO_SNDBUF, &big, sizeof(big));
		}
		memset(sh, 0, sizeof(*sh));
		if (ftruncate(san, 0) != 0)
			return 3;
		lseek(san, 0, SEEK_SET);
		fflush(out);
		pid_t pid = fork();
		if (pid == 0) {
			alarm(60);
			dup2(s[0][1], 1);
			dup2(s[1][1], 2);
			for (int i = 0; i < 2; i++) {
				close(s[i][0]);
				close(s[i][1]);
			}
			g_module = module;
			g_level = (int)c.threshold;
			fail_alloc = (int)c.fail;
			if (c.threads) {
				pthread_t t[8];
				for (uint32_t i = 0; i < c.threads && i < 8; i++)
					pthread_create(&t[i], NULL, worker, NULL);
				for (uint32_t i = 0; i < c.threads && i < 8; i++)
					pthread_join(t[i], NULL);
			} else
				emit();
			sh->returned = 1;
			_exit(0);
		}
		close(s[0][1]);
		close(s[1][1]);
		/* records: stream (1, 2), bytes; a status record ends the list */
		int open_streams = 2;
		struct pollfd pf[2] = {{s[0][0], POLLIN, 0}, {s[1][0], POLLIN, 0}};
		while (open_streams) {
			poll(pf, 2, -1);
			for (uint32_t i = 0; i < 2; i++) {
				if (pf[i].fd >= 0 && pf[i].revents) {
					ssize_t r = recv(pf[i].fd, rec, sizeof(rec), 0);
					if (r <= 0) {
						pf[i].fd = -1;
						open_streams--;
					} else {
						uint32_t k = i + 1;
						fwrite(&k, 4, 1, out);
						put(out, rec, (uint32_t)r);
					}
				}
			}
		}
		int st = 0;
		waitpid(pid, &st, 0);
		close(s[0][0]);
		close(s[1][0]);
		uint32_t end[6] = {0, (uint32_t)st, sh->allocs, sh->frees, sh->fails, sh->returned};
		fwrite(end, sizeof(end), 1, out);
		free(module);
		free(text);
	}
	fflush(out);
	return 0;
}
