/* Preloaded into a recording script: /proc/cpuinfo and /sys/... are those of the directory $VERIF_ROOT. */
#define _GNU_SOURCE 1
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>

static const char* moved(const char* path, char* buffer) {
	const char* root = getenv("VERIF_ROOT");
	if (root && path && (strcmp(path, "/proc/cpuinfo") == 0 || strncmp(path, "/sys/", 5) == 0)) {
		snprintf(buffer, 4096, "%s%s", root, path);
		return buffer;
	}
	return path;
}

#define OPEN(name)                                                                     \
	int name(const char* path, int flags, ...) {                                   \
		static int (*real)(const char*, int, ...);                             \
		char b[4096];                                                          \
		va_list a;                                                             \
		va_start(a, flags);                                                    \
		int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0;       \
		va_end(a);                                                             \
		if (!real)                                                             \
			real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, #name); \
		return real(moved(path, b), flags, mode);                              \
	}
OPEN(open)
OPEN(open64)

#define OPENAT(name)                                                                        \
	int name(int dir, const char* path, int flags, ...) {                               \
		static int (*real)(int, const char*, int, ...);                             \
		char b[4096];                                                               \
		va_list a;                                                                  \
		va_start(a, flags);                                                         \
		int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0;            \
		va_end(a);                                                                  \
		if (!real)                                                                  \
			real = (int (*)(int, const char*, int, ...))dlsym(RTLD_NEXT, #name); \
		return real(dir, moved(path, b), flags, mode);                              \
	}
OPENAT(openat)
OPENAT(openat64)

#define FOPEN(name)                                                                       \
	FILE* name(const char* path, const char* mode) {                                  \
		static FILE* (*real)(const char*, const char*);                           \
		char b[4096];                                                             \
		if (!real)                                                                \
			real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, #name); \
		return real(moved(path, b), mode);                                        \
	}
FOPEN(fopen)
FOPEN(fopen64)

#define STAT(name, type)                                                                \
	int name(const char* path, struct type* st) {                                   \
		static int (*real)(const char*, struct type*);                          \
		char b[4096];                                                           \
		if (!real)                                                              \
			real = (int (*)(const char*, struct type*))dlsym(RTLD_NEXT, #name); \
		return real(moved(path, b), st);                                        \
	}
STAT(stat, stat)
STAT(stat64, stat64)
STAT(lstat, stat)
STAT(lstat64, stat64)

#define STATAT(name, type)                                                                             \
	int name(int dir, const char* path, struct type* st, int flags) {                              \
		static int (*real)(int, const char*, struct type*, int);                               \
		char b[4096];                                                                          \
		if (!real)                                                                             \
			real = (int (*)(int, const char*, struct type*, int))dlsym(RTLD_NEXT, #name); \
		return real(dir, moved(path, b), st, flags);                                           \
	}
STATAT(fstatat, stat)
STATAT(fstatat64, stat64)

int access(const char* path, int mode) {
	static int (*real)(const char*, int);
	char b[4096];
	if (!real)
		real = (int (*)(const char*, int))dlsym(RTLD_NEXT, "access");
	return real(moved(path, b), mode);
}
