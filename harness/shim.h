/*
 * Force-included before every source of the library under test.
 *
 * All system headers the library (or a reasonable refactoring of it) may use
 * are included first, while the compiler still describes the host. Then the
 * host architecture macros are replaced with those of the architecture the
 * library is to be built "as", so that the ARM and RISC-V code paths run
 * natively under the host's sanitizers.
 */
#ifndef VERIF_SHIM_H
#define VERIF_SHIM_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <alloca.h>
#include <assert.h>
#include <ctype.h>
#include <dirent.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <link.h>
#include <math.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/param.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(VERIF_AS_ARM64) || defined(VERIF_AS_ARM) || defined(VERIF_AS_RISCV64) || defined(VERIF_AS_RISCV32) || \
	defined(VERIF_AS_WASM) || defined(VERIF_AS_UNKNOWN_ARCH)
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __i386__
#undef __i386
#undef i386
#undef __i486__
#undef __i586__
#undef __i686__
#undef __SSE__
#undef __SSE2__
#endif

#if defined(VERIF_AS_ARM64)
#define __aarch64__ 1
#define __ARM_ARCH 8
#elif defined(VERIF_AS_ARM)
#define __arm__ 1
#elif defined(VERIF_AS_RISCV64)
#define __riscv 1
#define __riscv_xlen 64
#elif defined(VERIF_AS_RISCV32)
#define __riscv 1
#define __riscv_xlen 32
#endif

/* other operating systems, whose few additional headers are in bsd/, wasm/ and win/ */
#if defined(VERIF_AS_FREEBSD) || defined(VERIF_AS_APPLE) || defined(VERIF_AS_WASM) || defined(VERIF_AS_WINDOWS) || \
	defined(VERIF_AS_UNKNOWN_OS)
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#endif
#if defined(VERIF_AS_FREEBSD)
#define __FreeBSD__ 14
#elif defined(VERIF_AS_APPLE)
#define __APPLE__ 1
#define __MACH__ 1
#elif defined(VERIF_AS_WINDOWS)
#define _WIN32 1
#if defined(VERIF_AS_ARM64)
#define _M_ARM64 1
#elif defined(VERIF_HOST64)
#define _WIN64 1
#define _M_X64 100
#define _M_AMD64 100
#else
#define _M_IX86 600
#endif
#elif defined(VERIF_AS_WASM)
#define __EMSCRIPTEN__ 1
#define __wasm__ 1
#define __wasm32__ 1
#ifndef VERIF_NAN_POSITIVE
#define __EMSCRIPTEN_PTHREADS__ 1
#else
/* where an invalid operation makes a NaN without sign: the NaN is there from the start */
#undef INFINITY
#define INFINITY (__builtin_nanf(""))
#endif
#endif

#ifndef AT_HWCAP
#define AT_HWCAP 16
#endif
#ifndef PR_SVE_GET_VL
#define PR_SVE_GET_VL 51
#endif
#ifndef PR_SVE_VL_LEN_MASK
#define PR_SVE_VL_LEN_MASK 0xffff
#endif

#endif
