/* The part of <sys/sysctl.h> of FreeBSD and macOS that the library uses; the runner implements it. */
#ifndef VERIF_SYSCTL_H
#define VERIF_SYSCTL_H
#include <stddef.h>
#include <sys/types.h>

#define CTL_HW 6
#define HW_MACHINE 1
#define HW_MODEL 2
#define HW_NCPU 3
#define HW_CACHELINE 16
#define HW_L1ICACHESIZE 17
#define HW_L1DCACHESIZE 18
#define HW_L2SETTINGS 19
#define HW_L2CACHESIZE 20
#define HW_L3SETTINGS 21
#define HW_L3CACHESIZE 22

int sysctl(const int* name, unsigned namelen, void* oldp, size_t* oldlenp, const void* newp, size_t newlen);
int sysctlbyname(const char* name, void* oldp, size_t* oldlenp, const void* newp, size_t newlen);
#endif
