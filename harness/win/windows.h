/* The part of the Windows interface that a library describing processors uses; answered by harness.c. */
#ifndef VERIF_WINDOWS_H
#define VERIF_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <wchar.h>

#define __int64 long long
#define WINAPI
#define CALLBACK
#define ANYSIZE_ARRAY 1
#define TRUE 1
#define FALSE 0
typedef int BOOL;
typedef unsigned char BYTE, BOOLEAN;
typedef uint16_t WORD;
typedef uint32_t DWORD, ULONG, UINT;
typedef int32_t LONG, LSTATUS;
typedef uint64_t DWORD64, ULONGLONG;
typedef uintptr_t KAFFINITY, ULONG_PTR, DWORD_PTR;
typedef size_t SIZE_T;
typedef void *PVOID, *LPVOID, *HANDLE, *HMODULE, *HKEY;
typedef const void* LPCVOID;
typedef DWORD* LPDWORD;
typedef wchar_t WCHAR;
typedef const wchar_t* LPCWSTR;
typedef char* LPSTR;
typedef const char* LPCSTR;
typedef void (*FARPROC)(void);

#ifndef max
#define max(a, b) (((a) > (b)) ? (a) : (b))
#endif
#ifndef min
#define min(a, b) (((a) < (b)) ? (a) : (b))
#endif
#define ZeroMemory(p, n) memset((p), 0, (n))
#define CopyMemory(d, s, n) memcpy((d), (s), (n))
#define MemoryBarrier() __sync_synchronize()
#define ERROR_SUCCESS 0
#define ERROR_FILE_NOT_FOUND 2
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_GEN_FAILURE 31
#define ERROR_INVALID_PARAMETER 87
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_MORE_DATA 234
#define ERROR_NO_UNICODE_TRANSLATION 1113
#define ERROR_UNSUPPORTED_TYPE 1630
#define CP_UTF8 65001
#define WC_ERR_INVALID_CHARS 0x80
#define HEAP_ZERO_MEMORY 8
#define STD_INPUT_HANDLE ((DWORD)-10)
#define STD_OUTPUT_HANDLE ((DWORD)-11)
#define STD_ERROR_HANDLE ((DWORD)-12)
#define ALL_PROCESSOR_GROUPS 0xffff
#define HKEY_LOCAL_MACHINE ((HKEY)(uintptr_t)0x80000002u)
#define RRF_RT_REG_SZ 0x2
#define RRF_RT_REG_BINARY 0x8
#define RRF_RT_REG_DWORD 0x10
#define RRF_RT_REG_QWORD 0x40
#define RRF_RT_ANY 0xffff
#define REG_SZ 1
#define REG_BINARY 3
#define REG_DWORD 4
#define REG_QWORD 11
#define PF_ARM_VFP_32_REGISTERS_AVAILABLE 18
#define PF_ARM_NEON_INSTRUCTIONS_AVAILABLE 19
#define PF_ARM_DIVIDE_INSTRUCTION_AVAILABLE 24
#define PF_ARM_64BIT_LOADSTORE_ATOMIC 25
#define PF_ARM_FMAC_INSTRUCTIONS_AVAILABLE 27
#define PF_ARM_V8_INSTRUCTIONS_AVAILABLE 29
#define PF_ARM_V8_CRYPTO_INSTRUCTIONS_AVAILABLE 30
#define PF_ARM_V8_CRC32_INSTRUCTIONS_AVAILABLE 31
#define PF_ARM_V81_ATOMIC_INSTRUCTIONS_AVAILABLE 34
#define PF_ARM_V82_DP_INSTRUCTIONS_AVAILABLE 43
#define PF_ARM_V83_JSCVT_INSTRUCTIONS_AVAILABLE 44
#define PF_ARM_V83_LRCPC_INSTRUCTIONS_AVAILABLE 45

typedef struct {
	DWORD dwOemId, dwPageSize;
	LPVOID lpMinimumApplicationAddress, lpMaximumApplicationAddress;
	DWORD_PTR dwActiveProcessorMask;
	DWORD dwNumberOfProcessors, dwProcessorType, dwAllocationGranularity;
	WORD wProcessorLevel, wProcessorRevision;
} SYSTEM_INFO, *LPSYSTEM_INFO;

typedef enum {
	RelationProcessorCore,
	RelationNumaNode,
	RelationCache,
	RelationProcessorPackage,
	RelationGroup,
	RelationProcessorDie,
	RelationNumaNodeEx,
	RelationProcessorModule,
	RelationAll = 0xffff
} LOGICAL_PROCESSOR_RELATIONSHIP;
typedef enum { CacheUnified, CacheInstruction, CacheData, CacheTrace, CacheUnknown } PROCESSOR_CACHE_TYPE;
#define CACHE_FULLY_ASSOCIATIVE 0xFF
#define LTP_PC_SMT 1
typedef struct {
	KAFFINITY Mask;
	WORD Group;
	WORD Reserved[3];
} GROUP_AFFINITY, *PGROUP_AFFINITY;
typedef struct {
	BYTE Flags;
	BYTE EfficiencyClass;
	BYTE Reserved[20];
	WORD GroupCount;
	GROUP_AFFINITY GroupMask[ANYSIZE_ARRAY];
} PROCESSOR_RELATIONSHIP, *PPROCESSOR_RELATIONSHIP;
typedef struct {
	BYTE Level;
	BYTE Associativity;
	WORD LineSize;
	DWORD CacheSize;
	PROCESSOR_CACHE_TYPE Type;
	BYTE Reserved[18];
	WORD GroupCount;
	union {
		GROUP_AFFINITY GroupMask;
		GROUP_AFFINITY GroupMasks[ANYSIZE_ARRAY];
	};
} CACHE_RELATIONSHIP, *PCACHE_RELATIONSHIP;
typedef struct {
	LOGICAL_PROCESSOR_RELATIONSHIP Relationship;
	DWORD Size;
	union {
		PROCESSOR_RELATIONSHIP Processor;
		CACHE_RELATIONSHIP Cache;
	};
} SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, *PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX;

typedef struct {
	int state;
} INIT_ONCE, *PINIT_ONCE, *LPINIT_ONCE;
#define INIT_ONCE_STATIC_INIT {0}
typedef BOOL(CALLBACK* PINIT_ONCE_FN)(PINIT_ONCE, PVOID, PVOID*);

BOOL InitOnceExecuteOnce(PINIT_ONCE, PINIT_ONCE_FN, PVOID, LPVOID*);
HANDLE GetProcessHeap(void);
LPVOID HeapAlloc(HANDLE, DWORD, SIZE_T);
BOOL HeapFree(HANDLE, DWORD, LPVOID);
DWORD GetLastError(void);
void SetLastError(DWORD);
WORD GetMaximumProcessorGroupCount(void);
WORD GetActiveProcessorGroupCount(void);
DWORD GetMaximumProcessorCount(WORD);
DWORD GetActiveProcessorCount(WORD);
BOOL GetLogicalProcessorInformationEx(LOGICAL_PROCESSOR_RELATIONSHIP, PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, LPDWORD);
HMODULE GetModuleHandleW(LPCWSTR);
FARPROC GetProcAddress(HMODULE, LPCSTR);
BOOL IsProcessorFeaturePresent(DWORD);
void GetSystemInfo(LPSYSTEM_INFO);
LSTATUS RegGetValueW(HKEY, LPCWSTR, LPCWSTR, DWORD, LPDWORD, PVOID, LPDWORD);
int WideCharToMultiByte(UINT, DWORD, LPCWSTR, int, LPSTR, int, LPCSTR, BOOL*);
int wcsncpy_s(wchar_t*, size_t, const wchar_t*, size_t);
HANDLE GetStdHandle(DWORD);
BOOL WriteFile(HANDLE, LPCVOID, DWORD, LPDWORD, void*);

static inline unsigned char _BitScanForward(unsigned long* i, unsigned long m) {
	if (!(uint32_t)m)
		return 0;
	*i = (unsigned long)__builtin_ctz((uint32_t)m);
	return 1;
}
static inline unsigned char _BitScanForward64(unsigned long* i, unsigned __int64 m) {
	if (!m)
		return 0;
	*i = (unsigned long)__builtin_ctzll(m);
	return 1;
}
#endif
