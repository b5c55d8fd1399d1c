/* the parts of the Windows API the library uses, answered by the harness */
#ifndef VP_WINDOWS_H
#define VP_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
typedef uint32_t DWORD;
typedef uint16_t WORD;
typedef uint8_t BYTE;
typedef int BOOL;
typedef uint32_t ULONG;
typedef long NTSTATUS;
typedef void *HANDLE;
typedef uint64_t KAFFINITY;
#ifndef VP_NGROUPS
# define VP_NGROUPS 1
#endif
#define ERROR_INSUFFICIENT_BUFFER 122
#define ERROR_GEN_FAILURE 31
typedef enum { RelationProcessorCore, RelationNumaNode, RelationCache, RelationProcessorPackage, RelationGroup } LOGICAL_PROCESSOR_RELATIONSHIP;
typedef enum { CacheUnified, CacheInstruction, CacheData, CacheTrace } PROCESSOR_CACHE_TYPE;
typedef struct { KAFFINITY Mask; WORD Group; WORD Reserved[3]; } GROUP_AFFINITY;
typedef struct { BYTE Level, Associativity; WORD LineSize; DWORD CacheSize; PROCESSOR_CACHE_TYPE Type; BYTE Reserved[20]; GROUP_AFFINITY GroupMask; } CACHE_RELATIONSHIP;
typedef struct { BYTE MaximumProcessorCount, ActiveProcessorCount, Reserved[38]; KAFFINITY ActiveProcessorMask; } PROCESSOR_GROUP_INFO;
typedef struct { WORD MaximumGroupCount, ActiveGroupCount; BYTE Reserved[20]; PROCESSOR_GROUP_INFO GroupInfo[VP_NGROUPS]; } GROUP_RELATIONSHIP;
typedef struct { LOGICAL_PROCESSOR_RELATIONSHIP Relationship; DWORD Size; union { CACHE_RELATIONSHIP Cache; GROUP_RELATIONSHIP Group; }; } SYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX, *PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX;
BOOL GetLogicalProcessorInformationEx(LOGICAL_PROCESSOR_RELATIONSHIP r, PSYSTEM_LOGICAL_PROCESSOR_INFORMATION_EX buf, DWORD *len);
DWORD GetLastError(void);
BOOL SetThreadGroupAffinity(HANDLE h, const GROUP_AFFINITY *ga, GROUP_AFFINITY *old);
HANDLE GetCurrentThread(void);
#define ZeroMemory(p, n) vp_zero((p), (n))
void vp_zero(void *p, size_t n);
#define ALL_PROCESSOR_GROUPS 0xffff
DWORD GetActiveProcessorCount(WORD g);
typedef struct { DWORD dwPageSize; } SYSTEM_INFO;
void GetSystemInfo(SYSTEM_INFO *si);
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_RELEASE 0x8000
#define PAGE_NOACCESS 1
#define PAGE_READWRITE 4
void *VirtualAlloc(void *a, size_t n, DWORD type, DWORD prot);
BOOL VirtualProtect(void *a, size_t n, DWORD prot, DWORD *old);
BOOL VirtualFree(void *a, size_t n, DWORD type);
BOOL VirtualLock(void *a, size_t n);
BOOL VirtualUnlock(void *a, size_t n);
void SecureZeroMemory(void *p, size_t n);
#define INFINITE 0xffffffffu
DWORD WaitForSingleObject(HANDLE h, DWORD ms);
BOOL CloseHandle(HANDLE h);
#endif
