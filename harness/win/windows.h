/* Stand-in for the part of the Windows API that src/mman.c may use: a model of sections and views that records what is
asked of it. Documented behaviour only; which calls fail is up to the solver. */
#ifndef WIN_STANDIN_H
#define WIN_STANDIN_H
#include <stdint.h>
#include <stddef.h>
typedef uint32_t DWORD; typedef int BOOL; typedef void *HANDLE, *LPVOID, *PVOID; typedef const void *LPCVOID; typedef size_t SIZE_T; typedef DWORD *PDWORD, *LPDWORD; typedef const char *LPCSTR; typedef unsigned short WORD; typedef long LONG; typedef unsigned char BYTE; typedef const uint16_t *LPCWSTR; typedef uintptr_t DWORD_PTR; typedef uint32_t UINT; typedef unsigned long long ULONGLONG, DWORD64;
typedef struct { DWORD dwOemId, dwPageSize; LPVOID lpMinimumApplicationAddress, lpMaximumApplicationAddress; DWORD_PTR dwActiveProcessorMask; DWORD dwNumberOfProcessors, dwProcessorType, dwAllocationGranularity; WORD wProcessorLevel, wProcessorRevision; } SYSTEM_INFO, *LPSYSTEM_INFO;
#define WINAPI
#define TRUE 1
#define FALSE 0
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define PAGE_NOACCESS 0x01
#define PAGE_READONLY 0x02
#define PAGE_READWRITE 0x04
#define PAGE_WRITECOPY 0x08
#define PAGE_EXECUTE 0x10
#define PAGE_EXECUTE_READ 0x20
#define PAGE_EXECUTE_READWRITE 0x40
#define PAGE_EXECUTE_WRITECOPY 0x80
#define FILE_MAP_COPY 0x0001
#define FILE_MAP_WRITE 0x0002
#define FILE_MAP_READ 0x0004
#define FILE_MAP_EXECUTE 0x0020
#define FILE_MAP_ALL_ACCESS 0xf001f
#define ERROR_SUCCESS 0
#define ERROR_ACCESS_DENIED 5
#define ERROR_INVALID_HANDLE 6
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_INVALID_PARAMETER 87
#define ERROR_INVALID_ADDRESS 487
#define ERROR_MAPPED_ALIGNMENT 1132
HANDLE CreateFileMapping(HANDLE file, void *sa, DWORD protect, DWORD hi, DWORD lo, LPCSTR name);
LPVOID MapViewOfFile(HANDLE section, DWORD access, DWORD hi, DWORD lo, SIZE_T n);
LPVOID MapViewOfFileEx(HANDLE section, DWORD access, DWORD hi, DWORD lo, SIZE_T n, LPVOID at);
BOOL UnmapViewOfFile(LPCVOID p); BOOL FlushViewOfFile(LPCVOID p, SIZE_T n); BOOL CloseHandle(HANDLE h);
BOOL VirtualProtect(LPVOID p, SIZE_T n, DWORD protect, PDWORD old);
BOOL VirtualLock(LPVOID p, SIZE_T n); BOOL VirtualUnlock(LPVOID p, SIZE_T n);
DWORD GetLastError(void); void SetLastError(DWORD e); void GetSystemInfo(LPSYSTEM_INFO i);
#define CreateFileMappingA CreateFileMapping
#endif
