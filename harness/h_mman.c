/* W02: src/mman.c, compiled as on 64-bit Windows against a model of the Windows calls it makes (win/windows.h). */
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include "sx.h"
#include "win/windows.h"
#include "win/io.h"
#define P(n, d) ((long)sx_param(n, d))
#define mmap w_mmap
#define munmap w_munmap
#define mprotect w_mprotect
#define msync w_msync
#define mlock w_mlock
#define munlock w_munlock
#define getpagesize w_getpagesize
#define _WIN32 1
#define _WIN64 1
#include "src/mman.c"
#undef _WIN32
#undef _WIN64

/* ---- the model: one file behind one descriptor, sections, views */
static DWORD lasterr;
static int nsec, opened, closed, bad, nview, nmapcalls, nunmap, nprot, nflush, nlock, nunlock;
static struct { HANDLE file; DWORD protect; uint64_t size; } sec;
static struct { DWORD access; uint64_t off; uint64_t len; void *at; int fixed; } view;
static struct { const void *p; size_t n; DWORD protect; } last;
static int fail_sec, fail_map, fail_op, fd_ok, fds_asked; static uint32_t errcode; static intptr_t filehandle;
static char mem[16], fixedmem[16];
#define SECTION ((HANDLE)(uintptr_t)0x5ec0)
static int page_valid(DWORD p) { return p == PAGE_READONLY || p == PAGE_READWRITE || p == PAGE_WRITECOPY || p == PAGE_EXECUTE_READ || p == PAGE_EXECUTE_READWRITE || p == PAGE_EXECUTE_WRITECOPY; }
intptr_t _get_osfhandle(int fd) { fds_asked++; if (fd != 7 || !fd_ok) return -1; return filehandle; }
HANDLE CreateFileMapping(HANDLE file, void *sa, DWORD protect, DWORD hi, DWORD lo, LPCSTR name) {
    (void)sa; (void)name;
    if (!page_valid(protect) || (file == INVALID_HANDLE_VALUE && !hi && !lo)) { lasterr = ERROR_INVALID_PARAMETER; return NULL; }
    if (file != INVALID_HANDLE_VALUE && file != (HANDLE)filehandle) { lasterr = ERROR_INVALID_HANDLE; bad++; return NULL; }
    if (fail_sec) { lasterr = errcode; return NULL; }
    nsec++; opened++; sec.file = file; sec.protect = protect; sec.size = (uint64_t)hi << 32 | lo;
    return SECTION;
}
static int allows_read(DWORD p) { return p != PAGE_NOACCESS && p != PAGE_EXECUTE; }
static int allows_write(DWORD p) { return p == PAGE_READWRITE || p == PAGE_EXECUTE_READWRITE; }
static int allows_copy(DWORD p) { return allows_write(p) || p == PAGE_WRITECOPY || p == PAGE_EXECUTE_WRITECOPY || p == PAGE_READONLY || p == PAGE_EXECUTE_READ; }
static int allows_exec(DWORD p) { return p >= PAGE_EXECUTE; }
LPVOID MapViewOfFileEx(HANDLE section, DWORD access, DWORD hi, DWORD lo, SIZE_T n, LPVOID at) {
    uint64_t off = (uint64_t)hi << 32 | lo; DWORD a = access == FILE_MAP_ALL_ACCESS ? FILE_MAP_READ | FILE_MAP_WRITE : access;
    nmapcalls++;
    if (section != SECTION || opened != 1 || closed) { lasterr = ERROR_INVALID_HANDLE; bad++; return NULL; }
    if (!(a & (FILE_MAP_READ | FILE_MAP_WRITE | FILE_MAP_COPY | FILE_MAP_EXECUTE))) { lasterr = ERROR_INVALID_PARAMETER; return NULL; }
    if (((a & FILE_MAP_WRITE) && !allows_write(sec.protect)) || ((a & FILE_MAP_EXECUTE) && !allows_exec(sec.protect)) || ((a & FILE_MAP_COPY) && !allows_copy(sec.protect))) { lasterr = ERROR_ACCESS_DENIED; return NULL; }
    if (off & 0xffff) { lasterr = ERROR_MAPPED_ALIGNMENT; return NULL; }
    if (n == 0 ? off >= sec.size : (off > sec.size || n > sec.size - off)) { lasterr = ERROR_ACCESS_DENIED; return NULL; }
    if (fail_map) { lasterr = errcode; return NULL; }
    nview++; view.access = a; view.off = off; view.len = n ? n : sec.size - off; view.at = at ? at : mem; view.fixed = at != NULL;
    return view.at;
}
LPVOID MapViewOfFile(HANDLE section, DWORD access, DWORD hi, DWORD lo, SIZE_T n) { return MapViewOfFileEx(section, access, hi, lo, n, NULL); }
BOOL CloseHandle(HANDLE h) { if (h != SECTION || closed || !opened) { bad++; return FALSE; } closed++; return TRUE; }
static BOOL op(const void *p, size_t n, DWORD protect, int *count) { last.p = p; last.n = n; last.protect = protect; (*count)++; if (fail_op) { lasterr = errcode; return FALSE; } return TRUE; }
BOOL UnmapViewOfFile(LPCVOID p) { return op(p, 0, 0, &nunmap); }
BOOL FlushViewOfFile(LPCVOID p, SIZE_T n) { return op(p, n, 0, &nflush); }
BOOL VirtualProtect(LPVOID p, SIZE_T n, DWORD protect, PDWORD old) {
    if (!old || (!page_valid(protect) && protect != PAGE_NOACCESS && protect != PAGE_EXECUTE)) { nprot++; lasterr = ERROR_INVALID_PARAMETER; return FALSE; }
    *old = PAGE_READWRITE; return op(p, n, protect, &nprot);
}
BOOL VirtualLock(LPVOID p, SIZE_T n) { return op(p, n, 0, &nlock); }
BOOL VirtualUnlock(LPVOID p, SIZE_T n) { return op(p, n, 0, &nunlock); }
DWORD GetLastError(void) { return lasterr; }
void SetLastError(DWORD e) { lasterr = e; }
static DWORD pagesize;
void GetSystemInfo(LPSYSTEM_INFO i) { memset(i, 0, sizeof *i); i->dwPageSize = pagesize; i->dwAllocationGranularity = 65536; }

static void setup(void) {
    errcode = sx_u32("lasterror"); sx_assume(errcode != 0 && errcode < 16000);
    fail_sec = sx_u8("nosection") & 1; fail_map = sx_u8("noview") & 1; fail_op = sx_u8("fails") & 1; fd_ok = sx_u8("fd_ok") & 1;
    filehandle = 0x1f0;
}
/* every length, offset, protection and kind of mapping; private file mappings and PROT_NONE have entries of their own */
static int map(int private_file, int none) {
    uint64_t len = sx_u64("len"); int64_t off = (int64_t)sx_u64("off"); int prot = sx_u8("prot") & 7, anon = sx_u8("anon") & 1, fixed = sx_u8("fixed") & 1, shared = sx_u8("shared") & 1, fd = sx_u8("fd") & 1 ? 7 : 5;
    int flags; void *r; int can;
    setup();
    sx_assume(off >= 0 && len <= (uint64_t)INT64_MAX - (uint64_t)off); /* POSIX: EINVAL or EOVERFLOW otherwise */
    if (private_file) sx_assume(!anon && !shared && (prot & PROT_WRITE)); else sx_assume(anon || shared || !(prot & PROT_WRITE));
    if (none) sx_assume(prot == PROT_NONE); else sx_assume(prot != PROT_NONE);
    flags = (shared ? MAP_SHARED : MAP_PRIVATE) | (anon ? MAP_ANONYMOUS : 0) | (fixed ? MAP_FIXED : 0);
    errno = 0x7fff;
    r = w_mmap(fixed ? fixedmem : NULL, len, prot, flags, fd, off);
    can = len != 0 && prot != PROT_EXEC && (anon || (fd == 7 && fd_ok)) && !fail_sec && !fail_map && !(off & 0xffff);
    if (none && can) sx_assert(r != MAP_FAILED, "a mapping without access can be made");
    if (none && r == MAP_FAILED) can = 0;
    sx_assert((r != MAP_FAILED) == can, "mapping succeeds exactly when it can be done");
    sx_assert(bad == 0, "handles are used and closed properly");
    sx_assert(opened == closed, "the section handle is closed exactly once");
    sx_assert(r != NULL, "never NULL");
    if (!can) {
        sx_assert(nview == 0, "a failed call maps nothing");
        sx_assert(errno != 0 && errno != 0x7fff, "a failed call says why");
        if (len == 0 || prot == PROT_EXEC) sx_assert(errno == EINVAL && nsec == 0, "unsupported arguments are refused as such");
        else if (!anon && (fd != 7 || !fd_ok)) sx_assert(errno == EBADF && nsec == 0, "a bad descriptor is refused as such");
        sx_cover_if(len == 0, "nothing"); sx_cover_if(len != 0 && !anon && !fd_ok, "descriptor"); sx_cover_if(nsec == 1, "no view");
        return 0;
    }
    sx_assert(nview == 1 && r == view.at, "one view, its address returned");
    sx_assert(view.off == (uint64_t)off, "the view starts at the offset");
    sx_assert(view.len == len, "the view has the length");
    sx_assert(anon ? sec.file == INVALID_HANDLE_VALUE : sec.file == (HANDLE)filehandle, "the view shows the file, or fresh memory");
    sx_assert(sec.size == (uint64_t)off + len, "the file is not made longer than the mapping needs");
    sx_assert(!fixed == !view.fixed && (!fixed || r == fixedmem), "a fixed mapping is where it was asked for");
    sx_assert(!(prot & PROT_READ) || (view.access & (FILE_MAP_READ | FILE_MAP_WRITE | FILE_MAP_COPY)), "readable when asked for");
    sx_assert(!!(prot & PROT_WRITE) == !!(view.access & (FILE_MAP_WRITE | FILE_MAP_COPY)), "writable exactly when asked for");
    sx_assert(!!(prot & PROT_EXEC) == !!(view.access & FILE_MAP_EXECUTE), "executable exactly when asked for");
    if (!anon && shared && (prot & PROT_WRITE)) sx_assert(view.access & FILE_MAP_WRITE, "writes to a shared mapping reach the file");
    if (private_file) sx_assert(!(view.access & FILE_MAP_WRITE), "writes to a private mapping stay private");
    sx_cover_if(!anon, "file"); sx_cover_if(anon, "memory"); sx_cover_if(fixed, "fixed"); sx_cover_if((uint64_t)off + len > 0xffffffffULL, "beyond 4 GB");
    return 0;
}
int h_map(void) { return map(0, 0); }
int h_map_private(void) { return map(1, 0); }
int h_map_none(void) { return map(0, 1); }
static int ops(int none) {
    uint64_t addr = sx_u64("addr"), len = sx_u64("len"); int prot = sx_u8("prot") & 7, k = (int)P("op", 0), r = 0; void *p = (void *)(uintptr_t)addr;
    setup(); errno = 0;
    if (none) sx_assume(prot == PROT_NONE); else sx_assume(k != 1 || prot != PROT_NONE);
    switch (k) {
        case 0: r = w_munmap(p, len); sx_assert(nunmap == 1 && last.p == p, "that view is unmapped, once"); break;
        case 1: r = w_mprotect(p, len, prot);
            sx_assert(nprot == 1, "one change"); if (none) sx_assert(r == 0 || fail_op, "removing all access works");
            if (none && last.p == NULL) break;
            sx_assert(last.p == p && last.n == len, "of that range");
            sx_assert(!!(prot & PROT_WRITE) == allows_write(last.protect), "writable exactly when asked for");
            sx_assert(!!(prot & PROT_EXEC) == allows_exec(last.protect), "executable exactly when asked for");
            if (prot & PROT_READ) sx_assert(allows_read(last.protect), "readable when asked for");
            if (none) sx_assert(last.protect == PAGE_NOACCESS, "no access");
            break;
        case 2: r = w_msync(p, len, sx_u8("how") & 7); sx_assert(nflush == 1 && last.p == p && last.n == len, "that range is flushed"); break;
        case 3: r = w_mlock(p, len); sx_assert(nlock == 1 && last.p == p && last.n == len, "that range is locked"); break;
        case 4: r = w_munlock(p, len); sx_assert(nunlock == 1 && last.p == p && last.n == len, "that range is unlocked"); break;
    }
    sx_assert(nunmap + nprot + nflush + nlock + nunlock == 1, "nothing else is done");
    sx_assert(r == (fail_op ? -1 : 0), "the result tells whether it worked");
    if (r) sx_assert(errno != 0, "a failed call says why");
    sx_cover_if(fail_op, "fails"); sx_cover_if(!fail_op, "works");
    return 0;
}
int h_ops(void) { return ops(0); }
int h_protect_none(void) { return ops(1); }
int h_page(void) {
    uint32_t v = sx_u32("pagesize"); sx_assume(v != 0 && v <= 0x7fffffff);
    pagesize = v; sx_assert(w_getpagesize() == (long)v, "the size of a page"); sx_assert(w_getpagesize() == (long)v, "again"); sx_cover("done");
    return 0;
}
