// Maps every shared-memory object of this process once: all mappings of one object get one address,
// so that a race detector relates accesses made through different endpoints. Nothing here
// synchronises in the detector's eyes. The running flag, which clients poll, is not folded.
#include "wrap.hpp"
#include <cstdio>
#include <cstring>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace vf {
Hook* hook = nullptr;
thread_local int in_lib = 0, in_hook = 0;
}
#define NOSAN __attribute__((no_sanitize("thread"), no_sanitize_thread, noinline))
struct Seg { unsigned long dev, ino, len; void* at; };
static Seg segs[8192];
static int nsegs, lk;
static char *arena, *arena_end;          // addresses nothing else ever uses, so their history is ours
volatile unsigned long fold_hits, fold_segs;
extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
NOSAN static bool shared_object(int fd, struct stat* st) {
    if (fd < 0 || syscall(SYS_fstat, fd, st) != 0) return false;
    char l[40], b[400];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    long n = syscall(SYS_readlink, l, b, sizeof b - 1);
    if (n <= 0) return false;
    b[n] = 0;
    return strncmp(b, "/dev/shm/", 9) == 0 && !strstr(b, "_isSrvrRunning");
}
NOSAN void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
    struct stat st;
    if (!(flags & MAP_SHARED) || (flags & MAP_FIXED) || a || len == 0 || !shared_object(fd, &st)) return __real_mmap(a, len, prot, flags, fd, off);
    while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield);
    size_t ln = (off + len + 4095) / 4096 * 4096;
    char* r = nullptr;
    for (int i = nsegs - 1; i >= 0; i--) if (segs[i].dev == st.st_dev && segs[i].ino == st.st_ino && segs[i].len >= ln) { r = (char*)segs[i].at; fold_hits = fold_hits + 1; break; }
    if (!r) {
        const size_t A = 4ul << 30;
        if (!arena || arena + ln > arena_end) { arena = (char*)syscall(SYS_mmap, 0, A, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); arena_end = arena + A; }
        r = (char*)syscall(SYS_mmap, arena, ln, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
        arena += ln;
        if (r == (char*)-1) { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); return MAP_FAILED; }
        if (nsegs < 8192) segs[nsegs++] = {(unsigned long)st.st_dev, (unsigned long)st.st_ino, ln, r};
        fold_segs = fold_segs + 1;
    }
    __atomic_store_n(&lk, 0, __ATOMIC_RELEASE);
    return r + off;
}
void* __wrap_mmap64(void* a, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, len, prot, flags, fd, off); }
NOSAN int __wrap_munmap(void* a, size_t len) {
    bool ours = false;
    while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield);
    for (int i = 0; i < nsegs && !ours; i++) ours = (char*)a >= (char*)segs[i].at && (char*)a < (char*)segs[i].at + segs[i].len;
    __atomic_store_n(&lk, 0, __ATOMIC_RELEASE);
    return ours ? 0 : __real_munmap(a, len);   // kept: an address never means two objects
}
}
