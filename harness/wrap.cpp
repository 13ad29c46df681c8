#include "wrap.hpp"
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <sys/select.h>
#include <stdarg.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

extern "C" {
int __real_shm_open(const char*, int, mode_t);
int __real_shm_unlink(const char*);
int __real_ftruncate(int, off_t);
int __real_ftruncate64(int, off_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __real_mmap64(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_close(int);
sem_t* __real_sem_open(const char*, int, ...);
int __real_sem_close(sem_t*);
int __real_sem_unlink(const char*);
int __real_sem_wait(sem_t*);
int __real_sem_trywait(sem_t*);
int __real_sem_timedwait(sem_t*, const struct timespec*);
int __real_sem_post(sem_t*);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __real_usleep(useconds_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_posix_fallocate(int, off_t, off_t);
int __real_fchmod(int, mode_t);
int __real_sched_yield();
int __real_poll(struct pollfd*, nfds_t, int);
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
}

namespace vf {

Hook* hook = nullptr;
thread_local int in_lib = 0, in_hook = 0;
Ledger ledger;

const char* opname(Op o) {
    static const char* n[] = {"shm_open", "shm_unlink", "ftruncate", "mmap", "munmap", "close", "sem_open", "sem_close",
                              "sem_unlink", "sem_wait", "sem_trywait", "sem_timedwait", "sem_post", "sleep", "mutex_lock", "mutex_trylock",
                              "mutex_unlock", "cond_wait", "cond_timedwait", "cond_signal", "cond_broadcast", "posix_fallocate", "fchmod", "yield", "poll", "?"};
    return n[(int)o];
}

namespace {
struct State {
    std::recursive_mutex m;
    std::map<sem_t*, std::pair<std::string, int>> sems;
    std::map<int, std::string> fds;
    struct Map { size_t len; std::string name; };
    std::map<uintptr_t, Map> maps;
    std::vector<std::string> problems;
};
State& S() { static State* s = new State; return *s; }
struct Lk { HookOff off; std::lock_guard<std::recursive_mutex> g{S().m}; };

bool active() { return in_lib > 0 && in_hook == 0 && hook; }
bool tracked() { return in_lib > 0; }

template <class F> long around(Call& c, F real, long failval) {
    if (!active()) {
        long r = real();
        c.ret = r;
        return r;
    }
    Hook* h = hook;
    in_hook++;
    h->before(c);
    in_hook--;
    long r;
    int e = 0;
    if (c.inject) { r = failval; e = c.err; }
    else if (c.handled) { r = c.hret; e = c.err; }
    else { errno = 0; r = real(); e = errno; }
    c.ret = r; c.err = e;
    in_hook++;
    h->after(c);
    in_hook--;
    errno = e;
    return r;
}
}  // namespace

int real_sem_wait(sem_t* s) { return __real_sem_wait(s); }
int real_sem_trywait(sem_t* s) { return __real_sem_trywait(s); }
int real_sem_post(sem_t* s) { return __real_sem_post(s); }
std::string sem_name(sem_t* s) {
    Lk l;
    auto it = S().sems.find(s);
    return it == S().sems.end() ? "" : it->second.first;
}

std::vector<std::pair<uintptr_t, size_t>> lib_maps() { Lk l; std::vector<std::pair<uintptr_t, size_t>> v; for (auto& m : S().maps) v.push_back({m.first, m.second.len}); return v; }
std::string map_name(void* p, long* off) {
    Lk l;
    auto it = S().maps.upper_bound((uintptr_t)p);
    if (it == S().maps.begin()) return "";
    --it;
    if ((uintptr_t)p >= it->first + it->second.len) return "";
    if (off) *off = (long)((uintptr_t)p - it->first);
    return it->second.name;
}
int real_mutex_trylock(void* m) { return __real_pthread_mutex_trylock((pthread_mutex_t*)m); }
int real_mutex_unlock(void* m) { return __real_pthread_mutex_unlock((pthread_mutex_t*)m); }

void Ledger::reset() { Lk l; S().problems.clear(); S().fds.clear(); S().maps.clear(); S().sems.clear(); }
std::vector<std::string> Ledger::problems() { Lk l; auto p = S().problems; S().problems.clear(); return p; }
std::map<std::string, int> Ledger::units() {
    Lk l;
    std::map<std::string, int> v;
    char b[600];
    for (auto& f : S().fds) { snprintf(b, sizeof b, "descriptor %d of %s", f.first, f.second.c_str()); v[b]++; }
    for (auto& m : S().maps) { snprintf(b, sizeof b, "mapping %p of %s", (void*)m.first, m.second.name.c_str()); v[b]++; }
    for (auto& s : S().sems) v["semaphore " + s.second.first] += s.second.second;
    return v;
}
std::vector<std::string> Ledger::open_now() {
    Lk l;
    std::vector<std::string> v;
    char b[600];
    for (auto& f : S().fds) { snprintf(b, sizeof b, "fd %d %s", f.first, f.second.c_str()); v.push_back(b); }
    for (auto& m : S().maps) { snprintf(b, sizeof b, "map %zu bytes of %s", m.second.len, m.second.name.c_str()); v.push_back(b); }
    for (auto& s : S().sems) { snprintf(b, sizeof b, "sem %s refs %d", s.second.first.c_str(), s.second.second); v.push_back(b); }
    return v;
}

}  // namespace vf

using namespace vf;

extern "C" {

int __wrap_shm_open(const char* name, int oflag, mode_t mode) {
    Call c{Op::shm_open}; c.name = name; c.flags = oflag;
    long r = around(c, [&] { return (long)__real_shm_open(name, oflag, mode); }, -1);
    if (tracked() && r >= 0) { Lk l; S().fds[(int)r] = name; }
    return (int)r;
}
int __wrap_shm_unlink(const char* name) {
    Call c{Op::shm_unlink}; c.name = name;
    return (int)around(c, [&] { return (long)__real_shm_unlink(name); }, -1);
}
static int wrap_ftruncate(int fd, off_t len) {
    Call c{Op::ftruncate}; c.fd = fd; c.len = (size_t)len;
    if (tracked()) { Lk l; auto it = S().fds.find(fd); if (it != S().fds.end()) c.name = it->second; }
    return (int)around(c, [&] { return (long)__real_ftruncate(fd, len); }, -1);
}
int __wrap_ftruncate(int fd, off_t len) { return wrap_ftruncate(fd, len); }
int __wrap_ftruncate64(int fd, off_t len) { return wrap_ftruncate(fd, len); }
static void* wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
    if (fd < 0) return __real_mmap(a, len, prot, flags, fd, off);
    Call c{Op::mmap}; c.fd = fd; c.len = len; c.flags = flags; c.prot = prot; c.off = off;
    if (tracked()) { Lk l; auto it = S().fds.find(fd); if (it != S().fds.end()) c.name = it->second; }
    long r = around(c, [&] { return (long)__real_mmap(a, len, prot, flags, fd, off); }, -1);
    if (tracked() && r != -1) { Lk l; S().maps[(uintptr_t)r] = {(len + 4095) / 4096 * 4096, c.name}; }
    return (void*)r;
}
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) { return wrap_mmap(a, len, prot, flags, fd, off); }
void* __wrap_mmap64(void* a, size_t len, int prot, int flags, int fd, off_t off) { return wrap_mmap(a, len, prot, flags, fd, off); }
int __wrap_munmap(void* a, size_t len) {
    Call c{Op::munmap}; c.ptr = a; c.len = len;
    if (tracked()) {
        Lk l;
        auto it = S().maps.find((uintptr_t)a);
        char b[300];
        size_t ln = (len + 4095) / 4096 * 4096;
        if (it == S().maps.end()) {
            if (ledger.on) { snprintf(b, sizeof b, "munmap(%p, %zu) of memory the library did not map", a, len); S().problems.push_back(b); }
        } else {
            c.name = it->second.name;
            if (ln > it->second.len && ledger.on) { snprintf(b, sizeof b, "munmap of %zu bytes of a mapping of %zu bytes (%s)", len, it->second.len, c.name.c_str()); S().problems.push_back(b); }
            if (ln >= it->second.len) S().maps.erase(it);
            else { State::Map rest{it->second.len - ln, it->second.name}; S().maps.erase(it); S().maps[(uintptr_t)a + ln] = rest; }
        }
    }
    return (int)around(c, [&] { return (long)__real_munmap(a, len); }, -1);
}
int __wrap_close(int fd) {
    Call c{Op::close}; c.fd = fd;
    if (tracked()) {
        Lk l;
        auto it = S().fds.find(fd);
        if (it == S().fds.end()) {
            if (ledger.on) S().problems.push_back("close(" + std::to_string(fd) + ") of a descriptor the library does not own");
        } else { c.name = it->second; S().fds.erase(it); }
    }
    return (int)around(c, [&] { return (long)__real_close(fd); }, -1);
}
sem_t* __wrap_sem_open(const char* name, int oflag, ...) {
    mode_t mode = 0; unsigned value = 0;
    if (oflag & O_CREAT) { va_list ap; va_start(ap, oflag); mode = va_arg(ap, mode_t); value = va_arg(ap, unsigned); va_end(ap); }
    Call c{Op::sem_open}; c.name = name; c.flags = oflag;
    long r = around(c, [&] { return (long)(oflag & O_CREAT ? __real_sem_open(name, oflag, mode, value) : __real_sem_open(name, oflag)); }, (long)SEM_FAILED);
    if (tracked() && (sem_t*)r != SEM_FAILED) { Lk l; auto& e = S().sems[(sem_t*)r]; e.first = name; e.second++; }
    return (sem_t*)r;
}
int __wrap_sem_close(sem_t* s) {
    Call c{Op::sem_close}; c.ptr = s; c.name = tracked() ? sem_name(s) : "";
    if (tracked()) {
        Lk l;
        auto it = S().sems.find(s);
        if (it == S().sems.end()) { if (ledger.on) { S().problems.push_back("sem_close of a semaphore the library does not hold"); return -1; } }
        else if (--it->second.second == 0) S().sems.erase(it);
    }
    return (int)around(c, [&] { return (long)__real_sem_close(s); }, -1);
}
int __wrap_sem_unlink(const char* name) {
    Call c{Op::sem_unlink}; c.name = name;
    return (int)around(c, [&] { return (long)__real_sem_unlink(name); }, -1);
}
int __wrap_sem_wait(sem_t* s) {
    Call c{Op::sem_wait}; c.ptr = s; if (active()) c.name = sem_name(s);
    return (int)around(c, [&] { return (long)__real_sem_wait(s); }, -1);
}
int __wrap_sem_trywait(sem_t* s) {
    Call c{Op::sem_trywait}; c.ptr = s; if (active()) c.name = sem_name(s);
    return (int)around(c, [&] { return (long)__real_sem_trywait(s); }, -1);
}
int __wrap_sem_timedwait(sem_t* s, const struct timespec* t) {
    Call c{Op::sem_timedwait}; c.ptr = s; c.deadline = t; if (active()) c.name = sem_name(s);
    return (int)around(c, [&] { return (long)__real_sem_timedwait(s, t); }, -1);
}
int __wrap_sem_post(sem_t* s) {
    Call c{Op::sem_post}; c.ptr = s; if (active()) c.name = sem_name(s);
    return (int)around(c, [&] { return (long)__real_sem_post(s); }, -1);
}
static int pth(Call& c, int (*f)(Call&)) {
    if (!active()) return f(c);
    Hook* h = hook;
    c.name = map_name(c.ptr);
    in_hook++; h->before(c); in_hook--;
    int r = c.inject ? c.err : c.handled ? (int)c.hret : f(c);
    c.ret = r;
    in_hook++; h->after(c); in_hook--;
    return r;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!active()) return __real_pthread_mutex_lock(m); Call c{Op::mutex_lock}; c.ptr = m; return pth(c, [](Call& c) { return __real_pthread_mutex_lock((pthread_mutex_t*)c.ptr); }); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!active()) return __real_pthread_mutex_trylock(m); Call c{Op::mutex_trylock}; c.ptr = m; return pth(c, [](Call& c) { return __real_pthread_mutex_trylock((pthread_mutex_t*)c.ptr); }); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!active()) return __real_pthread_mutex_unlock(m); Call c{Op::mutex_unlock}; c.ptr = m; return pth(c, [](Call& c) { return __real_pthread_mutex_unlock((pthread_mutex_t*)c.ptr); }); }
int __wrap_pthread_cond_wait(pthread_cond_t* v, pthread_mutex_t* m) { if (!active()) return __real_pthread_cond_wait(v, m); Call c{Op::cond_wait}; c.ptr = v; c.ptr2 = m; return pth(c, [](Call& c) { return __real_pthread_cond_wait((pthread_cond_t*)c.ptr, (pthread_mutex_t*)c.ptr2); }); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* v, pthread_mutex_t* m, const struct timespec* t) { if (!active()) return __real_pthread_cond_timedwait(v, m, t); Call c{Op::cond_timedwait}; c.ptr = v; c.ptr2 = m; c.deadline = t; return pth(c, [](Call& c) { return __real_pthread_cond_timedwait((pthread_cond_t*)c.ptr, (pthread_mutex_t*)c.ptr2, c.deadline); }); }
int __wrap_pthread_cond_signal(pthread_cond_t* v) { if (!active()) return __real_pthread_cond_signal(v); Call c{Op::cond_signal}; c.ptr = v; return pth(c, [](Call& c) { return __real_pthread_cond_signal((pthread_cond_t*)c.ptr); }); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* v) { if (!active()) return __real_pthread_cond_broadcast(v); Call c{Op::cond_broadcast}; c.ptr = v; return pth(c, [](Call& c) { return __real_pthread_cond_broadcast((pthread_cond_t*)c.ptr); }); }
int __wrap_posix_fallocate(int fd, off_t o, off_t n) {
    Call c{Op::fallocate}; c.fd = fd; c.off = o; c.len = (size_t)n;
    if (!active()) return __real_posix_fallocate(fd, o, n);
    Hook* h = hook;
    { Lk l; auto it = S().fds.find(fd); if (it != S().fds.end()) c.name = it->second; }
    in_hook++; h->before(c); in_hook--;
    int r = c.inject ? c.err : __real_posix_fallocate(fd, o, n);
    c.ret = r; in_hook++; h->after(c); in_hook--;
    return r;
}
int __wrap_fchmod(int fd, mode_t m) {
    Call c{Op::fchmod}; c.fd = fd;
    return (int)around(c, [&] { return (long)__real_fchmod(fd, m); }, -1);
}
int __wrap_sched_yield() {
    if (!active()) return __real_sched_yield();
    Call c{Op::yield};
    return (int)around(c, [&] { return (long)__real_sched_yield(); }, -1);
}
int __wrap_poll(struct pollfd* f, nfds_t n, int t) {
    if (!active()) return __real_poll(f, n, t);
    Call c{Op::poll};
    return (int)around(c, [&] { return (long)__real_poll(f, n, t); }, -1);
}
int __wrap_select(int n, fd_set* a, fd_set* b, fd_set* d, struct timeval* t) {
    if (!active()) return __real_select(n, a, b, d, t);
    Call c{Op::poll};
    return (int)around(c, [&] { return (long)__real_select(n, a, b, d, t); }, -1);
}
static long do_sleep(Call& c, long (*f)(void*), void* arg) {
    if (!active()) return f(arg);
    Hook* h = hook;
    in_hook++; h->before(c); in_hook--;
    long r = c.skip_sleep ? 0 : f(arg);
    in_hook++; h->after(c); in_hook--;
    return r;
}
int __wrap_nanosleep(const struct timespec* t, struct timespec* rem) {
    Call c{Op::sleep};
    c.nsec = t->tv_sec * 1000000000l + t->tv_nsec;
    struct A { const timespec* t; timespec* r; } a{t, rem};
    return (int)do_sleep(c, [](void* p) { A* a = (A*)p; return (long)__real_nanosleep(a->t, a->r); }, &a);
}
int __wrap_clock_nanosleep(clockid_t k, int fl, const struct timespec* t, struct timespec* rem) {
    Call c{Op::sleep};
    if (!(fl & TIMER_ABSTIME)) c.nsec = t->tv_sec * 1000000000l + t->tv_nsec;
    struct A { clockid_t k; int fl; const timespec* t; timespec* r; } a{k, fl, t, rem};
    return (int)do_sleep(c, [](void* p) { A* a = (A*)p; return (long)__real_clock_nanosleep(a->k, a->fl, a->t, a->r); }, &a);
}
int __wrap_usleep(useconds_t u) {
    Call c{Op::sleep};
    c.nsec = u * 1000l;
    return (int)do_sleep(c, [](void* p) { return (long)__real_usleep(*(useconds_t*)p); }, &u);
}

}  // extern "C"
