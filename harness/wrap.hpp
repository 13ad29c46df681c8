// Interposition of the OS calls the library makes (linker option --wrap), so that a monitor can
// observe, delay, fail or schedule at each of them. Only calls made inside a LibScope are reported.
#pragma once
#include <cstdint>
#include <map>
#include <semaphore.h>
#include <string>
#include <vector>

namespace vf {

enum class Op { shm_open, shm_unlink, ftruncate, mmap, munmap, close, sem_open, sem_close, sem_unlink,
                sem_wait, sem_trywait, sem_timedwait, sem_post, sleep,
                mutex_lock, mutex_trylock, mutex_unlock, cond_wait, cond_timedwait, cond_signal, cond_broadcast, fallocate, fchmod, yield, poll, N };
inline bool is_pthread(Op o) { return o >= Op::mutex_lock && o <= Op::cond_broadcast; }
const char* opname(Op);

struct Call {
    Op op;
    std::string name;        // object name where known
    void* ptr = nullptr;     // semaphore, mapping, mutex or condition variable
    void* ptr2 = nullptr;    // the mutex of a wait
    const struct timespec* deadline = nullptr;
    int fd = -1;
    size_t len = 0;
    int flags = 0, prot = 0;
    long off = 0;
    bool inject = false;     // set in before(): the call is not made and fails with err
    int err = 0;
    long ret = 0;            // in after()
    bool handled = false;    // set in before(): the call is not made and returns hret (errno err)
    long hret = 0;
    bool skip_sleep = false; // set in before() of a sleep: return at once
    long nsec = 0;           // requested duration of a sleep, if relative
};

struct Hook {
    virtual ~Hook() {}
    virtual void before(Call&) {}
    virtual void after(Call&) {}
};

extern Hook* hook;                       // process wide
extern thread_local int in_lib, in_hook;

struct LibScope { LibScope() { in_lib++; } ~LibScope() { in_lib--; } };
struct HookOff { HookOff() { in_hook++; } ~HookOff() { in_hook--; } };

// real calls
int real_sem_wait(sem_t*);
int real_sem_trywait(sem_t*);
int real_sem_post(sem_t*);
std::string sem_name(sem_t*);            // "" if unknown
std::string map_name(void*, long* off = nullptr);   // object a mapped address belongs to, "" if unknown
std::vector<std::pair<uintptr_t, size_t>> lib_maps();   // mappings the library has now
int real_mutex_trylock(void*);
int real_mutex_unlock(void*);
long futex_waits();

// ownership record of what the library opened, kept when enabled
struct Ledger {
    bool on = false;
    void reset();
    std::vector<std::string> problems();     // foreign close/unmap seen so far (cleared)
    std::map<std::string, int> units();      // the same as a multiset: "fd 7 /x", "map 0x7f.. /x", "sem /x"
    std::vector<std::string> open_now();     // what the library holds: "fd 7 /x", "map 0x.. 4096 /x", "sem /x refs 2"
};
extern Ledger ledger;

}  // namespace vf
