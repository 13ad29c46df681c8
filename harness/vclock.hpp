// A clock of the library's own: what it sees of time runs ahead of the real one by what its sleeps and
// timed waits were asked for, so that a wait of days takes no time. Included by one file of an executable.
#pragma once
#include "vf.hpp"
#include "wrap.hpp"
#include <atomic>
#include <cerrno>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace vf {
static std::atomic<long> ahead{0};       // ns
static long real_ns(clockid_t k = CLOCK_REALTIME) {
    struct timespec t; syscall(SYS_clock_gettime, k, &t);
    return t.tv_sec * 1000000000L + t.tv_nsec;
}
static long virtual_ns() { return real_ns() + ahead.load(); }
static bool in_virtual() { return in_lib && !in_hook; }
}
extern "C" int clock_gettime(clockid_t k, struct timespec* t) {
    long r = syscall(SYS_clock_gettime, k, t);
    if (r == 0 && vf::in_virtual() && k != CLOCK_PROCESS_CPUTIME_ID && k != CLOCK_THREAD_CPUTIME_ID) {
        long ns = t->tv_nsec + vf::ahead.load();
        t->tv_sec += ns / 1000000000; t->tv_nsec = ns % 1000000000;
    }
    return (int)r;
}
extern "C" int gettimeofday(struct timeval* t, void* z) noexcept {
    long r = syscall(SYS_gettimeofday, t, z);
    if (r == 0 && t && vf::in_virtual()) {
        long us = t->tv_usec + vf::ahead.load() / 1000;
        t->tv_sec += us / 1000000; t->tv_usec = us % 1000000;
    }
    return (int)r;
}
extern "C" time_t time(time_t* t) noexcept {
    time_t r = (time_t)((vf::in_virtual() ? vf::virtual_ns() : vf::real_ns()) / 1000000000);
    if (t) *t = r;
    return r;
}

namespace vf {
// timed waits end when they are due, at once; optionally they wake before, for nothing
struct Hours : Hook {
    Rng* rng = nullptr; int spurious = 0;
    std::function<void()> on_wake;                       // at each wake-up that is not a time-out
    std::atomic<long> waits{0}, wakes{0}, blocked{0}, timed{0};
    void before(Call& c) override {
        if (c.op == Op::sleep) { c.skip_sleep = true; ahead += c.nsec; return; }
        if (c.op == Op::sem_wait) blocked++;
        if (c.op == Op::sem_timedwait && c.deadline && c.deadline->tv_nsec >= 0 && c.deadline->tv_nsec < 1000000000L) {
            timed++;
            if (real_sem_trywait((sem_t*)c.ptr) == 0) { c.handled = true; c.hret = 0; return; }
            long left = c.deadline->tv_sec * 1000000000L + c.deadline->tv_nsec - virtual_ns();
            if (left > 0) ahead += left;
            c.handled = true; c.hret = -1; c.err = ETIMEDOUT;
            if (timed % 64 == 0) sched_yield();
            return;
        }
        if (c.op != Op::cond_timedwait || !c.deadline || c.deadline->tv_nsec < 0 || c.deadline->tv_nsec >= 1000000000L) return;
        long due = (long)std::min<__int128>((__int128)c.deadline->tv_sec * 1000000000 + c.deadline->tv_nsec, (__int128)1 << 62);
        long left = due - virtual_ns();
        waits++;
        c.handled = true;
        if (left > 0 && rng && spurious && rng->chance(spurious)) {
            ahead += (long)(left * (rng->in(0, 999) / 1000.0));
            c.hret = 0; wakes++;
            if (on_wake) on_wake();
            return;
        }
        if (left > 0) ahead += left;
        c.hret = ETIMEDOUT;
    }
};
}  // namespace vf
