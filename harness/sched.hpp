// A controlled scheduler for real library code: threads run one at a time and may be switched at
// every OS call the library makes (entry and exit) and in the middle of a copy, when the caller's
// buffer is behind a guarded page. Blocking semaphore calls and sleeps become scheduling decisions,
// so an execution is a function of the seed.
#pragma once
#include "vf.hpp"
#include "wrap.hpp"
#include "memstep.hpp"
#include <condition_variable>
#include <errno.h>
#include <mutex>
#include <thread>

namespace vf {

struct Sched : Hook {
    enum St { RUNNABLE, BLOCKED, SLEEPING, DONE };
    struct Th {
        std::string name;
        std::function<void()> fn;
        std::thread t;
        std::condition_variable cv;
        St st = RUNNABLE;
        sem_t* on = nullptr;
        std::string exc;
        bool infinite = false;
        uint64_t frozen = 0;             // not chosen before this number of choices, if others can go on
    };
    Rng rng;
    int switch_pct;
    std::vector<std::unique_ptr<Th>> ths;
    std::mutex m;
    int cur = -1;
    uint64_t steps = 0, max_steps = 200000;
    uint64_t hash = 1;
    int idle = 0;                        // consecutive sleeps/blocks without any other progress
    int max_idle = 4000;
    std::function<void(const std::string&)> on_stuck;
    std::vector<std::string> log;
    std::function<void(int th, const Call&, bool after)> observer;
    bool record = true;
    int preemptions = 0;
    int stall_permille = 15;             // a thread is sometimes stalled for long, anywhere
    uint64_t choices = 0;
    // condition variables are emulated: a waiter is woken by a signal, by chance after a deadline was
    // given, or (spurious_pct) for no reason, as POSIX allows
    struct Waiter { std::string key; int th; bool sig = false; };
    std::vector<Waiter*> waiters;
    int timeout_pct = 40, spurious_pct = 0;
    int mem_pct = 0;                     // every access to shared memory is a scheduling point, with this chance
    uint64_t n_mem = 0;
    uint64_t n_timeouts = 0, n_wakeups = 0, n_spurious = 0;
    static std::string key_of(void* p) { long off = 0; std::string n = map_name(p, &off); return n.empty() ? fmt("%p", p) : fmt("%s+%ld", n.c_str(), off); }

    Sched(uint64_t seed, int switch_pct_) : rng(seed), switch_pct(switch_pct_) {}

    void add(const std::string& name, std::function<void()> fn) {
        ths.push_back(std::make_unique<Th>());
        ths.back()->name = name;
        ths.back()->fn = fn;
    }

    static int& self() { static thread_local int id = -1; return id; }
    uint64_t now_step() { return steps; }

    void run() {
        Hook* old = hook;
        hook = this;
        if (mem_pct) {
            MemStep::on_access() = [this](uintptr_t) { if (self() >= 0 && rng.chance(mem_pct)) { n_mem++; step("access"); } };
            MemStep::start();
        }
        for (size_t i = 0; i < ths.size(); i++) {
            Th& t = *ths[i];
            t.t = std::thread([this, i, &t] {
                self() = (int)i;
                { std::unique_lock<std::mutex> l(m); t.cv.wait(l, [&] { return cur == (int)i; }); }
                try { t.fn(); }
                catch (const std::exception& e) { t.exc = e.what(); }
                std::unique_lock<std::mutex> l(m);
                t.st = DONE;
                idle = 0;
                pick(l, true);
            });
        }
        {
            std::unique_lock<std::mutex> l(m);
            cur = rng.in(0, (int)ths.size() - 1);
            ths[cur]->cv.notify_one();
        }
        for (auto& t : ths) t->t.join();
        if (mem_pct) { MemStep::stop(); MemStep::on_access() = nullptr; }
        hook = old;
    }

    // choose who goes on; called with the lock, by the running thread. must: the caller cannot go on
    void pick(std::unique_lock<std::mutex>& l, bool must) {
        int me = self();
        std::vector<int> run, sleepy, blocked;
        for (size_t i = 0; i < ths.size(); i++) {
            if (ths[i]->st == RUNNABLE) run.push_back(i);
            else if (ths[i]->st == SLEEPING) sleepy.push_back(i);
            else if (ths[i]->st == BLOCKED) blocked.push_back(i);
        }
        int next = me;
        bool me_ok = me >= 0 && ths[me]->st == RUNNABLE;
        bool stall = me_ok && ths.size() > 1 && stall_permille && (int)(rng() % 1000) < stall_permille;
        if (stall) ths[me]->frozen = choices + rng.in(10, 150);
        choices++;
        if (!must && !stall && me_ok && !rng.chance(switch_pct)) return;
        if (run.empty() || (!sleepy.empty() && rng.chance(10))) { for (int i : sleepy) run.push_back(i); }
        if (run.empty() || (!blocked.empty() && rng.chance(10))) { for (int i : blocked) run.push_back(i); }
        if (run.empty()) { cur = -1; return; }       // all done
        if (idle < 60) {
            std::vector<int> warm;
            for (int i : run) if (ths[i]->frozen <= choices) warm.push_back(i);
            if (warm.empty() && me_ok && !stall) warm.push_back(me);
            if (!warm.empty()) run = warm;
        }
        next = run[rng() % run.size()];
        if (next == me) return;
        if (me_ok) preemptions++;
        if (ths[next]->st == SLEEPING) ths[next]->st = RUNNABLE;
        cur = next;
        ths[next]->cv.notify_one();
        if (me >= 0 && ths[me]->st != DONE) ths[me]->cv.wait(l, [&] { return cur == me; });
    }

    void note(const char* what, const std::string& name) {
        hash = hcomb(hash, hcomb(self(), hstr(what)));
        steps++;
        if (record) {
            if (log.size() > 3000) log.erase(log.begin(), log.begin() + 1500);
            log.push_back(fmt("%d:%s %s", self(), what, name.c_str()));
        }
    }
    void stuck(const char* why) {
        std::string s = why;
        for (auto& t : ths) s += fmt(" [%s: %s%s]", t->name.c_str(), t->st == RUNNABLE ? "runnable" : t->st == BLOCKED ? "blocked on " : t->st == SLEEPING ? "sleeping" : "done", t->st == BLOCKED ? sem_name(t->on).c_str() : "");
        s += " log:";
        for (size_t i = log.size() > 30 ? log.size() - 30 : 0; i < log.size(); i++) s += " " + log[i];
        if (on_stuck) on_stuck(s);
        fflush(nullptr);
        _exit(1);
    }
    // a voluntary scheduling point (also used by the page-fault handler)
    void step(const char* what) {
        if (self() < 0 || hook != this) return;
        HookOff off;
        std::unique_lock<std::mutex> l(m);
        note(what, "");
        idle = 0;
        if (steps > max_steps) stuck("too many steps");
        pick(l, false);
    }
    void wait_turn(St st, sem_t* s = nullptr) {      // caller gives way
        std::unique_lock<std::mutex> l(m);
        Th& t = *ths[self()];
        t.st = st; t.on = s;
        if (++idle > max_idle) stuck("nobody makes progress");
        pick(l, true);
        t.st = RUNNABLE;
    }

    void before(Call& c) override {
        if (mem_pct) MemStep::before(c);
        if (self() < 0) return;
        if (observer) observer(self(), c, false);
        {
            std::unique_lock<std::mutex> l(m);
            note(opname(c.op), c.name);
            if (steps > max_steps) stuck("too many steps");
            if (c.op != Op::sleep) pick(l, false);
        }
        if (c.op == Op::sleep) { c.skip_sleep = true; wait_turn(SLEEPING); return; }
        if (c.op == Op::yield || c.op == Op::poll) { c.handled = true; c.hret = 0; c.err = 0; wait_turn(SLEEPING); return; }
        if (c.op == Op::sem_wait) {
            sem_t* s = (sem_t*)c.ptr;
            while (real_sem_trywait(s) != 0) wait_turn(BLOCKED, s);
            idle = 0;
            c.handled = true; c.hret = 0; c.err = 0;
        } else if (c.op == Op::sem_timedwait) {
            sem_t* s = (sem_t*)c.ptr;
            c.handled = true; c.hret = 0; c.err = 0;
            for (int k = 0; k < 3; k++) {
                if (real_sem_trywait(s) == 0) return;
                wait_turn(BLOCKED, s);
            }
            if (real_sem_trywait(s) == 0) return;
            c.hret = -1; c.err = ETIMEDOUT;
        } else if (c.op == Op::mutex_lock) {
            lock_mutex(c.ptr);
            c.handled = true; c.hret = 0;
        } else if (c.op == Op::cond_wait || c.op == Op::cond_timedwait) {
            Waiter w{key_of(c.ptr), self()};
            { std::unique_lock<std::mutex> l(m); waiters.push_back(&w); }
            real_mutex_unlock(c.ptr2);
            c.handled = true; c.hret = 0;
            for (;;) {
                wait_turn(BLOCKED);
                std::unique_lock<std::mutex> l(m);
                if (w.sig) { n_wakeups++; break; }
                if (c.op == Op::cond_timedwait && rng.chance(timeout_pct)) { c.hret = ETIMEDOUT; n_timeouts++; idle = 0; break; }
                if (spurious_pct && rng.chance(spurious_pct)) { n_spurious++; break; }
            }
            { std::unique_lock<std::mutex> l(m); waiters.erase(std::find(waiters.begin(), waiters.end(), &w)); }
            lock_mutex(c.ptr2);
        } else if (c.op == Op::cond_signal || c.op == Op::cond_broadcast) {
            std::string k = key_of(c.ptr);
            std::unique_lock<std::mutex> l(m);
            std::vector<Waiter*> v;
            for (auto* w : waiters) if (!w->sig && w->key == k) v.push_back(w);
            if (c.op == Op::cond_signal && v.size() > 1) { Waiter* one = v[rng() % v.size()]; v.assign(1, one); }
            for (auto* w : v) w->sig = true;
            if (!v.empty()) idle = 0;
            c.handled = true; c.hret = 0;
        }
    }
    void lock_mutex(void* p) { while (real_mutex_trylock(p) != 0) wait_turn(BLOCKED); idle = 0; }
    // for harness threads: let others go on until something changes
    void relax() { if (self() >= 0 && hook == this) { HookOff off; wait_turn(SLEEPING); } }
    void after(Call& c) override {
        if (mem_pct) MemStep::after(c);
        if (self() < 0) return;
        if (observer) observer(self(), c, true);
        if (c.op == Op::sleep) return;
        std::unique_lock<std::mutex> l(m);
        if (c.op == Op::sem_post) idle = 0;
        note("done", "");
        pick(l, false);
    }
};

// A caller's buffer whose pages are inaccessible when an operation starts: the copy faults once per
// page, and each fault is a callback in the middle of the real copy.
struct GuardBuf {
    uint8_t* mem = nullptr;
    size_t pages = 0;
    static std::vector<GuardBuf*>& all() { static std::vector<GuardBuf*>* v = new std::vector<GuardBuf*>; return *v; }
    static std::function<void(GuardBuf*, size_t page)>& on_fault() { static auto* f = new std::function<void(GuardBuf*, size_t)>; return *f; }
    explicit GuardBuf(size_t bytes) {
        pages = (bytes + 4095) / 4096;
        mem = (uint8_t*)mmap(nullptr, pages * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        install();
        all().push_back(this);
    }
    ~GuardBuf() {
        auto& a = all();
        a.erase(std::remove(a.begin(), a.end(), this), a.end());
        munmap(mem, pages * 4096);
    }
    GuardBuf(const GuardBuf&) = delete;
    void close(size_t from = 0, size_t to = (size_t)-1) { for (size_t p = from; p < std::min(to, pages); p++) mprotect(mem + p * 4096, 4096, PROT_NONE); }
    void open() { mprotect(mem, pages * 4096, PROT_READ | PROT_WRITE); }
    static void handler(int sig, siginfo_t* si, void* uc) {
        if (MemStep::fault(si, uc)) return;
        uint8_t* a = (uint8_t*)si->si_addr;
        for (auto* g : all())
            if (a >= g->mem && a < g->mem + g->pages * 4096) {
                size_t p = (a - g->mem) / 4096;
                int e = errno;
                mprotect(g->mem + p * 4096, 4096, PROT_READ | PROT_WRITE);
                if (on_fault()) on_fault()(g, p);
                errno = e;
                return;
            }
        signal(sig, SIG_DFL);
    }
    static void install() {
        static bool done = false;
        if (done) return;
        done = true;
        struct sigaction sa {};
        sa.sa_sigaction = handler;
        sa.sa_flags = SA_SIGINFO | SA_NODEFER;
        sigaction(SIGSEGV, &sa, nullptr);
    }
};

}  // namespace vf
