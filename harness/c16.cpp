// C16: reads and writes never block and never allocate.
#include "vf.hpp"
#include "wrap.hpp"
#include <EigenIPC/Client.hpp>
#include <EigenIPC/Helpers.hpp>
#include <EigenIPC/Server.hpp>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <stddef.h>
#include <sys/syscall.h>
#include <ucontext.h>
using namespace vf;
using namespace EigenIPC;
using V = Journal::VLevel;

// ---- every allocation of the process ---------------------------------------------------------------
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}
static thread_local int watch = 0;
static thread_local uint64_t n_alloc = 0, n_free = 0;
extern "C" {
void* malloc(size_t n) { if (watch) n_alloc++; return __libc_malloc(n); }
void free(void* p) { if (watch && p) n_free++; __libc_free(p); }
void* calloc(size_t a, size_t b) { if (watch) n_alloc++; return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (watch) n_alloc++; return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { if (watch) n_alloc++; return __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { if (watch) n_alloc++; return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { if (watch) n_alloc++; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
}

// ---- every OS call that can wait -------------------------------------------------------------------
struct Waits : Hook {
    int waits = 0, tries = 0; char what[64] = "";
    void before(Call& c) override {
        switch (c.op) {
            case Op::sem_wait: case Op::sem_timedwait: case Op::sleep: case Op::cond_wait: case Op::cond_timedwait: case Op::yield: case Op::poll:
                waits++; strncpy(what, opname(c.op), 63); break;
            default: break;
        }
    }
    void after(Call& c) override { if (c.op == Op::sem_trywait && c.ret != 0) tries++; }
};

enum F { F_WHOLE, F_BLOCK, F_MAP, F_VEC, F_VIEW, F_STRIDED, F_N };
static const char* fname[] = {"whole", "block", "map", "vector", "view", "strided view"};

template <class S, int L> struct Args {
    Tensor<S, L> whole, big;
    std::vector<char> raw;
    Eigen::Matrix<S, 1, Eigen::Dynamic, Eigen::RowMajor> rv;
    Eigen::Matrix<S, Eigen::Dynamic, 1> cv;
    int r, c;
    Args(int r_, int c_) : whole(r_, c_), big(r_ + 3, c_ + 2), raw(sizeof(S) * (size_t)(r_ + 2) * (c_ + 2) * 3 + 64), rv(c_), cv(r_), r(r_), c(c_) {
        whole.setZero(); big.setZero(); rv.setZero(); cv.setZero();
    }
};
// one library call with arguments made before; nothing here allocates
template <class S, int L, class E> bool call(E& e, bool wr, int f, Args<S, L>& a, int row, int col) {
    switch (f) {
        case F_WHOLE: return wr ? e.write(a.whole, row, col) : e.read(a.whole, row, col);
        case F_BLOCK: return wr ? e.write(a.big.block(1, 1, a.r, a.c), row, col) : e.read(a.big.block(1, 1, a.r, a.c), row, col);
        case F_MAP: { Eigen::Map<Tensor<S, L>> m((S*)a.raw.data(), a.r, a.c); return wr ? e.write(m, row, col) : e.read(m, row, col); }
        case F_VEC:
            if constexpr (L == RowMajor) return wr ? e.write(TRef<S, L>(a.rv), row, col) : e.read(TRef<S, L>(a.rv), row, col);
            else return wr ? e.write(TRef<S, L>(a.cv), row, col) : e.read(TRef<S, L>(a.cv), row, col);
        case F_VIEW: { TensorView<S, L> v(a.big.data() + 1, a.r, a.c, DStrides(a.big.outerStride(), 1)); return wr ? e.write(v, row, col) : e.read(v, row, col); }
        default: { int in = L == RowMajor ? a.c : a.r; TensorView<S, L> v((S*)a.raw.data(), a.r, a.c, DStrides(in * 2 + 1, 2)); return wr ? e.write(v, row, col) : e.read(v, row, col); }
    }
}

struct Obs { bool ok = false, threw = false; uint64_t al = 0, fr = 0; int waits = 0, tries = 0; double us = 0; const char* what = ""; };
static Waits W;
static const std::string BN = "a_rather_long_basename_of_a_tensor";
template <class Fn> Obs observe(Fn fn, bool hooks) {
    Obs o;
    W.waits = W.tries = 0;
    Hook* old = hook;
    hook = hooks ? &W : nullptr;
    double t0;
    if (hooks) {
        LibScope l;
        t0 = now();
        try { o.ok = fn(); } catch (...) { o.threw = true; }
    } else {
        t0 = now();
        n_alloc = n_free = 0;
        watch = 1;
        try { o.ok = fn(); } catch (...) { o.threw = true; }
        watch = 0;
    }
    o.us = (now() - t0) * 1e6;
    hook = old;
    o.al = n_alloc; o.fr = n_free; o.waits = W.waits; o.tries = W.tries; o.what = W.what;
    return o;
}
enum Sit { OK, RANGE, LOCKED };
static const char* sname[] = {"successful", "refused for range", "refused for the lock"};

template <class S, int L> struct Runner {
    static void judge(Ctx& c, const char* who, bool wr, int f, int r, int cc, Sit s, const Obs& o, bool hooks, bool must = true) {
        std::string d = fmt("a %s of a %dx%d %s through %s (%s)", wr ? "write" : "read", r, cc, fname[f], who, sname[s]);
        if (must && o.ok != (s == OK)) c.fail("result", "%s %s", d.c_str(), o.ok ? "succeeded" : o.threw ? "raised" : "failed");
        if (!hooks && (o.al || o.fr)) c.fail("allocation", "%s made %llu allocations and %llu releases", d.c_str(), (unsigned long long)o.al, (unsigned long long)o.fr);
        if (hooks && o.waits) c.fail("waiting", "%s called %s", d.c_str(), o.what);
        if (hooks && o.tries > 2) c.fail("waiting", "%s tried to take the lock %d times", d.c_str(), o.tries);
        c.count(fmt("operations %s", sname[s]));
    }
    template <class E> static void all(Ctx& c, E& e, const char* who, int R, int C, Sit s, bool safe, uint64_t key) {
        std::vector<std::pair<int, int>> sh{{R, C}, {1, 1}, {R, 1}, {1, C}};
        if (R > 2 && C > 2) sh.push_back({R - 1, C - 2});
        for (auto& x : sh) {
            int r = x.first, q = x.second;
            Args<S, L> a(r, q);
            for (int f = 0; f < F_N; f++) {
                if (f == F_VEC && !(L == RowMajor ? r == 1 : q == 1)) continue;
                for (int wr = 0; wr < 2; wr++) {
                    std::vector<std::pair<int, int>> at;
                    if (s == RANGE) at = {{-1, 0}, {0, -1}, {R, 0}, {0, C}, {R - r + 1, 0}, {0, C - q + 1}, {INT_MAX, INT_MAX}, {INT_MIN, 0}};
                    else at = {{R - r, C - q}};
                    for (auto& p : at) for (int hk = 0; hk < 2; hk++) {
                        Obs o = observe([&] { return call<S, L, E>(e, wr, f, a, p.first, p.second); }, hk);
                        judge(c, who, wr, f, r, q, s, o, hk);
                        c.eval(hcomb(hcomb(key, hcomb(f * 2 + wr, r * 4096 + q)), hcomb(s * 4 + hk + safe * 64, p.first * 31 + p.second)));
                    }
                    if (s == LOCKED) {
                        double least = 1e12;
                        for (int k = 0; k < 6; k++) least = std::min(least, observe([&] { return call<S, L, E>(e, wr, f, a, 0, 0); }, false).us);
                        if (least > 3000 + (double)R * C / 100) c.fail("waiting", "a %s through %s refused for the lock takes %.0f us at least", wr ? "write" : "read", who, least);
                    }
                }
            }
        }
    }
    static void go(Ctx& c, int dt) {
        std::vector<std::pair<int, int>> dims{{1, 1}, {1, 7}, {9, 1}, {3, 5}, {40, 33}, {300, 257}, {1100, 950}};
        if (c.thorough) dims.insert(dims.end(), {{2, 2}, {1, 4096}, {4096, 1}, {64, 64}, {1000, 999}, {17, 31}, {2300, 1700}, {1, 3000000}});
        for (auto& d : dims) for (int safe = 0; safe < 2; safe++) {
            std::string n = c.name();
            c.begin("%s %s %dx%d safe %d", dt == 0 ? "float" : dt == 1 ? "double" : dt == 2 ? "int" : "bool", L == RowMajor ? "row" : "col", d.first, d.second, safe);
            Server<S, L> s(d.first, d.second, BN, n, false, V::V0, false, safe);
            s.run();
            Client<S, L> k(BN, n, false, V::V0, safe), holder(BN, n, false, V::V0, true);
            k.attach();
            uint64_t key = hcomb(dt * 2 + L, d.first * 4096 + d.second);
            all(c, s, "the server", d.first, d.second, OK, safe, key);
            all(c, k, "a client", d.first, d.second, OK, safe, key + 1);
            all(c, s, "the server", d.first, d.second, RANGE, safe, key);
            all(c, k, "a client", d.first, d.second, RANGE, safe, key + 1);
            if (safe) {
                holder.attach();
                holder.dataSemAcquire();
                all(c, s, "the server", d.first, d.second, LOCKED, safe, key);
                all(c, k, "a client", d.first, d.second, LOCKED, safe, key + 1);
                holder.dataSemRelease();
                holder.close();
                s.dataSemAcquire();
                all(c, k, "a client", d.first, d.second, LOCKED, safe, key + 2);
                s.dataSemRelease();
            }
            all(c, k, "a client", d.first, d.second, OK, safe, key + 1);
            k.close(); s.close();
        }
    }
    // not ready: only that it does not wait
    template <class E> static void notready1(Ctx& c, E& e, const char* who, uint64_t key) {
        Args<S, L> a(2, 2), v(L == RowMajor ? 1 : 2, L == RowMajor ? 2 : 1);
        for (int f = 0; f < F_N; f++) for (int wr = 0; wr < 2; wr++) {
            c.tr("%s on %s", wr ? "write" : "read", who);
            Args<S, L>& x = f == F_VEC ? v : a;
            double least = 1e12;
            for (int k = 0; k < 3; k++) {
                Obs o = observe([&] { return call<S, L, E>(e, wr, f, x, 0, 0); }, true);
                if (o.waits) c.fail("waiting", "a %s of %s called %s", wr ? "write" : "read", who, o.what);
                if (o.tries > 2) c.fail("waiting", "a %s of %s tried to take the lock %d times", wr ? "write" : "read", who, o.tries);
                least = std::min(least, o.us);
            }
            if (least > 20000) c.fail("waiting", "a %s of %s takes %.0f us at least", wr ? "write" : "read", who, least);
            c.eval(hcomb(key, f * 2 + wr));
            c.count("not-ready operations");
        }
    }
    static void notready(Ctx& c, int dt) {
        for (int safe = 0; safe < 2; safe++) {
            std::string n = c.name();
            c.begin("not ready: type %d layout %d safe %d", dt, L, safe);
            uint64_t key = hcomb(9000 + dt * 2 + L, safe);
            Server<S, L> s(2, 3, BN, n, false, V::V0, false, safe);
            Client<S, L> k(BN, n, false, V::V0, safe);
            notready1(c, s, "a server which never ran", key);
            notready1(c, k, "a client which never attached", key + 1);
            s.run();
            notready1(c, k, "a client which never attached to a running server", key + 2);
            k.attach();
            Client<S, L> h(BN, n, false, V::V0, true);
            h.attach(); h.dataSemAcquire();
            Client<S, L> k2(BN, n, false, V::V0, safe);
            notready1(c, k2, "a client which never attached while another holds the lock", key + 3);
            h.dataSemRelease();
            h.close();
            k.detach();
            notready1(c, k, "a detached client", key + 4);
            k.attach();
            s.stop();
            notready1(c, s, "a stopped server", key + 5);
            notready1(c, k, "a client of a stopped server", key + 6);
            s.run();
            s.close();
            notready1(c, s, "a closed server", key + 7);
            notready1(c, k, "a client of a closed server", key + 8);
            k.close();
            notready1(c, k, "a closed client", key + 9);
        }
    }
    // other processes keep the lock busy
    static void contended(Ctx& c, int dt) {
        std::string n = c.name();
        c.begin("contended: type %d layout %d", dt, L);
        int R = 40, C = 60;
        Server<S, L> s(R, C, BN, n, false, V::V0, false, true);
        s.run();
        std::vector<Proc> ps;
        std::atomic<int>* stop = shared<std::atomic<int>>();
        for (int i = 0; i < 3; i++) ps.push_back(spawn([&] {
            Client<S, L> k(BN, n, false, V::V0, true);
            k.attach();
            Tensor<S, L> t(R, C); t.setZero();
            stop[0].fetch_add(2);
            Rng q(i); while (!(*stop & 1)) { k.write(t, 0, 0); k.read(t, 0, 0); for (volatile int z = q.in(0, 20000); z > 0; z = z - 1) {} }
            return 0;
        }));
        while (*stop < 6) msleep(0.2);
        Client<S, L> k(BN, n, false, V::V0, true);
        k.attach();
        Args<S, L> a(R, C);
        int ok = 0, no = 0, N = c.thorough ? 40000 : 6000;
        for (int i = 0; i < N; i++) {
            int f = i % 6 == F_VEC ? 0 : i % 6; bool wr = i & 8, hk = i & 16;
            Obs o = i & 32 ? observe([&] { return call<S, L, Server<S, L>>(s, wr, f, a, 0, 0); }, hk) : observe([&] { return call<S, L, Client<S, L>>(k, wr, f, a, 0, 0); }, hk);
            judge(c, "an endpoint under contention", wr, f, R, C, o.ok ? OK : LOCKED, o, hk, false);
            if (o.threw) c.fail("result", "an operation under contention raised");
            (o.ok ? ok : no)++;
            if (i % 500 == 0) c.tick();
        }
        stop[0].fetch_or(1);
        for (auto& p : ps) if (!join(p, 20)) kill9(p);
        c.count("contended successes", ok); c.count("contended refusals", no);
        c.eval(hcomb(555, dt * 2 + L));
        k.close(); s.close();
        unshare_mem(stop);
    }
};

template <class Fn> static void types(Ctx& c, int only, Fn fn) {
    (void)c;
    for (int i = 0; i < 8; i++) if (only < 0 || i == only) fn(i);
}
#define PER(fn)                                                       \
    switch (i) {                                                      \
        case 0: Runner<float, ColMajor>::fn(c, 0); break;             \
        case 1: Runner<float, RowMajor>::fn(c, 0); break;             \
        case 2: Runner<double, ColMajor>::fn(c, 1); break;            \
        case 3: Runner<double, RowMajor>::fn(c, 1); break;            \
        case 4: Runner<int, ColMajor>::fn(c, 2); break;               \
        case 5: Runner<int, RowMajor>::fn(c, 2); break;               \
        case 6: Runner<bool, ColMajor>::fn(c, 3); break;              \
        default: Runner<bool, RowMajor>::fn(c, 3); break;             \
    }
static void forms(Ctx& c) { types(c, c.shard, [&](int i) { PER(go) }); }
static void notready(Ctx& c) { types(c, c.shard, [&](int i) { PER(notready) }); }
static void contended(Ctx& c) { types(c, c.shard, [&](int i) { PER(contended) }); }

// ---- system calls, whoever makes them --------------------------------------------------------------
struct Traps { std::atomic<int> on, n, nr, done; std::atomic<uint64_t> ops, okops; char where[160]; };
static Traps* TR;
static void sigsys(int, siginfo_t* si, void* uc) {
    if (TR->on) { if (!TR->n++) TR->nr = si->si_syscall; }
    ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RAX] = -EINTR;
}
static bool filter() {
    std::vector<int> bad{SYS_nanosleep, SYS_clock_nanosleep, SYS_poll, SYS_ppoll, SYS_select, SYS_pselect6, SYS_epoll_wait, SYS_epoll_pwait, SYS_sched_yield, SYS_pause,
                         SYS_semop, SYS_semtimedop, SYS_flock, SYS_msgrcv, SYS_rt_sigtimedwait, SYS_rt_sigsuspend, SYS_wait4, SYS_mmap, SYS_munmap, SYS_mremap, SYS_brk, SYS_fsync, SYS_msync, SYS_read, SYS_recvfrom,
                         SYS_open, SYS_openat};
    std::vector<sock_filter> f;
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)));
    for (int n : bad) { f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)n, 0, 1)); f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)); }
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_futex, 0, 7));
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[1])));
    f.push_back(BPF_STMT(BPF_ALU | BPF_AND | BPF_K, 127));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, FUTEX_WAIT, 3, 0));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, FUTEX_WAIT_BITSET, 2, 0));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, FUTEX_LOCK_PI, 1, 0));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
    sock_fprog p{(unsigned short)f.size(), f.data()};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false;
    return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}
template <class S, int L> static void calls1(Ctx& c, int dt) {
    for (auto d : std::vector<std::pair<int, int>>{{3, 5}, {310, 290}}) for (int sit = 0; sit < 3; sit++) {
        std::string n = c.name();
        c.begin("system calls: type %d layout %d %dx%d %s", dt, L, d.first, d.second, sname[sit]);
        TR = shared<Traps>();
        Server<S, L> s(d.first, d.second, BN, n, false, V::V0, false, true);
        s.run();
        Client<S, L> h(BN, n, false, V::V0, true);
        h.attach();
        Proc p = spawn([&] {
            Client<S, L> k(BN, n, false, V::V0, true);
            k.attach();
            TR->done = 2;
            while (TR->done == 2) msleep(0.2);
            Args<S, L> a(d.first, d.second), v(L == RowMajor ? 1 : d.first, L == RowMajor ? d.second : 1);
            struct sigaction sa {};
            sa.sa_sigaction = sigsys; sa.sa_flags = SA_SIGINFO;
            sigaction(SIGSYS, &sa, nullptr);
            if (!filter()) _exit(77);
            for (int f = 0; f < F_N; f++) for (int wr = 0; wr < 2; wr++) for (int rep = 0; rep < 3; rep++) {
                TR->on = 1;
                bool ok = false;
                try { ok = call<S, L, Client<S, L>>(k, wr, f, f == F_VEC ? v : a, sit == RANGE ? -1 - rep : 0, sit == RANGE ? INT_MAX : 0); } catch (...) {}
                TR->on = 0;
                TR->ops++; TR->okops += ok;
                if (TR->n && !TR->where[0]) snprintf(TR->where, 160, "%s of a %s", wr ? "write" : "read", fname[f]);
            }
            TR->done = 1;
            _exit(0);
            return 0;
        });
        for (double t0 = now(); TR->done != 2 && now() - t0 < 20;) msleep(0.2);
        if (sit == LOCKED) h.dataSemAcquire();
        TR->done = 0;
        if (!join(p, 20)) { kill9(p); c.fail("waiting", "operations (%s) hang", sname[sit]); }
        else if (WIFEXITED(p.status) && WEXITSTATUS(p.status) == 77) c.count("system-call filter not available");
        else {
            if (TR->n) c.fail("waiting", "a %s (%s) made system call %d, which waits or allocates", TR->where, sname[sit], (int)TR->nr);
            if (!TR->done && !TR->n) c.fail("crash", "operations ended with status %x", p.status);
            if (TR->done && TR->okops != (sit == OK ? (uint64_t)TR->ops : 0)) c.fail("result", "%llu of %llu operations succeeded (%s)", (unsigned long long)TR->okops, (unsigned long long)TR->ops, sname[sit]);
            c.count("operations with system calls observed", TR->ops);
        }
        if (sit == LOCKED) h.dataSemRelease();
        h.close(); s.close();
        unshare_mem(TR);
        c.eval(hcomb(hcomb(777, dt * 2 + L), hcomb(sit, d.first)));
    }
}
static void calls(Ctx& c) {
    types(c, c.shard, [&](int i) {
        switch (i) {
            case 0: calls1<float, ColMajor>(c, 0); break; case 1: calls1<float, RowMajor>(c, 0); break;
            case 2: calls1<double, ColMajor>(c, 1); break; case 3: calls1<double, RowMajor>(c, 1); break;
            case 4: calls1<int, ColMajor>(c, 2); break; case 5: calls1<int, RowMajor>(c, 2); break;
            case 6: calls1<bool, ColMajor>(c, 3); break; default: calls1<bool, RowMajor>(c, 3); break;
        }
    });
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"forms", 8, 8, forms}, {"notready", 8, 8, notready}, {"contended", 8, 8, contended}, {"calls", 8, 8, calls}});
}
