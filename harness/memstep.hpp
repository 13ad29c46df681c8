// A callback before every single access the library makes to its shared mappings: the mappings are
// kept inaccessible, an access faults, is announced, executed alone (trap flag) and the mapping is
// closed again. One thread at a time.
#pragma once
#include "wrap.hpp"
#include <errno.h>
#include <functional>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>

namespace vf {
struct MemStep {
    struct Reg { uintptr_t a; size_t len; };
    static constexpr int MAX = 512;
    static Reg* regs() { static Reg r[MAX]; return r; }
    static int& n() { static int k = 0; return k; }
    static bool& on() { static bool b = false; return b; }
    static int& open() { static int k = 0; return k; }           // regions open for the instruction under way
    static int* opened() { static int o[16]; return o; }
    static uint64_t& accesses() { static uint64_t k = 0; return k; }
    static std::function<void(uintptr_t)>& on_access() { static auto* f = new std::function<void(uintptr_t)>; return *f; }

    static void add(uintptr_t a, size_t len) {
        len = (len + 4095) / 4096 * 4096;
        if (n() >= MAX || !len) return;
        regs()[n()++] = {a, len};
        mprotect((void*)a, len, PROT_NONE);
    }
    static void forget(uintptr_t a, size_t len) {
        for (int i = 0; i < n();) if (regs()[i].a < a + len && a < regs()[i].a + regs()[i].len) { mprotect((void*)regs()[i].a, regs()[i].len, PROT_READ | PROT_WRITE); regs()[i] = regs()[--n()]; } else i++;
    }
    // from the hooks of whoever uses this
    static void before(Call& c) { if (on() && c.op == Op::munmap) forget((uintptr_t)c.ptr, c.len); }
    static void after(Call& c) { if (on() && c.op == Op::mmap && c.fd >= 0 && c.ret != -1 && c.ret != 0 && c.len < (1u << 16)) add((uintptr_t)c.ret, c.len); }
    static void start() {
        install();
        n() = 0; open() = 0; on() = true;
        for (auto& m : lib_maps()) if (m.second < (1u << 16)) add(m.first, m.second);
    }
    static void stop() {
        on() = false;
        for (int i = 0; i < n(); i++) mprotect((void*)regs()[i].a, regs()[i].len, PROT_READ | PROT_WRITE);
        n() = 0;
    }
    // true: the fault was one of ours
    static bool fault(siginfo_t* si, void* uc) {
        if (!on()) return false;
        uintptr_t a = (uintptr_t)si->si_addr;
        for (int i = 0; i < n(); i++) if (a >= regs()[i].a && a < regs()[i].a + regs()[i].len) {
            int e = errno;
            accesses()++;
            if (!open() && on_access()) on_access()(a);
            errno = e;
            // the region may have moved in the table, or be gone, meanwhile
            for (int j = 0; j < n(); j++) if (a >= regs()[j].a && a < regs()[j].a + regs()[j].len) {
                mprotect((void*)regs()[j].a, regs()[j].len, PROT_READ | PROT_WRITE);
                if (open() < 16) opened()[open()++] = j;
                ((ucontext_t*)uc)->uc_mcontext.gregs[REG_EFL] |= 0x100;
                return true;
            }
            return true;
        }
        return false;
    }
    static void trap(int, siginfo_t*, void* uc) {
        ((ucontext_t*)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100;
        for (int k = 0; k < open(); k++) mprotect((void*)regs()[opened()[k]].a, regs()[opened()[k]].len, PROT_NONE);
        open() = 0;
    }
    static void segv(int sig, siginfo_t* si, void* uc) { if (!fault(si, uc)) signal(sig, SIG_DFL); }
    static void install() {
        static bool done = false;
        if (done) return;
        done = true;
        struct sigaction sa {};
        sa.sa_sigaction = trap;
        sa.sa_flags = SA_SIGINFO | SA_NODEFER;
        sigaction(SIGTRAP, &sa, nullptr);
        struct sigaction old {};
        sigaction(SIGSEGV, nullptr, &old);
        if (old.sa_handler == SIG_DFL || !(old.sa_flags & SA_SIGINFO)) { sa.sa_sigaction = segv; sigaction(SIGSEGV, &sa, nullptr); }
    }
};
}  // namespace vf
