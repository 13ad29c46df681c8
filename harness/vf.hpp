// Core of the monitoring harnesses: seeded generation, isolated execution of work items with a
// crash/hang watchdog, and reporting. Header only; every harness is one binary.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <signal.h>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hcomb(uint64_t h, uint64_t v) { return mix(h * 0x100000001b3ull ^ v); }
inline uint64_t hstr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix(h);
}
inline uint64_t hbytes(const void* p, size_t n) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull;
    return mix(h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    uint64_t operator()() { return next(); }
    int in(int a, int b) { return a + (int)(next() % (uint64_t)((int64_t)b - a + 1)); }  // inclusive
    bool chance(int pct) { return (int)(next() % 100) < pct; }
    template <class V> auto& pick(V& v) { return v[next() % v.size()]; }
};

inline std::string fmtv(const char* f, va_list ap) {
    char b[4096];
    vsnprintf(b, sizeof b, f, ap);
    return b;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    va_list ap; va_start(ap, f);
    std::string s = fmtv(f, ap);
    va_end(ap);
    return s;
}
inline double now() {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
inline void msleep(double ms) {
    timespec t{(time_t)(ms / 1000), (long)((ms - 1000 * (long)(ms / 1000)) * 1e6)};
    while (syscall(230 /*clock_nanosleep*/, CLOCK_MONOTONIC, 0, &t, &t) != 0 && errno == EINTR) {}
}
inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

struct Progress {                      // shared with the watchdog
    std::atomic<uint64_t> ticks;
    std::atomic<int> patience;         // seconds without a tick before a hang is declared
    char text[2000];
};

struct Ctx {
    std::string part;
    int shard = 0, nshards = 1;
    uint64_t seed = 1;
    bool thorough = false;
    Rng rng;
    std::string prefix;                // unique prefix of all names in /dev/shm
    std::string outbase;
    Progress* prog = nullptr;
    FILE* out = nullptr;
    std::string cur;
    std::vector<std::string> trace;
    std::unordered_set<uint64_t> hashes;
    uint64_t evals = 0;
    std::map<std::string, uint64_t> counters;
    std::vector<std::string> samples;
    int nfail = 0;
    std::map<std::string, int> nknown;
    int nname = 0;
    bool trace_on = true;

    void tick() { if (prog) prog->ticks++; }
    void begin(const char* f, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, f);
        cur = fmtv(f, ap);
        va_end(ap);
        trace.clear();
        if (prog) { strncpy(prog->text, cur.c_str(), sizeof prog->text - 1); prog->ticks++; }
    }
    void tr(const char* f, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, f);
        std::string s = fmtv(f, ap);
        va_end(ap);
        if (prog) {
            std::string t = cur + " >> " + s;
            strncpy(prog->text, t.c_str(), sizeof prog->text - 1);
            prog->ticks++;
        }
        if (trace.size() > 400) trace.erase(trace.begin(), trace.begin() + 200);
        trace.push_back(s);
        if (getenv("VFTRACE")) fprintf(stderr, "%s >> %s\n", cur.c_str(), s.c_str());
    }
    void fail(const std::string& key, const char* f, ...) __attribute__((format(printf, 3, 4))) {
        va_list ap; va_start(ap, f);
        std::string s = fmtv(f, ap);
        va_end(ap);
        const char* kn = getenv("VF_KNOWN");           // listed findings: reported, but they do not end anything
        bool listed = kn && ("," + std::string(kn) + ",").find("," + key + ",") != std::string::npos;
        if (listed && ++nknown[key] > 3) return;
        if (!listed && ++nfail > 25) return;
        std::string t;
        size_t from = trace.size() > 40 ? trace.size() - 40 : 0;
        for (size_t i = from; i < trace.size(); i++) { t += trace[i]; t += "; "; }
        fprintf(out, "{\"t\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\",\"trace\":\"%s\"}\n",
                listed ? "known" : "viol", jesc(key).c_str(), jesc(s).c_str(), jesc(cur).c_str(), jesc(t).c_str());
        fflush(out);
    }
    void eval(uint64_t h, bool nontrivial = true) {
        evals++;
        if (nontrivial && hashes.size() < 400000) hashes.insert(h);
    }
    void count(const std::string& n, uint64_t k = 1) { counters[n] += k; }
    void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }
    // a fresh name for this case, starting with the prefix
    std::string name() { return fmt("%sn%d", prefix.c_str(), nname++); }
    void flush() {
        std::string c;
        for (auto& kv : counters) c += fmt("%s\"%s\":%llu", c.empty() ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second);
        std::string sm;
        for (auto& s : samples) sm += (sm.empty() ? "\"" : ",\"") + jesc(s) + "\"";
        fprintf(out, "{\"t\":\"stat\",\"evals\":%llu,\"counters\":{%s},\"samples\":[%s]}\n", (unsigned long long)evals, c.c_str(), sm.c_str());
        fflush(out);
        FILE* h = fopen((outbase + ".hash").c_str(), "wb");
        for (uint64_t v : hashes) fwrite(&v, 8, 1, h);
        fclose(h);
    }
};

inline Ctx*& ctx() { static Ctx* c = nullptr; return c; }

// ---- sub-processes of a case ------------------------------------------------------------------
struct Proc {
    pid_t pid = -1;
    int status = 0;
    bool done = false;
};
inline Proc spawn(const std::function<int()>& fn) {
    fflush(nullptr);
    Proc p;
    p.pid = fork();
    if (p.pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int rc = 99;
        try { rc = fn(); } catch (const std::exception& e) { fprintf(stderr, "sub-process: exception %s\n", e.what()); rc = 98; }
        fflush(nullptr);
        _exit(rc);
    }
    return p;
}
// true if it ended in time (then status holds); otherwise it is left running
inline bool join(Proc& p, double timeout_s) {
    double t0 = now();
    while (!p.done) {
        int st;
        pid_t r = waitpid(p.pid, &st, WNOHANG);
        if (r == p.pid) { p.status = st; p.done = true; break; }
        if (now() - t0 > timeout_s) return false;
        msleep(now() - t0 < 0.02 ? 0.2 : 2);
        if (ctx()) ctx()->tick();
    }
    return true;
}
inline void kill9(Proc& p) {
    if (p.done) return;
    kill(p.pid, SIGKILL);
    waitpid(p.pid, &p.status, 0);
    p.done = true;
}
template <class T> T* shared(size_t n = 1) {
    void* m = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    return new (m) T[n]();
}
template <class T> void unshare_mem(T* p, size_t n = 1) { munmap((void*)p, sizeof(T) * n); }

// ---- /dev/shm ---------------------------------------------------------------------------------
inline std::set<std::string> shm_entries(const std::string& containing) {
    std::set<std::string> r;
    DIR* d = opendir("/dev/shm");
    if (!d) return r;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        if (n.find(containing) != std::string::npos) r.insert(n);
    }
    closedir(d);
    return r;
}
inline void shm_clean(const std::string& containing) {
    if (containing.size() < 5) return;
    for (auto& n : shm_entries(containing)) unlink(("/dev/shm/" + n).c_str());
}

// ---- runner -----------------------------------------------------------------------------------
struct Part {
    const char* name;
    int quick_shards, thorough_shards;
    std::function<void(Ctx&)> fn;
    int patience = 30;
};

inline int run_main(int argc, char** argv, std::vector<Part> parts) {
    std::string out = "/tmp", only, seeds;
    uint64_t seed = 1;
    bool thorough = false;
    int only_shard = -1, jobs = 8;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--thorough") thorough = true;
        else if (a == "--out") out = nx();
        else if (a == "--part") only = nx();
        else if (a == "--shard") only_shard = atoi(nx().c_str());
        else if (a == "--jobs") jobs = atoi(nx().c_str());
    }
    struct Item { int part, shard, tries; pid_t pid; Progress* prog; uint64_t last; double t; std::string base; bool hung; };
    std::vector<Item> todo, run;
    for (size_t p = 0; p < parts.size(); p++) {
        if (!only.empty() && ("," + only + ",").find(std::string(",") + parts[p].name + ",") == std::string::npos) continue;
        int n = thorough ? parts[p].thorough_shards : parts[p].quick_shards;
        for (int s = 0; s < n; s++) if (only_shard < 0 || s == only_shard) todo.push_back({(int)p, s, 0, -1, nullptr, 0, 0, "", false});
    }
    // interleave the parts' shards
    std::stable_sort(todo.begin(), todo.end(), [](const Item& a, const Item& b) { return a.shard < b.shard; });
    FILE* res = fopen((out + "/results.jsonl").c_str(), "w");
    int rc = 0;
    size_t next = 0;
    auto launch = [&](Item& it) {
        Part& P = parts[it.part];
        it.base = fmt("%s/%s.%d.%d", out.c_str(), P.name, it.shard, it.tries);
        if (!it.prog) it.prog = shared<Progress>();
        memset(it.prog->text, 0, sizeof it.prog->text);
        it.prog->patience = P.patience * (it.tries ? 2 : 1);
        it.last = it.prog->ticks; it.t = now(); it.hung = false;
        fflush(nullptr);
        std::string prefix = fmt("vf%dx%d%c%s%d_", (int)getpid(), it.part, 'a' + it.tries, "s", it.shard);
        it.pid = fork();
        if (it.pid == 0) {
            setpgid(0, 0);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int e = open((it.base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
            dup2(e, 1); dup2(e, 2); close(e);
            int z = open("/dev/null", O_RDONLY); dup2(z, 0); close(z);
            static Ctx c;
            c.part = P.name; c.shard = it.shard; c.seed = seed; c.thorough = thorough;
            c.nshards = thorough ? P.thorough_shards : P.quick_shards;
            c.rng = Rng(hcomb(hcomb(seed, hstr(P.name)), it.shard));
            c.prefix = prefix; c.outbase = it.base; c.prog = it.prog;
            int jf = open((it.base + ".jsonl").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0600);
            jf = fcntl(jf, F_DUPFD_CLOEXEC, 900);          // away from the numbers the library gets
            c.out = fdopen(jf, "a");
            if ((it.shard + it.part + it.tries) % 3 == 1) close(0);        // the library may get descriptor 0
            ctx() = &c;
            // nothing the library does may depend on these
            const char* zone[] = {"UTC0", "VFE-3", "VFW5:30", "VFX-14"};
            setenv("TZ", zone[(it.shard + it.part) % 4], 1); tzset();
            umask((mode_t[]){022, 077, 0, 027}[(it.shard + it.part) % 4]);
            try { P.fn(c); }
            catch (const std::exception& ex) { c.fail("exception", "unexpected exception: %s", ex.what()); }
            c.flush();
            fflush(nullptr);
            _exit(c.nfail ? 1 : 0);
        }
        setpgid(it.pid, it.pid);
    };
    auto note = [&](const Item& it, const char* kind, const std::string& key, const std::string& msg) {
        std::string err;
        FILE* e = fopen((it.base + ".err").c_str(), "r");
        if (e) {
            std::string all; char b[4096]; size_t n;
            while ((n = fread(b, 1, sizeof b, e)) > 0) { all.append(b, n); if (all.size() > 4000000) break; }
            fclose(e);
            size_t k = all.find("SUMMARY:");
            size_t st = all.find("runtime error");
            if (st == std::string::npos) st = all.find("ERROR:");
            if (st == std::string::npos) st = all.find("WARNING: ThreadSanitizer");
            if (st != std::string::npos) err = all.substr(st > 200 ? st - 200 : 0, 3500);
            else if (all.size() > 2500) err = all.substr(all.size() - 2500);
            else err = all;
            (void)k;
        }
        fprintf(res, "{\"t\":\"%s\",\"part\":\"%s\",\"shard\":%d,\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\",\"trace\":\"%s\"}\n", kind,
                parts[it.part].name, it.shard, jesc(key).c_str(), jesc(msg).c_str(), jesc(it.prog->text).c_str(), jesc(err).c_str());
        fflush(res);
    };
    double started = now(), looked = 0;
    bool enough = false;
    while (next < todo.size() || !run.empty()) {
        // once something is known to be wrong there is no need to go on for long
        if (!enough && !thorough && now() - started > 90 && now() - looked > 2) {
            looked = now();
            bool any = rc == 1;
            for (auto& it : run) { char b[16] = {}; FILE* f = fopen((it.base + ".jsonl").c_str(), "r"); if (f) { if (fread(b, 1, 11, f) == 11 && !strcmp(b, "{\"t\":\"viol\"")) any = true; fclose(f); } }
            if (any) { enough = true; next = todo.size(); for (auto& it : run) { kill(-it.pid, SIGKILL); kill(it.pid, SIGKILL); } rc = 1; }
        }
        while ((int)run.size() < jobs && next < todo.size()) { run.push_back(todo[next++]); launch(run.back()); }
        for (size_t i = 0; i < run.size();) {
            Item& it = run[i];
            int st = 0;
            pid_t r = waitpid(it.pid, &st, WNOHANG);
            if (r == it.pid) {
                kill(-it.pid, SIGKILL);
                shm_clean(fmt("vf%dx%d%c%s%d_", (int)getpid(), it.part, 'a' + it.tries, "s", it.shard));
                bool again = false;
                if (enough) {}
                else if (it.hung) {
                    if (it.tries == 0) again = true;
                    else { note(it, "viol", std::string("hang:") + parts[it.part].name, "no progress: the call hangs"); rc = 1; }
                } else if (WIFSIGNALED(st)) {
                    if (WTERMSIG(st) == SIGKILL) {
                        if (it.tries == 0) again = true;
                        else { note(it, "infra", "killed", "the work item was killed from outside"); rc = 2; }
                    } else { note(it, "viol", std::string("crash:") + parts[it.part].name, fmt("process died with signal %d", WTERMSIG(st))); rc = 1; }
                } else if (WEXITSTATUS(st) > 1) {
                    note(it, "viol", std::string("crash:") + parts[it.part].name, fmt("process ended with status %d (sanitizer report or abort)", WEXITSTATUS(st))); rc = 1;
                } else if (WEXITSTATUS(st) == 1) rc = rc == 2 ? 2 : 1;
                if (again) { it.tries++; launch(it); i++; continue; }
                // collect
                fprintf(res, "{\"t\":\"item\",\"part\":\"%s\",\"shard\":%d,\"base\":\"%s\"}\n", parts[it.part].name, it.shard, jesc(it.base).c_str());
                run.erase(run.begin() + i);
                continue;
            }
            uint64_t tk = it.prog->ticks;
            if (tk != it.last) { it.last = tk; it.t = now(); }
            else if (now() - it.t > it.prog->patience && !it.hung) { it.hung = true; kill(-it.pid, SIGKILL); kill(it.pid, SIGKILL); }
            i++;
        }
        msleep(3);
    }
    fclose(res);
    return rc;
}

}  // namespace vf
