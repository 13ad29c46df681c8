// C20: endpoints on different threads never race. Built with the thread sanitizer; fold.cpp gives
// all mappings of one shared object one address.
#include "ep.hpp"
#include <EigenIPC/CondVar.hpp>
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/StringTensor.hpp>
#include <thread>
using namespace vf;
using namespace EigenIPC;
using StrS = StringTensor<StrServer>;
using StrC = StringTensor<StrClient>;
using V = Journal::VLevel;

extern volatile unsigned long fold_hits, fold_segs;
static volatile int reports;
extern "C" void __attribute__((no_sanitize("thread"))) __tsan_on_report(void*) { __atomic_fetch_add(&reports, 1, __ATOMIC_RELAXED); }

// what the detector wrote about since last time
struct Reports {
    off_t at = 0; std::string path;
    explicit Reports(Ctx& c) : path(c.outbase + ".err") {}
    void collect(Ctx& c, const char* where) {
        fflush(nullptr);
        std::string s; int f = open(path.c_str(), O_RDONLY | O_CLOEXEC); lseek(f, at, SEEK_SET);
        char b[65536]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) s.append(b, n);
        close(f); at += s.size();
        int seen = 0;
        for (size_t p = 0; (p = s.find("WARNING: ThreadSanitizer", p)) != std::string::npos; p++) {
            seen++;
            size_t e = s.find("SUMMARY:", p), l = e == std::string::npos ? e : s.find('\n', e);
            std::string sum = e == std::string::npos ? "report" : s.substr(e + 9, l - e - 9), body = s.substr(p, std::min<size_t>(e == std::string::npos ? s.size() - p : e - p, 3000));
            size_t in = sum.find(" in ");
            c.fail("race:" + (in == std::string::npos ? std::string("?") : sum.substr(in + 4, 60)), "%s: %s\n%s", where, sum.c_str(), body.c_str());
        }
        if (reports && !seen) c.fail("race", "the detector reported something");
        reports = 0;
    }
};
static void threads(int n, const std::function<void(int, Rng&)>& f, Ctx& c) {
    std::vector<std::thread> t; std::vector<std::string> err(n);
    uint64_t s = c.rng();
    for (int i = 0; i < n; i++) t.emplace_back([&, i] { Rng r(s + i * 77); try { f(i, r); } catch (const std::exception& e) { err[i] = e.what(); } });
    for (auto& x : t) x.join();
    for (auto& e : err) if (!e.empty()) { c.count("threads ended by an exception"); c.sample(e); }
}
static void ops(Ep& e, int dt, int R, int C, Rng& r, int n) {
    for (int i = 0; i < n; i++) {
        int h = r.in(1, R), w = r.in(1, C), a = r.in(0, R - h), b = r.in(0, C - w);
        if (r.chance(5)) a = R;                      // out of range
        Blk k(h, w, dtsize(dt));
        if (r.chance(50)) { fill_random(k, dt, r); e.write(k, a, b, (Form)r.in(0, 5), r); }
        else e.read(k, a, b, (Form)r.in(0, 5), r);
    }
}

// one tensor, an endpoint per thread
static void same(Ctx& c) {
    int cases = c.thorough ? 300 : 36;
    Reports rep(c);
    for (int k = 0; k < cases && c.nfail < 8; k++) {
        std::string n = c.name(); int dt = k % 4, lay = (k / 4 + c.shard) % 2, R = c.rng.in(1, 20), C = c.rng.in(1, 20), N = c.rng.in(3, 6);
        c.begin("one tensor %d: %s %s %dx%d, %d threads", k, dtname(dt), layname(lay), R, C, N);
        auto s = make_server(dt, lay, R, C, "T", n); s->start();
        unsigned long f0 = fold_hits;
        threads(N, [&](int t, Rng& r) {
            if (t == 0) {
                for (int i = 0; i < 25; i++) { ops(*s, dt, R, C, r, 4); s->nclients(); s->started(); s->rows(); s->cols(); if (r.chance(10)) { s->acquire(); ops(*s, dt, R, C, r, 1); s->release(); } }
                return;
            }
            for (int g = 0; g < 3; g++) {
                auto q = make_client(dt, lay, "T", n); q->start();
                for (int i = 0; i < 8; i++) {
                    ops(*q, dt, R, C, r, 4); q->rows(); q->cols(); q->started();
                    if (r.chance(15)) { q->stop(); ops(*q, dt, R, C, r, 1); q->start(); }
                    if (r.chance(15)) { q->acquire(); ops(*q, dt, R, C, r, 1); q->release(); }
                    if (r.chance(8)) { auto w = make_client((dt + 1) % 4, lay, "T", n); throws([&] { w->start(); }); }
                    if (r.chance(5)) throws([&] { auto w = make_server(dt, lay, R, C, "T", n); w->start(); });
                }
                if (r.chance(70)) q->close();
            }
        }, c);
        if (fold_hits - f0 < 10) c.fail("monitor", "the mappings of the object were not folded");
        s->close();
        rep.collect(c, c.cur.c_str());
        c.count("threads", N);
        c.eval(hcomb(hcomb(dt * 2 + lay, R * 100 + C), hcomb(k, N)));
    }
    c.count("folded mappings", fold_hits);
    c.count("objects", fold_segs);
}

static void strings(const std::string& n, Rng& r, bool vb, V vl, int gens) {
    for (int g = 0; g < gens; g++) {
        int L = r.in(1, 5);
        StrS s(L, "S", n, vb, vl, r.chance(30)); s.run();
        StrC q("S", n, vb, vl); q.run();
        for (int i = 0; i < 8; i++) {
            std::vector<std::string> v(r.in(1, L), std::string(r.in(0, 40), 'a' + r.in(0, 25)));
            auto& w = v; std::string o;
            if (r.chance(50)) s.write(v, 0); else q.write(v, r.in(0, L));
            if (r.chance(50)) q.read(w, 0); else s.read(o, r.in(-1, L));
        }
        q.close(); s.close();
    }
}
static void triggers(const std::string& n, Rng& r, bool vb, V vl) {
    Producer p("P", n, vb, vl, r.chance(30)); p.run();
    Consumer q("P", n, vb, vl); q.run();
    for (int i = 0; i < 6; i++) { p.trigger(); q.wait(1000); q.ack(); p.wait_ack_from(1, 1000); if (r.chance(30)) q.wait(1); if (r.chance(30)) p.wait_ack_from(1, 1); }
    q.close(); p.close();
}
// everything on names of its own, an owner per thread: whatever they share is hidden
static void apart(Ctx& c) {
    int cases = c.thorough ? 400 : 50;
    Reports rep(c);
    for (int k = 0; k < cases && c.nfail < 8; k++) {
        int N = c.rng.in(3, 7); bool vb = c.rng.chance(40); V vl = (V)c.rng.in(0, 3);
        c.begin("apart %d: %d threads%s", k, N, vb ? ", verbose" : "");
        std::vector<std::string> nm; for (int i = 0; i < N; i++) nm.push_back(c.name());
        int e1 = -1, e2 = -1;
        if (vb) { fflush(nullptr); e1 = dup(1); int z = open("/dev/null", O_WRONLY); dup2(z, 1); close(z); (void)e2; }
        bool uniform = c.rng.chance(50); int kind = c.rng.in(0, 3), dt0 = c.rng.in(0, 3), lay0 = c.rng.in(0, 1);
        threads(N, [&](int t, Rng& r) {
            const std::string& n = nm[t];
            switch (uniform ? kind : r.in(0, 3)) {
                case 0: {
                    for (int g = 0; g < 3; g++) {
                        int dt = uniform ? dt0 : r.in(0, 3), lay = uniform ? lay0 : r.in(0, 1), R = r.in(1, 9), C = r.in(1, 9);
                        auto s = make_server(dt, lay, R, C, "T", n, r.chance(30), r.chance(80), vb, (int)vl); s->start();
                        auto q = make_client(dt, lay, "T", n, r.chance(80), vb, (int)vl); q->start();
                        for (int i = 0; i < 6; i++) { ops(*s, dt, R, C, r, 3); ops(*q, dt, R, C, r, 3); s->nclients(); s->ns(); q->base(); s->dtype(); q->layout(); }
                        throws([&] { auto w = make_client((dt + 1) % 4, lay, "T", n, true, vb, (int)vl); w->start(); });
                        throws([&] { auto w = make_server(dt, lay, R, C, "T", n, false, true, vb, (int)vl); w->start(); });
                        if (r.chance(50)) { s->stop(); s->start(); }
                        q->close(); s->close(); ops(*q, dt, R, C, r, 1);
                    }
                    break;
                }
                case 1: strings(n, r, vb, vl, 3); break;
                case 2: triggers(n, r, vb, vl); break;
                case 3: {
                    for (int g = 0; g < 3; g++) {
                        ConditionVariable s(true, "V", n, vb, vl, r.chance(50)), q(false, "V", n, vb, vl);
                        { auto l = s.lock(); s.timedwait(l, 1); q.notify_all(); q.notify_one(); }
                        throws([&] { ConditionVariable x(true, "V", n, vb, vl, false); });
                        q.close(); s.close();
                    }
                }
            }
        }, c);
        if (vb) { fflush(nullptr); dup2(e1, 1); close(e1); }
        rep.collect(c, c.cur.c_str());
        c.count("threads", N);
        c.eval(hcomb(hcomb(k, N), hcomb(vb, uniform ? kind : 9)));
        for (auto& n : nm) shm_clean(n);
    }
}
// one string tensor, one producer with its consumers, one condition variable: an endpoint per thread
static void together(Ctx& c) {
    int cases = c.thorough ? 360 : 48;
    Reports rep(c);
    for (int k = 0; k < cases && c.nfail < 8; k++) {
        std::string n = c.name(); int N = c.rng.in(2, 5), what = k % 3;
        static const char* nm[] = {"string tensor", "producer and consumers", "condition variable"};
        c.begin("one %s %d, %d threads", nm[what], k, N + 1);
        if (what == 0) {
            int L = c.rng.in(1, 6);
            StrS s(L, "S", n, false, V::V0, false, true); s.run();     // a string server is not safe by default
            threads(N + 1, [&](int t, Rng& r) {
                std::unique_ptr<StrC> q;
                for (int i = 0; i < 30; i++) {
                    std::vector<std::string> v(r.in(1, L), std::string(r.in(0, 90), 'a' + r.in(0, 25))); std::string o;
                    if (t == 0) { if (r.chance(50)) s.write(v, 0); else if (r.chance(50)) s.read(v, 0); else s.read(o, r.in(0, L - 1)); continue; }
                    if (!q || r.chance(10)) { if (q && r.chance(50)) q->close(); q.reset(); q = std::make_unique<StrC>("S", n, false, V::V0); q->run(); }
                    if (r.chance(50)) q->write(v, 0); else if (r.chance(50)) q->read(v, 0); else q->read(o, r.in(0, L - 1));
                }
            }, c);
            s.close();
        } else if (what == 1) {
            Producer p("P", n, false, V::V0); p.run();
            std::vector<std::unique_ptr<Consumer>> q;
            for (int i = 0; i < N; i++) { q.push_back(std::make_unique<Consumer>("P", n, false, V::V0)); q.back()->run(); }
            threads(N + 1, [&](int t, Rng& r) {
                for (int i = 0; i < 15; i++) {
                    if (t == 0) { p.trigger(); if (!p.wait_ack_from(N, 20000)) throw std::runtime_error("acknowledgements missing"); }
                    else if (r.chance(50)) { if (!q[t - 1]->wait(20000)) throw std::runtime_error("trigger missing"); q[t - 1]->ack(); }
                    else q[t - 1]->wait_and_ack([] { return true; }, 20000);
                }
            }, c);
            q.clear(); p.close();
        } else {
            ConditionVariable s(true, "V", n, false, V::V0);
            long shared_value = 0;             // protected by the condition variable's lock: any hole is a race
            threads(N + 1, [&](int t, Rng& r) {
                ConditionVariable q(false, "V", n, false, V::V0);
                ConditionVariable& v = t == 0 ? s : q;
                for (int i = 0; i < 30; i++) {
                    auto l = v.lock();
                    shared_value++;
                    if (r.chance(30)) { v.timedwait(l, 1); shared_value++; }
                    if (r.chance(20)) { v.timedwait_for(l, 1, [&] { return shared_value++ > 20; }); shared_value++; }
                    if (r.chance(50)) v.notify_all(); else v.notify_one();
                }
                q.close();
            }, c);
            c.count("increments under the lock", shared_value);
        }
        rep.collect(c, c.cur.c_str());
        c.count("threads", N + 1);
        c.eval(hcomb(hcomb(k, N), what));
        shm_clean(n);
    }
}
// the detector sees what it should
static void probe(Ctx& c) {
    Reports rep(c);
    c.begin("probe");
    std::string n = c.name();
    auto s = make_server(DI, ROW, 4, 4, "T", n, false, false); s->start();
    auto q = make_client(DI, ROW, "T", n, false); q->start();
    threads(2, [&](int t, Rng& r) { Ep& e = t ? *q : *s; int32_t v[16] = {t}; for (int i = 0; i < 20; i++) e.write_raw(v, 4, 4, 0, 0); }, c);   // not in safe mode: a true race
    int seen = reports;
    if (!seen) c.fail("monitor", "the detector does not see a race of two endpoints in unsafe mode");
    c.count("races of the probe seen", seen);
    reports = 0;
    c.eval(1);
    s->close();
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"probe", 1, 1, probe, 60}, {"same", 2, 8, same, 60}, {"apart", 3, 8, apart, 60}, {"together", 2, 8, together, 60}});
}
