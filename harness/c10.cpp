// C10: a failing OS resource is reported and leaves nothing half-made.
#include "witness.hpp"
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/StringTensor.hpp>
#include <sys/resource.h>
using namespace vf;
using namespace EigenIPC;
using StrS = StringTensor<StrServer>;
using StrC = StringTensor<StrClient>;
static const auto V0 = Journal::VLevel::V0;

// fails the calls from the n-th on (one or all) which ask the OS for something
struct Refuse : Hook {
    int n = 0, from = -1, to = -1, err = 0, hit = 0;
    std::string where;
    static bool asks(const Call& c) { return c.op == Op::shm_open || c.op == Op::ftruncate || c.op == Op::mmap || c.op == Op::sem_open || c.op == Op::fallocate; }
    void before(Call& c) override {
        if (!asks(c)) return;
        if (n >= from && n < to) {
            static const int e[][3] = {{EMFILE, ENOMEM, EACCES}, {ENOSPC, EFBIG, EINVAL}, {ENOMEM, EAGAIN, ENODEV}, {EMFILE, ENOMEM, EACCES}};
            int k = c.op == Op::shm_open ? 0 : c.op == Op::mmap ? 2 : c.op == Op::sem_open ? 3 : 1;
            c.inject = true; c.err = e[k][err];
            if (!hit++) where = fmt("%s(%s) %s", opname(c.op), c.name.c_str(), strerrorname_np(c.err));
        }
        n++;
    }
};

struct Obj {
    EpP e; std::unique_ptr<StrS> ss; std::unique_ptr<StrC> sc; std::unique_ptr<Producer> p; std::unique_ptr<Consumer> q;
    void drop() { LibScope l; e.reset(); ss.reset(); sc.reset(); p.reset(); q.reset(); }
};
enum What { SRV, SRV_RUN, SRV_FORCE, CLI, CLI_AGAIN, STR_SRV, STR_CLI, PROD, PROD_RUN, CONS, NWHAT };
static const char* wname[] = {"constructing a server", "starting a server", "constructing a forced server", "attaching a client", "attaching a client again", "a string server", "a string client",
                              "constructing a producer", "starting a producer", "starting a consumer"};
enum Env { FRESH, CRASHED, RUNNING, STOPPED, NENV };
static const char* ename[] = {"on a fresh name", "on the leftovers of a crash", "beside a running server", "beside a stopped server"};

struct Case {
    Ctx& c; std::string n; int dt, lay, R, C;
    What what; Env env;
    EpP srv, cl; std::unique_ptr<StrS> ss; std::unique_ptr<Producer> p;
    std::unique_ptr<Witness> wit;
    Obj o;
    bool usable() const {
        bool needs_server = what == CLI || what == CLI_AGAIN || what == STR_CLI || what == CONS;
        if (needs_server) return env == RUNNING;
        if (what == SRV_RUN) return env != RUNNING;
        if (what == STR_SRV || what == PROD || what == PROD_RUN) return env == FRESH;
        return true;
    }
    void setup() {
        if (env == CRASHED) {
            auto n_ = n; int d = dt;
            Proc pr = spawn([=] { auto s = make_server(d, 0, 3, 3, "T", n_); s->start(); auto q = make_client(d, 0, "T", n_); q->start(); kill(getpid(), SIGKILL); return 0; });
            join(pr, 30);
            // what is left is not in use: a stopped-looking lock lets ordinary servers take the name
            for (auto& x : shm_entries(n)) if (x.compare(0, 4, "sem.") == 0) unlink(("/dev/shm/" + x).c_str());
        }
        if (what == STR_CLI) { LibScope l; ss.reset(new StrS(5, "T", n)); ss->run(); std::vector<std::string> v{"hello"}; ss->write(v, 2); return; }
        if (what == CONS) { LibScope l; p.reset(new Producer("T", n)); p->run(); return; }
        if (env == RUNNING || env == STOPPED) {
            srv = make_server(dt, lay, R, C, "T", n); srv->start();
            cl = make_client(dt, lay, "T", n); cl->start();
            wit.reset(new Witness{c, *srv, cl.get(), Blk(R, C, dtsize(dt)), 1, dt, lay, n});
            fill_random(wit->sh, dt, c.rng);
            write_all(*srv, wit->sh, c.rng);
            if (env == STOPPED) { cl->close(); srv->stop(); }
        }
        // what precedes the call under test
        LibScope l;
        if (what == SRV_RUN) o.e = make_server(dt, lay, 4, 5, "T", n);
        if (what == CLI || what == CLI_AGAIN) o.e = make_client(dt, lay, "T", n);
        if (what == CLI_AGAIN) { o.e->start(); if (c.rng.chance(50)) o.e->close(); else o.e->stop(); }
        if (what == PROD_RUN) o.p.reset(new Producer("T", n));
    }
    void act() {
        switch (what) {
            case SRV: case SRV_FORCE: { auto e = make_server(dt, lay, 4, 5, "T", n, what == SRV_FORCE); o.e = std::move(e); break; }
            case SRV_RUN: case CLI: case CLI_AGAIN: o.e->start(); break;
            case STR_SRV: { LibScope l; o.ss.reset(new StrS(4, "T", n)); o.ss->run(); break; }
            case STR_CLI: { LibScope l; if (!o.sc) o.sc.reset(new StrC("T", n)); o.sc->run(); break; }
            case PROD: { LibScope l; o.p.reset(new Producer("T", n)); break; }
            case PROD_RUN: { LibScope l; o.p->run(); break; }
            case CONS: { LibScope l; if (!o.q) o.q.reset(new Consumer("T", n)); o.q->run(); break; }
            default: break;
        }
    }
    bool refused_by_design() const { return env == RUNNING && what == SRV; }
    // the object made by a call that succeeded does everything
    void works(const char* when) {
        LibScope l;
        Rng& r = c.rng;
        try {
            if (o.e) {
                Ep* s = o.e.get(); EpP other;
                if (o.e->is_server()) { if (!o.e->started()) o.e->start(); other = make_client(dt, lay, "T", n); other->start(); }
                else s = srv.get();
                Ep& q = o.e->is_server() ? *other : *o.e;
                Blk b(s->rows(), s->cols(), dtsize(dt)), g = b; fill_random(b, dt, r);
                if (q.rows() != s->rows() || q.cols() != s->cols()) { c.fail("works", "%s: the dimensions differ", when); return; }
                if (!s->write(b, 0, 0, Form::whole, r).ok || !q.read(g, 0, 0, Form::whole, r).ok || !(b == g)) { c.fail("works", "%s: server to client does not work", when); return; }
                fill_random(b, dt, r);
                if (!q.write(b, 0, 0, Form::whole, r).ok || !s->read(g, 0, 0, Form::whole, r).ok || !(b == g)) { c.fail("works", "%s: client to server does not work", when); return; }
                q.acquire();
                bool through = s->read(g, 0, 0, Form::whole, r).ok;
                q.release();
                if (through || !s->read(g, 0, 0, Form::whole, r).ok) { c.fail("works", "%s: the lock does not work", when); return; }
                if (wit && !o.e->is_server()) wit->sh = b;
                int want = o.e->is_server() ? 1 : 2, nc = s->nclients();
                if (nc != want) c.fail("works", "%s: the client count is %d instead of %d", when, nc, want);
                if (o.e->is_server()) { if (!throws([&] { auto x = make_server(dt, lay, 2, 2, "T", n); x->start(); })) c.fail("works", "%s: another server starts on the name", when); }
            }
            if (o.ss || o.sc) {
                std::unique_ptr<StrC> x; StrS* s = o.ss ? o.ss.get() : ss.get();
                if (!o.sc) { x.reset(new StrC("T", n)); x->run(); }
                StrC* q = o.sc ? o.sc.get() : x.get();
                std::string a = "abcde", b;
                if (!s->write(a, 1) || !q->read(b, 1) || a != b || !q->write(std::string("zz"), 0) || !s->read(b, 0) || b != "zz") c.fail("works", "%s: strings are not passed on", when);
            }
            if (o.p || o.q) {
                std::unique_ptr<Consumer> x; Producer* s = o.p ? o.p.get() : p.get();
                if (o.p) s->run();
                if (!o.q) { x.reset(new Consumer("T", n)); x->run(); }
                Consumer* q = o.q ? o.q.get() : x.get();
                for (int i = 0; i < 2; i++) { s->trigger(); if (!q->wait_and_ack([] { return true; }, 3000) || !s->wait_ack_from(1, 3000)) c.fail("works", "%s: triggers are not passed on", when); }
            }
        } catch (const std::exception& e) { c.fail("works", "%s: %s", when, e.what()); }
    }
    void finish() { { LibScope l; o.drop(); cl.reset(); srv.reset(); ss.reset(); p.reset(); } shm_clean(n); }
};

static std::string diff_units(const std::map<std::string, int>& a, const std::map<std::string, int>& b) {
    std::string s;
    for (auto& x : b) { auto it = a.find(x.first); int d = x.second - (it == a.end() ? 0 : it->second); if (d > 0) s += fmt("%s (+%d); ", x.first.c_str(), d); }
    for (auto& x : a) { auto it = b.find(x.first); int d = x.second - (it == b.end() ? 0 : it->second); if (d > 0) s += fmt("%s (-%d); ", x.first.c_str(), d); }
    return s;
}
// the process may open only k more descriptors
static void limit(int k) {
    rlimit r; getrlimit(RLIMIT_NOFILE, &r);
    static rlim_t old = r.rlim_cur;
    if (k < 0) r.rlim_cur = old;
    else { int n = 0, fd = 0; for (; n <= k; fd++) if (fcntl(fd, F_GETFD) < 0) n++; r.rlim_cur = fd - 1; }
    setrlimit(RLIMIT_NOFILE, &r);
}
static int nfds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static int nmaps(const std::string& k) { int n = 0; char b[1000]; FILE* f = fopen("/proc/self/maps", "r"); while (fgets(b, sizeof b, f)) n += strstr(b, k.c_str()) != nullptr; fclose(f); return n; }

static void faults(Ctx& c) {
    ledger.on = true;
    int idx = 0, rounds = c.thorough ? 12 : 1;
    for (int round = 0; round < rounds; round++)
        for (int w = 0; w < NWHAT; w++)
            for (int env = 0; env < NENV; env++) {
                int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1);
                auto mk = [&] { return Case{c, c.name(), dt, lay, 3, 7, (What)w, (Env)env}; };
                Case probe = mk();
                if (!probe.usable()) continue;
                // how many resources the call asks for
                c.begin("%s %s", wname[w], ename[env]);
                Refuse k;
                std::string why;
                probe.setup();
                hook = &k;
                bool ok = !throws([&] { probe.act(); }, &why);
                hook = nullptr;
                int total = k.n;
                if (ok == probe.refused_by_design()) { c.fail("baseline", "without a fault: %s", ok ? "succeeds" : why.c_str()); probe.finish(); continue; }
                if (ok) probe.works("without a fault");
                probe.finish();
                for (int i = 0; i < total; i++)
                    for (int mode = 0; mode < 5; mode++) {          // one call or all from here on; once more at the retry; a real shortage of descriptors
                        if (idx++ % c.nshards != c.shard) continue;
                        if (mode == 4 && i > 9) continue;
                        int err = c.rng.in(0, 2);
                        c.begin("%s %s: request %d of %d refused%s%s", wname[w], ename[env], i, total, mode & 1 ? " and all after it" : "", mode & 2 ? ", twice" : "");
                        if (mode == 4) c.begin("%s %s: with %d free descriptors", wname[w], ename[env], i);
                        Case x = mk();
                        ledger.reset();
                        try { x.setup(); } catch (const std::exception& e) { c.fail("setup", "%s", e.what()); x.finish(); continue; }
                        auto u0 = ledger.units(); int f0 = nfds(), m0 = nmaps(x.n);
                        Refuse rf; std::string where;
                        bool any_ok = false;
                        for (int t = 0; t <= (mode & 2 ? 1 : 0); t++) {
                            rf = Refuse(); rf.from = mode == 4 ? -1 : i; rf.to = mode == 4 ? -1 : mode & 1 ? 1 << 30 : i + 1; rf.err = err;
                            if (mode == 4) limit(i);
                            hook = &rf;
                            c.tr("call %d", t);
                            why.clear();
                            bool ok = !throws([&] { x.act(); }, &why);
                            hook = nullptr;
                            if (mode == 4) { limit(-1); if (!ok) { rf.hit = 1; rf.where = fmt("%d free descriptors", i); } }
                            if (rf.hit) where = rf.where;
                            c.tr("%s -> %s", rf.where.c_str(), ok ? "no error" : why.c_str());
                            if (ok && rf.hit) { c.fail("silent", "%s %s reports no error although %s was refused", wname[w], ename[env], rf.where.c_str()); x.works("after a refusal nobody reported"); }
                            if (ok) { any_ok = true; break; }
                            c.count(rf.hit ? "refusals reported" : "refusals not reached");
                        }
                        if (!any_ok) {
                            bool keep = c.rng.chance(50) && (w == SRV_RUN || w == CLI || w == CLI_AGAIN || w == STR_CLI || w == PROD_RUN || w == CONS);   // retry with the same object or with a new one
                            auto check = [&] {
                                auto u1 = ledger.units();
                                std::map<std::string, int> want = u0;
                                std::string d = keep ? "" : diff_units(want, u1);
                                if (!keep && w != CLI && w != CLI_AGAIN && w != SRV_RUN && w != PROD_RUN) {
                                    if (!d.empty()) c.fail("kept", "after the failure (%s): %s", where.c_str(), d.c_str());
                                    int f1 = nfds(), m1 = nmaps(x.n);
                                    if (f1 != f0 || m1 != m0) c.fail("kept", "after the failure (%s) the process has %+d descriptors and %+d mappings", where.c_str(), f1 - f0, m1 - m0);
                                } else if (!keep) {       // the object existed before and is gone now: nothing may have been added
                                    for (auto& y : u1) if (!u0.count(y.first) || u0.at(y.first) < y.second) c.fail("kept", "after the failure (%s) and the end of the object: %s", where.c_str(), y.first.c_str());
                                    if (nfds() > f0 || nmaps(x.n) > m0) c.fail("kept", "after the failure (%s) and the end of the object the process has %+d descriptors and %+d mappings", where.c_str(), nfds() - f0, nmaps(x.n) - m0);
                                }
                                for (auto& p : ledger.problems()) c.fail("foreign", "after the failure (%s): %s", where.c_str(), p.c_str());
                                c.count("leak checks");
                            };
                            // a started object that failed to start does not pretend
                            if (keep && x.o.e && x.o.e->started()) c.fail("half", "after the failure (%s) the object says it is started", where.c_str());
                            if (!keep) x.o.drop();
                            check();
                            if (x.wit && env == RUNNING && w != SRV_FORCE) x.wit->check(fmt("%s failed (%s)", wname[w], where.c_str()).c_str(), c.rng);
                            // once more with the resource available
                            c.tr("retry%s", keep ? " with the same object" : "");
                            auto again = [&] {
                                LibScope l;
                                if (!keep) { if (w == SRV_RUN) x.o.e = make_server(dt, lay, 4, 5, "T", x.n); if (w == CLI || w == CLI_AGAIN) x.o.e = make_client(dt, lay, "T", x.n); if (w == PROD_RUN) x.o.p.reset(new Producer("T", x.n)); }
                                x.act();
                            };
                            bool ok = !throws(again, &why);
                            if (x.refused_by_design()) { if (ok) c.fail("two", "after a failure (%s) a second server starts beside a running one", where.c_str()); }
                            else if (!ok) c.fail("retry", "after a failure (%s) the same call fails with the resource available: %s", where.c_str(), why.c_str());
                            else { x.works(fmt("after a failure (%s) and a retry", where.c_str()).c_str()); c.count("retries that worked"); }
                        }
                        if (i < 30 && idx % 17 == 0) c.sample(c.cur + " " + where);
                        c.eval(hcomb(hcomb(w * NENV + env, i * 4 + mode), dt * 2 + lay), !where.empty());
                        x.finish();
                        std::string left;
                        for (auto& u : ledger.units()) left += u.first + "; ";
                        if (!left.empty()) c.fail("kept", "when all is over (%s): %s", where.c_str(), left.c_str());
                        if (c.nfail > 10) return;
                    }
            }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"faults", 8, 16, faults}});
}
