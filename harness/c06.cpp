// C06: attach waits for a running server and then matches it exactly.
#include "remote.hpp"
#include "vclock.hpp"
#include "sched.hpp"
#include "witness.hpp"
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/StringTensor.hpp>
#include <sys/syscall.h>
using namespace vf;

static bool zeros(const Blk& b) { for (auto v : b.d) if (v) return false; return true; }

// a controlled schedule: servers come and go without ever running, one finally runs; clients attach at any time
static void sched(Ctx& c) {
    int cases = c.thorough ? 15000 : 2500;
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        int nc = c.rng.in(1, 3), pct = c.rng.pick(*new std::vector<int>{5, 15, 30, 60});
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), R = c.rng.in(1, 6), C = c.rng.in(1, 6);
        uint64_t sd = c.rng();
        c.begin("schedule %d: %s %s %dx%d, %d clients, switch %d%%, seed %llu", k, dtname(dt), layname(lay), R, C, nc, pct, (unsigned long long)sd);
        std::string n = c.name();
        Sched s(sd, pct);
        s.mem_pct = sd % 5 ? 0 : sd % 2 ? 15 : 60;
        s.on_stuck = [&](const std::string& w) { c.fail("stuck", "%s", w.c_str()); c.flush(); };
        // earlier servers, of other sizes, which ran and were closed
        for (int e = c.rng.in(0, 2); e > 0; e--) {
            auto o = make_server(c.rng.in(0, 3), c.rng.in(0, 1), c.rng.in(1, 8), c.rng.in(1, 8), "T", n); o->start();
            Blk b(o->rows(), o->cols(), dtsize(o->dtype())); fill_random(b, o->dtype(), c.rng); o->write(b, 0, 0, Form::whole, c.rng);
            if (c.rng.chance(50)) { auto q = make_client(o->dtype(), o->layout(), "T", n); q->start(); }
            if (c.rng.chance(30)) o->stop();
            o->close();
        }
        bool run_called = false; int attached = 0, zero_left = 0;
        int before = c.rng.in(0, 2);
        bool writes = c.rng.chance(50);
        Blk val(R, C, dtsize(dt)); fill_random(val, dt, c.rng);
        for (auto& v : val.d) v |= 1;
        if (dt == DB) for (auto& v : val.d) v = 1;
        bool written = false, release = false;
        s.add("server", [&] {
            Rng r(hcomb(sd, 99));
            for (int b = 0; b < before; b++) {       // constructed, never run
                auto o = make_server(dt, r.in(0, 1), r.in(1, 8), r.in(1, 8), "T", n);
                for (int x = r.in(0, 4); x > 0; x--) s.step("idle");
                o->close();
            }
            auto e = make_server(dt, lay, R, C, "T", n);
            for (int x = r.in(0, 6); x > 0; x--) s.wait_turn(Sched::SLEEPING);
            run_called = true;
            e->start();
            s.step("running");
            if (writes) {
                while (attached < nc && r.chance(70)) s.wait_turn(Sched::SLEEPING);
                written = true;
                while (!e->write(val, 0, 0, Form::whole, r).ok) s.wait_turn(Sched::SLEEPING);
            }
            while (!release) s.wait_turn(Sched::SLEEPING);
            int x = e->nclients();
            if (x != nc) c.fail("count", "%d clients are counted, %d attached", x, nc);
        });
        for (int i = 0; i < nc; i++)
            s.add(fmt("client%d", i), [&, i] {
                Rng r(hcomb(sd, i));
                auto e = make_client(dt, lay, "T", n);
                for (int x = r.in(0, 10); x > 0; x--) s.step("later");
                e->start();
                if (!run_called) c.fail("early", "attach returned although no server was started");
                if (!e->started()) c.fail("not-attached", "attach returned, the client is not attached");
                if (e->rows() != R || e->cols() != C) c.fail("dimensions", "the client reports %dx%d, the server has %dx%d", e->rows(), e->cols(), R, C);
                else {
                    Blk g(R, C, dtsize(dt));
                    bool w0 = written, ok = false;
                    for (int q = 0; q < 2000 && !ok; q++) { ok = e->read(g, 0, 0, Form::whole, r).ok; if (!ok) s.wait_turn(Sched::SLEEPING); }
                    if (!ok) c.fail("no-data", "the attached client never gets to read");
                    else if (!(zeros(g) && !w0) && !(g == val) && !(zeros(g) && writes)) c.fail("not-zero", "a new tensor reads something else than zeros or what was written");
                    if (zeros(g)) zero_left++;
                }
                attached++;
                if (attached == nc) {
                    // exchange: everybody sees what the server wrote
                    if (writes) {
                        Blk g(R, C, dtsize(dt));
                        for (int q = 0; q < 2000 && !(g == val); q++) { if (!e->read(g, 0, 0, Form::whole, r).ok || !(g == val)) s.wait_turn(Sched::SLEEPING); }
                        if (!(g == val)) c.fail("no-data", "the client does not see what the server wrote");
                    }
                    release = true;
                }
                while (!release) s.wait_turn(Sched::SLEEPING);
                while (s.ths[0]->st != Sched::DONE) s.wait_turn(Sched::SLEEPING);
            });
        s.run();
        if (s.mem_pct) c.count("switch points at accesses to shared memory", s.n_mem);
        for (auto& t : s.ths) if (!t->exc.empty()) c.fail("raised", "%s: %s", t->name.c_str(), t->exc.c_str());
        c.count("preemptions", s.preemptions); c.count("attaches", nc); c.count("tensors read as zeros", zero_left);
        c.eval(s.hash, s.preemptions > 0);
        if (k == 0) { std::string lg; for (size_t x = 0; x < s.log.size() && x < 40; x++) lg += s.log[x] + ","; c.sample(c.cur + " " + lg); }
        shm_clean(n);
    }
}

// clients in other processes wait through sequences of servers; the same client object follows the servers of a name
static void waiters(Ctx& c) {
    int cases = c.thorough ? 60 : 8;
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        std::string n = c.name();
        c.begin("sequence %d", k);
        std::vector<HostP> hs; std::vector<std::unique_ptr<RemoteEp>> cl;
        int nc = c.rng.in(1, 3), dt = c.rng.in(0, 3), lay = c.rng.in(0, 1);
        std::vector<EpP> kept;
        uint64_t h = c.rng();
        for (int i = 0; i < nc; i++) { hs.push_back(std::make_shared<Host>()); cl.push_back(remote_client(hs[i], dt, lay, "T", n, true)); }
        HostP shost = std::make_shared<Host>();
        int nserv = c.rng.in(2, 5);
        for (int sv = 0; sv < nserv && c.nfail < 10; sv++) {
            int R = c.rng.in(1, 40), C = c.rng.in(1, 40), how = c.rng.in(0, 3);
            if (c.rng.chance(20)) { R = c.rng.in(1, 3); C = c.rng.in(1, 3); }
            bool first = c.rng.chance(60), remote = c.rng.chance(30), never = c.rng.chance(40);
            c.tr("server %d: %s %s %dx%d%s, %s first", sv, dtname(dt), layname(lay), R, C, remote ? " in another process" : "", first ? "clients" : "server");
            auto begin = [&] { for (auto& q : cl) q->begin(R_START); };
            auto quiet = [&](const char* when) { for (auto& q : cl) if (q->ready(0.004)) c.fail("early", "attach returned %s", when); };
            if (first) { begin(); quiet("before there is a server"); }
            if (never && c.nfail == 0) {
                auto o = make_server(c.rng.in(0, 3), c.rng.in(0, 1), c.rng.in(1, 50), c.rng.in(1, 50), "T", n);
                if (first) quiet("when a server was constructed but not run");
                o->close();
                if (first) quiet("when a server that never ran was closed");
                c.tr("one was constructed and closed before");
            }
            EpP s = remote ? EpP(remote_server(shost, dt, lay, R, C, "T", n, c.rng.chance(25))) : make_server(dt, lay, R, C, "T", n, c.rng.chance(25));
            if (first) quiet("when the server was constructed but not run");
            if (c.nfail) break;
            s->start();
            if (!first) begin();
            for (auto& q : cl) {
                if (!q->ready(15)) { c.fail("stuck", "attach does not return although a server is running"); c.flush(); _exit(1); }
                try { q->end(); } catch (const std::exception& e) { c.fail("raised", "attach raised: %s", e.what()); }
            }
            if (c.nfail) break;
            Blk v(R, C, dtsize(dt)), g(R, C, dtsize(dt));
            for (auto& q : cl) {
                if (q->rows() != R || q->cols() != C) { c.fail("dimensions", "a client reports %dx%d, the server has %dx%d", q->rows(), q->cols(), R, C); continue; }
                if (!q->read(g, 0, 0, Form::whole, c.rng).ok) c.fail("no-data", "an attached client cannot read");
                else if (!zeros(g)) c.fail("not-zero", "the tensor of a newly started server does not read as zeros");
            }
            if (c.nfail) break;
            for (int x = 0; x < 3; x++) {
                fill_random(v, dt, c.rng);
                Ep& w = c.rng.chance(40) ? *s : *cl[c.rng() % nc];
                if (!w.write(v, 0, 0, Form::whole, c.rng).ok) c.fail("no-data", "a write fails");
                for (auto& q : cl) if (!q->read(g, 0, 0, Form::whole, c.rng).ok || !(g == v)) c.fail("no-data", "a client does not see what was written");
                if (!s->read(g, 0, 0, Form::whole, c.rng).ok || !(g == v)) c.fail("no-data", "the server does not see what was written");
            }
            if (s->nclients() != nc) c.fail("count", "the server counts %d clients of %d", s->nclients(), nc);
            // the end of this server
            c.tr("end %d", how);
            if (how == 0) { for (auto& q : cl) q->close(); s->close(); }
            else if (how == 1) { for (auto& q : cl) q->stop(); s->close(); }
            else if (how == 2) { s->close(); for (auto& q : cl) q->stop(); }
            else { for (auto& q : cl) q->stop(); s->stop(); kept.push_back(std::move(s)); }
            h = hcomb(h, hcomb(hcomb(R, C), hcomb(how * 8 + first * 4 + remote * 2 + never, nc)));
            c.eval(h); c.count("attaches", nc); c.count("servers");
            if (c.rng.chance(50)) for (int i = 0; i < nc; i++) { cl[i].reset(); dt = dt; }
            if (!cl[0]) { dt = c.rng.in(0, 3); lay = c.rng.in(0, 1); for (int i = 0; i < nc; i++) cl[i] = remote_client(hs[i], dt, lay, "T", n, c.rng.chance(70)); }
        }
        if (k == 0) { std::string t; for (auto& x : c.trace) t += x + "; "; c.sample(t); }
        for (auto& hh : hs) hh->kill_now();
        shost->kill_now();
        cl.clear(); kept.clear();
        shm_clean(n);
    }
}

// every pair of types and layouts
static void mismatch(Ctx& c) {
    int id = 0;
    for (int rep = 0; rep < (c.thorough ? 6 : 1); rep++)
    for (int dt = 0; dt < 4; dt++) for (int lay = 0; lay < 2; lay++) for (int safe = 0; safe < 2; safe++) {
        if (id++ % c.nshards != c.shard) continue;
        std::string n = c.name();
        int R = c.rng.in(1, 7), C = c.rng.in(1, 7);
        c.begin("server %s %s %dx%d", dtname(dt), layname(lay), R, C);
        auto s = make_server(dt, lay, R, C, "T", n, false, safe); s->start();
        auto q = make_client(dt, lay, "T", n); q->start();
        auto host = std::make_shared<Host>();
        Witness w{c, *s, q.get(), Blk(R, C, dtsize(dt)), 1, dt, lay, n};
        w.check("starting", c.rng);
        std::vector<EpP> refused;
        for (int d = 0; d < 4; d++) for (int l = 0; l < 2; l++) for (int v = 0; v < 3; v++) {
            if (c.nfail > 10) return;
            c.tr("client %s %s variant %d", dtname(d), layname(l), v);
            EpP e = v == 1 ? EpP(remote_client(host, d, l, "T", n)) : make_client(d, l, "T", n, v == 2);
            bool match = d == dt && l == lay;
            int tries = c.rng.in(1, 3);
            for (int t = 0; t < tries; t++) {
                std::string what;
                bool thr = throws([&] { e->start(); }, &what);
                if (match && thr) c.fail("refused", "a matching client is refused: %s", what.c_str());
                if (!match && !thr) c.fail("accepted", "a client of %s %s attached to a server of %s %s", dtname(d), layname(l), dtname(dt), layname(lay));
                if (!match && e->started()) c.fail("accepted", "a refused client reports that it is attached");
                if (!match) {
                    Blk b(1, 1, dtsize(d)); fill_random(b, d, c.rng);
                    if (e->write(b, 0, 0, Form::whole, c.rng).ok || e->read(b, 0, 0, Form::whole, c.rng).ok) c.fail("accepted", "a refused client can access the tensor");
                    w.check("a refused client", c.rng, t == 0);
                    c.count("refusals");
                }
            }
            if (match) { w.nclients++; w.check("an accepted client", c.rng); e->close(); w.nclients--; w.check("closing it", c.rng); }
            else {
                int end = c.rng.in(0, 3);
                if (end == 0) e->stop(); else if (end == 1) e->close(); else if (end == 2) e.reset(); else refused.push_back(std::move(e));
                w.check("a refused client went away", c.rng, false);
            }
            c.eval(hcomb(hcomb(dt * 2 + lay, d * 2 + l), v * 4 + safe * 2));
        }
        if (id < 3) c.sample(c.cur);
        refused.clear();
        w.check("all refused clients went away", c.rng);
        host->kill_now();
    }
}

// whoever waits does so for as long as it takes: the sleeps of the library take no time and its clock
// goes on by what they were asked for, so that a wait is hours long
struct Swift : Hook {
    std::atomic<long> polls{0};
    long factor = 1;         // a scheduler may let a sleep last much longer
    void before(Call& c) override {
        if (c.op == Op::sleep) { c.skip_sleep = true; ahead += c.nsec * factor; polls++; if (polls % 4096 == 0) sched_yield(); }
        else if (c.op == Op::yield || c.op == Op::poll) polls++;
    }
};
static void patience(Ctx& c) {
    using V = EigenIPC::Journal::VLevel;
    int id = 0;
    for (int rep = 0; rep < (c.thorough ? 4 : 1); rep++)
    for (int kind = 0; kind < 3; kind++) for (int stage = 0; stage < 3; stage++) for (int verb = 0; verb < 2; verb++) {
        if (id++ % c.nshards != c.shard) continue;
        const char* kn[] = {"client", "string client", "consumer"};
        const char* st[] = {"there is no server", "a server is constructed but not run", "a server that never ran is closed"};
        long want = c.rng.in(100000, c.thorough ? 9000000 : 1500000) / (verb ? 4 : 1);
        int lay = c.rng.in(0, 1), R = kind ? 0 : c.rng.in(1, 9), C = c.rng.in(1, 9);
        c.begin("%s waits for %ld polls%s while %s", kn[kind], want, verb ? ", logging" : "", st[stage]);
        std::string n = c.name();
        Swift h; h.factor = (id + rep) % 3 ? 1 : 1000; hook = &h; ahead = 0;
        std::atomic<int> done{0}; std::string exc; int gr = -1, gc = -1;
        std::function<void()> body;
        EpP q; std::unique_ptr<EigenIPC::StringTensor<EigenIPC::StrClient>> sq; std::unique_ptr<EigenIPC::Consumer> cq;
        auto mk = [&](auto& u, auto f) { LibScope l; u = f(); };
        if (kind == 0) { q = make_client(DF, lay, "T", n, true, verb, verb ? 2 : 0); body = [&] { q->start(); gr = q->rows(); gc = q->cols(); }; }
        if (kind == 1) { mk(sq, [&] { return std::make_unique<EigenIPC::StringTensor<EigenIPC::StrClient>>("T", n, verb, verb ? V::V2 : V::V0); }); body = [&] { LibScope l; sq->run(); gc = sq->getLength(); }; }
        if (kind == 2) { mk(cq, [&] { return std::make_unique<EigenIPC::Consumer>("T", n, verb, verb ? V::V2 : V::V0); }); body = [&] { LibScope l; cq->run(); }; }
        std::thread t([&] { try { body(); } catch (const std::exception& e) { exc = e.what(); } done = 1; });
        EpP s; std::unique_ptr<EigenIPC::StringTensor<EigenIPC::StrServer>> ss; std::unique_ptr<EigenIPC::Producer> ps;
        auto build = [&] {
            if (kind == 0) s = make_server(DF, lay, R, C, "T", n);
            if (kind == 1) mk(ss, [&] { return std::make_unique<EigenIPC::StringTensor<EigenIPC::StrServer>>(C, "T", n, false, V::V0, true); });
            if (kind == 2) mk(ps, [&] { return std::make_unique<EigenIPC::Producer>("T", n, false, V::V0, true); });
        };
        auto wait = [&](long polls, double secs, bool fin) {
            long p0 = h.polls; double t0 = now();
            while (!done && (fin || h.polls - p0 < polls) && now() - t0 < secs) { c.tick(); msleep(0.2); }
            return h.polls - p0;
        };
        if (stage) { wait(want / 4, 4, false); build(); }
        if (stage == 2) {
            wait(want / 4, 4, false);
            LibScope l;
            if (kind == 0) s->close(); else if (kind == 1) ss->close(); else ps->close();
        }
        long got = wait(want, 8, false);
        if (done) c.fail("gave-up", "after %ld polls (%.0f s of its clock) the attach %s%s", got, ahead * 1e-9, exc.empty() ? "returned" : "raised: ", exc.c_str());
        else {
            if (stage != 1) build();
            { LibScope l; if (kind == 0) s->start(); else if (kind == 1) ss->run(); else ps->run(); }
            wait(0, 20, true);
            if (!done) { c.fail("stuck", "attach does not return although a server is running"); c.flush(); _exit(1); }
            if (!exc.empty()) c.fail("raised", "attach raised: %s", exc.c_str());
            else if (kind == 0 && (gr != R || gc != C)) c.fail("dimensions", "the client reports %dx%d, the server has %dx%d", gr, gc, R, C);
            else if (kind == 1 && gc != C) c.fail("dimensions", "the client reports %d strings, the server has %d", gc, C);
            else if (kind == 2) {
                bool a = false, b = false;
                std::thread w([&] { LibScope l; a = cq->wait(2000) && cq->ack(); });
                { LibScope l; ps->trigger(); b = ps->wait_ack_from(1, 2000); }
                w.join();
                if (!a || !b) c.fail("no-data", "a trigger does not reach a consumer that waited long to start");
            }
        }
        t.join();
        c.count("polls while waiting", h.polls); c.count("seconds of its clock", (long)(ahead * 1e-9));
        c.eval(hcomb(hcomb(kind, stage), hcomb(verb, got / 50000)));
        if (id < 3) c.sample(c.cur + fmt(": %ld polls, %.0f s", (long)h.polls, ahead * 1e-9));
        hook = nullptr;
        { LibScope l; q.reset(); sq.reset(); cq.reset(); s.reset(); ss.reset(); ps.reset(); }
        shm_clean(n);
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"sched", 8, 16, sched}, {"waiters", 8, 16, waiters}, {"patience", 6, 6, patience}, {"mismatch", 4, 8, mismatch}});
}
