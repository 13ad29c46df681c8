// C04: the data lock excludes everyone else and is handed back exactly once.
#include "remote.hpp"
#include "sched.hpp"
#include "vclock.hpp"
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/StringTensor.hpp>
using namespace vf;

static bool rd1(Ctx& c, Ep& e, std::string* bad = nullptr) {
    Blk b(1, 1, dtsize(e.dtype()));
    OpRes o = e.read(b, 0, 0, Form::whole, c.rng);
    if (bad && !o.damage.empty()) *bad = o.damage;
    return o.ok;
}

// can the lock be taken, once and only once?
static void probe(Ctx& c, Ep& a, Ep& b, const char* after) {
    if (!rd1(c, a)) { c.fail("lock-lost", "after %s a free lock cannot be taken (a safe read fails)", after); return; }
    c.tr("probe: acquire");
    a.acquire();
    if (rd1(c, b)) c.fail("lock-doubled", "after %s two holders are possible: a safe read succeeds while another endpoint holds the lock", after);
    a.release();
    if (!rd1(c, b)) c.fail("lock-lost", "after %s and a probe the lock cannot be taken", after);
    c.count("lock probes");
}

static void history(Ctx& c) {
    int cases = c.thorough ? 500 : 60;
    auto host = std::make_shared<Host>();
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), R = c.rng.in(1, 6), C = c.rng.in(1, 6);
        c.begin("history %d: %s %s %dx%d", k, dtname(dt), layname(lay), R, C);
        std::string n = c.name();
        auto mk = [&](bool rem) -> EpP { if (rem) return remote_client(host, dt, lay, "T", n); return make_client(dt, lay, "T", n); };
        EpP s = make_server(dt, lay, R, C, "T", n);
        c.tr("server constructed"); s->start(); c.tr("server runs");
        bool running = true;
        EpP pa = mk(false), pb = mk(c.rng.chance(50));
        pa->start(); pb->start();
        probe(c, *pa, *pb, "the first start and two attachments");
        std::vector<EpP> cl;
        uint64_t h = hcomb(dt * 2 + lay, R * 8 + C);
        int steps = c.rng.in(10, 40);
        for (int st = 0; st < steps && c.nfail < 10; st++) {
            // sometimes an endpoint holds the lock meanwhile
            Ep* holder = nullptr;
            if (c.rng.chance(35)) {
                int w = c.rng.in(0, 2 + (int)cl.size());
                if (w == 0) holder = pa.get();
                else if (w == 1) holder = pb.get();
                else if (w == 2) { if (running) holder = s.get(); }
                else if (cl[w - 3]->started()) holder = cl[w - 3].get();
                if (holder) { c.tr("lock acquired by %s", w == 2 ? "the server" : w < 2 ? "a probe" : "a client"); holder->acquire(); c.count("explicit holds"); }
            }
            auto excl = [&](const char* when) {
                // everyone else is refused, without effect
                std::vector<Ep*> v{pa.get(), pb.get()};
                if (running) v.push_back(s.get());
                for (auto& e : cl) if (e->started()) v.push_back(e.get());
                for (Ep* e : v) {
                    if (e == holder) continue;
                    std::string bad;
                    if (rd1(c, *e, &bad)) c.fail("not-excluded", "%s: a %s's safe read succeeds while another endpoint holds the lock", when, e->is_server() ? "server" : "client");
                    if (!bad.empty()) c.fail("failed-read-effect", "%s", bad.c_str());
                    Blk b(1, 1, dtsize(dt)); fill_random(b, dt, c.rng);
                    if (e->write(b, 0, 0, Form::whole, c.rng).ok) c.fail("not-excluded", "%s: a %s's safe write succeeds while another endpoint holds the lock", when, e->is_server() ? "server" : "client");
                    c.count("refusals under a foreign hold");
                }
            };
            if (holder) excl("after acquiring");
            int op = c.rng.in(0, 14);
            std::string what;
            switch (op) {
                case 0: what = "run()"; c.tr("server run"); s->start(); running = true; break;
                case 1: if (holder == s.get()) break; what = "stop()"; c.tr("server stop"); s->stop(); running = false; break;
                case 2: if (holder == s.get()) break; what = "stop() and run()"; c.tr("server stop, run"); s->stop(); s->start(); running = true; break;
                case 3: {      // a new client; blocks while the lock is held
                    if (!running || cl.size() > 4) break;
                    what = "an attachment";
                    bool rem = c.rng.chance(40);
                    if (holder) {
                        auto e = remote_client(std::make_shared<Host>(), dt, lay, "T", n);
                        c.tr("remote client attaches while the lock is held");
                        e->begin(R_START);
                        if (e->ready(0.01)) c.fail("not-excluded", "an attachment completes while another endpoint holds the lock");
                        else { c.tr("holder releases"); holder->release(); holder = nullptr; if (!e->ready(15)) { c.fail("lock-lost", "a waiting attachment does not proceed after the release"); c.flush(); _exit(1); } c.count("acquisitions that waited"); }
                        e->end();
                        cl.push_back(std::move(e));
                    } else { cl.push_back(mk(rem)); c.tr("%s client attaches", rem ? "remote" : "local"); cl.back()->start(); }
                    break;
                }
                case 4: {      // refused attachment
                    if (!running || holder) break;
                    what = "a refused attachment";
                    int dt2 = c.rng.in(0, 3), lay2 = c.rng.in(0, 1);
                    if (dt2 == dt && lay2 == lay) lay2 = !lay;
                    c.tr("client of %s %s attaches", dtname(dt2), layname(lay2));
                    EpP e; if (c.rng.chance(30)) e = remote_client(host, dt2, lay2, "T", n); else e = make_client(dt2, lay2, "T", n);
                    if (!throws([&] { e->start(); })) what = "an attachment that should have been refused";
                    if (c.rng.chance(50)) { c.tr("tries again"); throws([&] { e->start(); }); }
                    break;
                }
                case 5: if (!cl.empty() && !holder) { auto& e = cl[c.rng() % cl.size()]; what = "detach()"; c.tr("client detaches"); e->stop(); if (c.rng.chance(40)) { c.tr("again"); e->stop(); } } break;
                case 6: if (!cl.empty() && running && !holder) { auto& e = cl[c.rng() % cl.size()]; what = "another attach()"; c.tr("client attaches (again)"); e->start(); } break;
                case 7: if (!cl.empty() && !holder) { int i = c.rng() % cl.size(); what = "closing a client"; c.tr("client closed"); cl[i]->close(); if (c.rng.chance(50)) cl[i]->close(); cl.erase(cl.begin() + i); } break;
                case 8: if (!holder && running) { what = "getNClients()"; c.tr("getNClients"); int x = s->nclients(); if (c.rng.chance(50)) x = s->nclients(); (void)x; } break;
                case 9: case 10: case 11: {
                    // valid and out of range operations on anybody
                    std::vector<Ep*> v{pa.get(), pb.get(), s.get()};
                    for (auto& e : cl) v.push_back(e.get());
                    Ep* e = v[c.rng() % v.size()];
                    if (e == holder) break;
                    int r = c.rng.in(1, R + 1), q = c.rng.in(1, C + 1), i = c.rng.in(-2, R + 1), j = c.rng.in(-2, C + 1);
                    bool in = i >= 0 && j >= 0 && i + r <= R && j + q <= C, wr = c.rng.chance(50);
                    Blk b(r, q, dtsize(dt)); fill_random(b, dt, c.rng);
                    c.tr("%s %dx%d at (%d,%d) by a %s%s", wr ? "write" : "read", r, q, i, j, e->is_server() ? "server" : "client", e->started() ? "" : " (not ready)");
                    OpRes o = wr ? e->write(b, i, j, (Form)c.rng.in(0, (int)Form::N - 1), c.rng) : e->read(b, i, j, (Form)c.rng.in(0, (int)Form::N - 1), c.rng);
                    if (o.ok && holder) c.fail("not-excluded", "an operation succeeds while another endpoint holds the lock");
                    if (!o.ok && in && !holder && e->started()) c.fail("lock-lost", "an in-range operation fails though nobody holds the lock");
                    what = o.ok ? "a successful operation" : "a failed operation";
                    break;
                }
                case 12: {     // a challenger
                    if (!running) break;
                    what = "a refused challenger";
                    c.tr("another server is constructed without force");
                    if (holder == nullptr || c.rng.chance(50)) throws([&] { auto x = make_server(dt, lay, R, C, "T", n); x->start(); });
                    break;
                }
                case 13: {     // explicit acquisition by another process waits for the release
                    if (!holder) break;
                    auto e = remote_client(std::make_shared<Host>(), dt, lay, "T", n);
                    if (!running) break;
                    holder->release(); c.tr("released");
                    e->start();
                    holder->acquire(); c.tr("acquired again, another process acquires");
                    e->begin(R_ACQ);
                    if (e->ready(0.01)) { c.fail("not-excluded", "two endpoints acquired the lock"); e->end(); e->release(); break; }
                    holder->release(); c.tr("released");
                    if (!e->ready(15)) { c.fail("lock-lost", "a waiting acquisition does not proceed after the release"); c.flush(); _exit(1); }
                    e->end();
                    c.count("acquisitions that waited");
                    if (rd1(c, *holder)) c.fail("not-excluded", "a safe read succeeds while another process holds the lock");
                    e->release();
                    holder = nullptr;
                    what = "a handover between processes";
                    break;
                }
                case 14: {     // the server goes away and another one comes
                    if (holder) break;
                    what = "a new server on the name";
                    c.tr("clients and server closed, new server");
                    cl.clear(); pa->close(); pb->close();
                    bool early = c.rng.chance(30);
                    if (!early) s->close();
                    s.reset();
                    R = c.rng.in(1, 6); C = c.rng.in(1, 6);
                    s = make_server(dt, lay, R, C, "T", n, c.rng.chance(40));
                    s->start();
                    running = true;
                    pa = mk(c.rng.chance(30)); pb = mk(false);
                    pa->start(); pb->start();
                    break;
                }
            }
            if (holder) { excl(what.empty() ? "still" : ("after " + what).c_str()); c.tr("released"); holder->release(); }
            if (!what.empty() || holder) probe(c, *pa, *pb, what.empty() ? "a hold" : what.c_str());
            h = hcomb(h, op * 8 + (holder != nullptr) * 2 + running);
            c.eval(h);
        }
        if (k == 0) { std::string t; for (size_t i = 0; i < c.trace.size() && i < 30; i++) t += c.trace[i] + "; "; c.sample(c.cur + ": " + t); }
        cl.clear(); pa.reset(); pb.reset(); s.reset();
    }
}

// threads under the controlled scheduler; explicit holds must exclude everything else
static void sched(Ctx& c) {
    int cases = c.thorough ? 12000 : 2500;
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1);
        int nth = c.rng.in(2, 4);
        int pct = c.rng.pick(*new std::vector<int>{5, 15, 30, 60});
        uint64_t sd = c.rng();
        c.begin("schedule %d: %s %s threads %d switch %d%% seed %llu", k, dtname(dt), layname(lay), nth, pct, (unsigned long long)sd);
        std::string n = c.name();
        std::vector<EpP> eps;
        eps.push_back(make_server(dt, lay, 3, 3, "T", n)); eps[0]->start();
        for (int i = 1; i < nth; i++) { eps.push_back(make_client(dt, lay, "T", n)); eps.back()->start(); }
        auto pa = make_client(dt, lay, "T", n), pb = make_client(dt, lay, "T", n);
        pa->start(); pb->start();
        Sched s(sd, pct);
        s.mem_pct = sd % 5 ? 0 : sd % 2 ? 15 : 60;
        s.on_stuck = [&](const std::string& w) { c.fail("stuck", "%s", w.c_str()); c.flush(); };
        uint64_t clk = 0, hold_id = 0; int holder = -1;
        std::vector<std::vector<int>> plan(nth);
        for (auto& p : plan) for (int i = c.rng.in(2, 5); i > 0; i--) p.push_back(c.rng.in(0, 9));
        for (int i = 0; i < nth; i++)
            s.add(fmt("t%d", i), [&, i] {
                Ep& e = *eps[i];
                Rng r(hcomb(sd, i));
                for (int op : plan[i]) {
                    s.step("op");
                    if (op <= 2) {
                        e.acquire();
                        if (holder != -1) c.fail("not-excluded", "thread %d acquired the lock held by thread %d", i, holder);
                        holder = i; hold_id = ++clk;
                        for (int x = r.in(0, 3); x > 0; x--) s.step("holding");
                        if (holder != i) c.fail("not-excluded", "somebody else acquired the lock meanwhile");
                        holder = -1; hold_id = ++clk;
                        e.release();
                    } else if (op <= 7) {
                        uint64_t h0 = hold_id; int who = holder;
                        Blk b(2, 2, dtsize(dt)); fill_random(b, dt, r);
                        int at = op == 7 ? r.in(2, 3) : r.in(0, 1);
                        OpRes o = op <= 5 ? e.read(b, at, 0, Form::whole, r) : e.write(b, at, 0, Form::strided, r);
                        if (o.ok && who != -1 && hold_id == h0) c.fail("not-excluded", "thread %d's operation succeeded while thread %d held the lock throughout", i, who);
                        if (o.threw) c.fail("raised", "%s", o.what.c_str());
                        if (!o.damage.empty()) c.fail("failed-read-effect", "%s", o.damage.c_str());
                    } else if (i > 0) {
                        uint64_t h0 = hold_id; int who = holder;
                        if (op == 8) e.stop(); else { e.stop(); e.start(); }
                        if (who != -1 && hold_id == h0 && op == 9) c.fail("not-excluded", "thread %d attached while thread %d held the lock throughout", i, who);
                        if (op == 8) e.start();
                    } else { uint64_t h0 = hold_id; int who = holder; e.nclients(); if (who != -1 && hold_id == h0) c.fail("not-excluded", "the client count was taken under a foreign hold"); }
                }
            });
        s.run();
        if (s.mem_pct) c.count("switch points at accesses to shared memory", s.n_mem);
        for (auto& t : s.ths) if (!t->exc.empty()) c.fail("raised", "%s", t->exc.c_str());
        probe(c, *pa, *pb, "the schedule");
        c.count("preemptions", s.preemptions);
        c.eval(s.hash, s.preemptions > 0);
        if (k == 0) { std::string lg; for (size_t x = 0; x < s.log.size() && x < 40; x++) lg += s.log[x] + ","; c.sample(c.cur + " " + lg); }
        while (!eps.empty()) eps.pop_back();
    }
}

// processes increment a number under the lock through endpoints that do not lock themselves
static void counter(Ctx& c) {
    int rounds = c.thorough ? 40 : 4;
    for (int k = 0; k < rounds && c.nfail < 5; k++) {
        int dt = k % 2 ? DI : DD, lay = c.rng.in(0, 1), np = c.rng.in(2, 5), per = c.thorough ? 20000 : 6000;
        c.begin("round %d: %d processes increment %d times each under the lock", k, np, per);
        std::string n = c.name();
        auto s = make_server(dt, lay, 2, 2, "T", n); s->start();
        auto* go = shared<std::atomic<int>>(1); auto* inside = shared<std::atomic<int>>(1); auto* bad = shared<std::atomic<int>>(1); auto* rdy = shared<std::atomic<int>>(1);
        auto* other = shared<std::atomic<int>>(2);
        std::vector<Proc> ps;
        for (int p = 0; p < np; p++)
            ps.push_back(spawn([&, p] {
                auto e = make_client(dt, lay, "T", n, p % 2 == 0), u = make_client(dt, lay, "T", n, false);
                e->start(); u->start();
                (*rdy)++;
                while (!*go) {}
                for (int i = 0; i < per; i++) {
                    e->acquire();
                    if (inside->fetch_add(1) != 0) (*bad)++;
                    double d = 0; int x = 0;
                    if (!u->read_raw(dt == DI ? (void*)&x : (void*)&d, 1, 1, 0, 0)) (*bad)++;
                    x++; d += 1;
                    if (!u->write_raw(dt == DI ? (void*)&x : (void*)&d, 1, 1, 0, 0)) (*bad)++;
                    inside->fetch_sub(1);
                    e->release();
                }
                return 0;
            }));
        // and one that reads and writes safely all the time
        ps.push_back(spawn([&] {
            auto e = make_client(dt, lay, "T", n); e->start();
            (*rdy)++;
            double d = 1; int x = 1;
            while (!other[0]) {
                if (e->write_raw(dt == DI ? (void*)&x : (void*)&d, 1, 1, 1, 1)) other[1]++;
                e->read_raw(dt == DI ? (void*)&x : (void*)&d, 1, 1, 1, 1);
                if (other[1] % 64 == 0) { try { e->stop(); e->start(); } catch (...) { return 5; } }
            }
            return 0;
        }));
        while (*rdy < np + 1) { msleep(1); c.tick(); }
        *go = 1;
        for (int p = 0; p < np; p++) if (!join(ps[p], 120)) { c.fail("stuck", "a process does not get the lock"); kill9(ps[p]); } else if (ps[p].status) c.fail("crash", "a process ended with %d", ps[p].status);
        other[0] = 1;
        if (!join(ps[np], 30)) { c.fail("stuck", "the safe reader and writer hangs"); kill9(ps[np]); } else if (ps[np].status) c.fail("crash", "the safe reader and writer ended with %d", ps[np].status);
        double d = 0; int x = 0;
        if (!s->read_raw(dt == DI ? (void*)&x : (void*)&d, 1, 1, 0, 0)) c.fail("lock-lost", "the server cannot read afterwards");
        long got = dt == DI ? x : (long)d;
        if (got != (long)np * per) c.fail("lost-update", "%ld increments remain of %ld", got, (long)np * per);
        if (*bad) c.fail("not-excluded", "%d times two processes were inside the lock or an unlocked operation failed", bad->load());
        c.count("increments under the lock", (uint64_t)np * per); c.count("safe writes meanwhile", other[1]);
        for (int i = 0; i < np; i++) c.eval(hcomb(k, i));
        c.evals += (uint64_t)np * per;
        if (k == 0) c.sample(c.cur);
    }
}

// signals interrupt the calls that wait for the lock: an interrupted call either did all it does or nothing
struct Intr : Hook {
    Rng r{1}; int pct = 0; uint64_t hits = 0;
    void before(Call& c) override {
        if ((c.op == Op::sem_wait || c.op == Op::sem_timedwait) && pct && r.chance(pct)) { c.inject = true; c.err = EINTR; hits++; }
    }
};
static void onsig(int) {}
static void signals(Ctx& c) {
    int cases = c.thorough ? 1500 : 150;
    Intr h; hook = &h;
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1);
        c.begin("history %d: %s %s", k, dtname(dt), layname(lay));
        std::string n = c.name();
        h.r = Rng(c.rng()); h.pct = 0;
        auto s = make_server(dt, lay, 3, 3, "T", n); s->start();
        auto pa = make_client(dt, lay, "T", n), pb = make_client(dt, lay, "T", n);
        pa->start(); pb->start();
        EpP q = make_client(dt, lay, "T", n);
        int cnt = 2; uint64_t hs = dt * 2 + lay;
        auto arm = [&] { h.pct = c.rng.pick(*new std::vector<int>{0, 50, 100}); };
        auto count = [&](const char* after) { h.pct = 0; int x = s->nclients(); if (x != cnt) { c.fail("count", "after %s %d clients are counted instead of %d", after, x, cnt); cnt = x; } };
        for (int st = c.rng.in(6, 14); st > 0 && c.nfail < 10; st--) {
            int op = c.rng.in(0, 7); uint64_t hit0 = h.hits; bool thr = false; std::string what;
            Ep* e = c.rng.chance(50) ? q.get() : s.get();
            switch (op) {
                case 0: case 1: {
                    if (!e->started()) break;
                    arm(); thr = throws([&] { e->acquire(); }); h.pct = 0;
                    what = thr ? "an interrupted acquisition" : "an acquisition";
                    c.tr("%s by a %s", what.c_str(), e->is_server() ? "server" : "client");
                    bool free = rd1(c, *pa);
                    if (thr && !free) c.fail("lock-lost", "after an interrupted acquisition, which raised, a safe read fails");
                    if (!thr) { if (free) c.fail("not-excluded", "after an acquisition (interrupted %d times) a safe read succeeds", (int)(h.hits - hit0)); e->release(); }
                    break;
                }
                case 2: {
                    if (q->started()) break;
                    arm(); thr = throws([&] { q->start(); }); h.pct = 0;
                    what = thr ? "an interrupted attachment" : "an attachment"; c.tr("%s", what.c_str());
                    if (q->started() == thr) c.fail("half-done", "%s leaves the client %sattached", what.c_str(), thr ? "" : "not ");
                    if (!thr) cnt++;
                    break;
                }
                case 3: {
                    if (!q->started()) break;
                    arm(); thr = throws([&] { q->stop(); }); h.pct = 0;
                    what = thr ? "an interrupted detachment" : "a detachment"; c.tr("%s", what.c_str());
                    if (q->started() != thr) c.fail("half-done", "%s leaves the client %sattached", what.c_str(), thr ? "not " : "");
                    if (!thr) cnt--;
                    break;
                }
                case 4: {
                    int x = -9; arm(); thr = throws([&] { x = s->nclients(); }); h.pct = 0;
                    what = "getNClients()"; c.tr("getNClients gives %d%s", x, thr ? " (interrupted)" : "");
                    if (!thr && x != cnt) c.fail("count", "%d clients are counted instead of %d", x, cnt);
                    break;
                }
                case 5: {
                    bool was = q->started();
                    arm(); thr = throws([&] { q->close(); }); h.pct = 0;
                    what = thr ? "an interrupted close" : "a close"; c.tr("%s", what.c_str());
                    if (thr && !was) c.fail("raised", "closing a client that is not attached raises");
                    if (!thr && was) cnt--;
                    break;
                }
                case 6: {
                    bool was = q->started();
                    arm(); q.reset(); h.pct = 0;
                    what = "a destruction"; c.tr("client destroyed%s, interrupted %d times", was ? " while attached" : "", (int)(h.hits - hit0));
                    if (was) { if (h.hits > hit0) { int x = s->nclients(); if (x != cnt && x != cnt - 1) c.fail("count", "%d clients are counted after a destruction, before %d", x, cnt); cnt = x; } else cnt--; }
                    q = make_client(dt, lay, "T", n);
                    break;
                }
                case 7: {      // a server that is refused or interrupted while starting
                    arm(); what = "a challenger";
                    if (!throws([&] { auto x = make_server(dt, lay, 3, 3, "T", n); x->start(); })) c.fail("takeover", "a second server runs");
                    h.pct = 0; c.tr("a challenger");
                    break;
                }
            }
            if (what.empty()) continue;
            probe(c, *pa, *pb, what.c_str());
            count(what.c_str());
            hs = hcomb(hs, op * 4 + thr * 2 + (h.hits > hit0));
            c.eval(hs);
        }
        q.reset(); pa.reset(); pb.reset(); s.reset();
    }
    // objects made of clients go away while signals arrive
    for (int k = 0; k < (c.thorough ? 60 : 8) && c.nfail < 10; k++) {
        using namespace EigenIPC;
        std::string n = c.name();
        c.begin("a %s is destroyed while signals arrive", k % 2 ? "consumer" : "string client");
        LibScope l;
        if (k % 2) {
            Producer p("T", n); p.run();
            for (int i = 0; i < 3; i++) { auto q = std::make_unique<Consumer>("T", n); q->run(); h.pct = i == 2 ? 100 : 40; q.reset(); h.pct = 0; }
            Consumer q("T", n); q.run();
            bool a = false, b = false;
            std::thread w([&] { LibScope l2; a = q.wait(5000) && q.ack(); });
            p.trigger(); b = p.wait_ack_from(1, 5000); w.join();
            if (!a || !b) c.fail("lock-lost", "a trigger does not get through after an interrupted destruction");
        } else {
            StringTensor<StrServer> s(3, "T", n); s.run();
            for (int i = 0; i < 3; i++) { auto q = std::make_unique<StringTensor<StrClient>>("T", n); q->run(); h.pct = i == 2 ? 100 : 40; q.reset(); h.pct = 0; }
            StringTensor<StrClient> q("T", n); q.run();
            std::vector<std::string> v{"a", "bc", ""}, g(3);
            if (!s.write(v) || !q.read(g) || g != v) c.fail("lock-lost", "strings do not get through after an interrupted destruction");
        }
        c.eval(hcomb(k, h.hits));
    }
    c.count("interrupted waits", h.hits);
    hook = nullptr;
    // real signals
    struct sigaction sa {}; sa.sa_handler = onsig; sigaction(SIGUSR1, &sa, nullptr);
    for (int k = 0; k < (c.thorough ? 40 : 3) && c.nfail < 10; k++) {
        int what = k % 3;
        c.begin("signals sent during %s", what == 0 ? "an acquisition" : what == 1 ? "a count" : "a detachment");
        std::string n = c.name();
        auto s = make_server(DI, 0, 2, 2, "T", n), a = make_client(DI, 0, "T", n), b = make_client(DI, 0, "T", n);
        s->start(); a->start(); b->start();
        b->acquire();
        std::atomic<int> st{0}; bool thr = false; int x = 0;
        std::thread t([&] { thr = throws([&] { if (what == 0) a->acquire(); else if (what == 1) x = s->nclients(); else a->stop(); }); st = 1; });
        double t0 = now(); int sent = 0;
        while (!st && now() - t0 < 0.3) { pthread_kill(t.native_handle(), SIGUSR1); sent++; msleep(1); }
        bool early = st && !thr;
        if (early) c.fail("not-excluded", "a call that needs the lock returned while another endpoint held it (%d signals)", sent);
        b->release();
        t.join();
        if (!early && what == 0 && !thr) a->release();
        probe(c, *b, *s, "a wait interrupted by signals");
        c.count("signals sent", sent);
        c.eval(hcomb(what, thr));
    }
}

// whoever needs the lock waits for it as long as it takes: the library's clock runs on by days meanwhile
static void patience(Ctx& c) {
    const char* ops[] = {"acquisition by the server", "acquisition by a client", "attachment", "detachment", "close of a client", "destruction of a client", "client count", "close of the server", "stop of the server"};
    int id = 0;
    for (int rep = 0; rep < (c.thorough ? 8 : 1); rep++)
    for (int op = 0; op < 9; op++) for (int hk = 0; hk < 2; hk++) for (int verb = 0; verb < 2; verb++) {
        if (id++ % c.nshards != c.shard || c.nfail > 8) continue;
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1);
        bool safe = c.rng.chance(70);
        c.begin("%s%s%s while a %s holds the lock for days", ops[op], verb ? ", logging" : "", safe ? "" : ", unsafe", hk ? "client" : "server");
        std::string n = c.name();
        auto s = make_server(dt, lay, 2, 2, "T", n); s->start();
        auto pa = make_client(dt, lay, "T", n), pb = make_client(dt, lay, "T", n);
        pa->start(); pb->start();
        bool srv = op == 0 || op > 5;
        if (srv && !hk) hk = 1;
        EpP q = make_client(dt, lay, "T", n, safe, verb, verb ? 2 : 0);
        if (op != 2) q->start();
        Ep* holder = hk ? pa.get() : s.get();
        holder->acquire();
        Hours h; ahead = 0; hook = &h;
        std::atomic<int> done{0}; std::string exc; int x = -1;
        std::thread t([&] {
            try {
                switch (op) {
                    case 0: s->acquire(); break;
                    case 1: q->acquire(); break;
                    case 2: q->start(); break;
                    case 3: q->stop(); break;
                    case 4: q->close(); break;
                    case 5: q.reset(); break;
                    case 6: x = s->nclients(); break;
                    case 7: s->close(); break;
                    case 8: s->stop(); break;
                }
            } catch (const std::exception& e) { exc = e.what(); }
            done = 1;
        });
        const long H = 3600L * 1000000000;
        double t0 = now();
        bool waited = false;
        while (!done && now() - t0 < 0.25) {
            if (h.blocked || h.timed > 20000) { if (!waited) { waited = true; t0 = now() - 0.2; } ahead += H; }
            c.tick(); msleep(2);
        }
        bool early = done;
        if (early && op < 2) c.fail("gave-up", "%s %s while the lock is held, after %s", ops[op], exc.empty() ? "succeeds" : "raises", h.timed ? "timed waits" : "no wait");
        else if (early && !exc.empty()) c.fail("gave-up", "%s raises while the lock is held", ops[op]);
        hook = nullptr;
        holder->release();
        t0 = now();
        while (!done && now() - t0 < 20) { c.tick(); msleep(0.5); }
        if (!done) { c.fail("stuck", "%s does not get the lock, which is free", ops[op]); c.flush(); _exit(0); }
        t.join(); ahead = 0;
        if (!exc.empty()) c.fail("raised", "%s raises: %s", ops[op], exc.c_str());
        int want = 2 + (op == 0 || op == 1 || op == 2 || op == 6);
        if (op == 6 && !early && x != want) c.fail("count", "%d clients are counted instead of %d", x, want);
        if (op < 2 && exc.empty()) {
            if (rd1(c, *pb)) c.fail("not-excluded", "after a long wait for the lock a safe read through another endpoint succeeds");
            (op ? q : s)->release();
        }
        if (op < 7) { probe(c, *pa, *pb, ops[op]); x = s->nclients(); if (x != want) c.fail("count", "after a %s %d clients are counted instead of %d", ops[op], x, want); }
        c.eval(hcomb(hcomb(op, hk), hcomb(verb, safe)));
        c.count("waits of days for the lock"); c.count("waits that blocked", h.blocked > 0 || h.timed > 0);
        q.reset(); pa.reset(); pb.reset(); s.reset();
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"history", 8, 16, history}, {"sched", 6, 12, sched}, {"signals", 2, 8, signals}, {"counter", 2, 4, counter}, {"patience", 4, 8, patience}});
}
