// C09: a crash at any point never prevents a forced restart from recovering.
#include "remote.hpp"
#include "sched.hpp"
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/StringTensor.hpp>
using namespace vf;
using namespace EigenIPC;
using StrS = StringTensor<StrServer>;
using StrC = StringTensor<StrClient>;
static const auto V0 = Journal::VLevel::V0;

struct Shared {
    std::atomic<int> calls;        // OS calls made by the victim so far
    std::atomic<int> want, given;  // rendezvous: the victim asks the parent to do step 'want'
    std::atomic<int> done;
    char at[200];                  // where it died
};

// dies at one OS call
struct Killer : Hook {
    Shared* sh; int target; bool after_;
    Killer(Shared* s, int t, bool a) : sh(s), target(t), after_(a) {}
    void die(Call& c, const char* w) { snprintf(sh->at, sizeof sh->at, "%s %s(%s)", w, opname(c.op), c.name.c_str()); kill(getpid(), SIGKILL); for (;;) pause(); }
    void before(Call& c) override { MemStep::before(c); if (!after_ && sh->calls == target) die(c, "before"); }
    void after(Call& c) override { MemStep::after(c); if (after_ && sh->calls == target) die(c, "after"); sh->calls++; }
};

struct W {                         // what a scenario works on
    Ctx& c; Shared* sh; std::string n; int dt, lay, R, C; Rng r;
    HostP& H; HostP& H2;
    EpP srv, cl;                   // survivors
    bool stuck = false;            // the lock died with its holder: survivors cannot detach
    std::function<void(int)> steps;
    void step(int k) { sh->want = k; while (sh->given < k) msleep(0.05); }     // victim's side
    void attach_survivor() { cl = remote_client(H2, dt, lay, "T", n); cl->start(); }
};
static void use(Ep& e, W& w) {
    Blk b(e.rows(), e.cols(), dtsize(w.dt)); Rng r(5);
    fill_random(b, w.dt, r);
    e.write(b, 0, 0, Form::whole, r); e.read(b, 0, 0, Form::whole, r);
}
struct Scenario { const char* name; std::function<void(W&)> setup; std::function<void(W&)> victim; };

static void incumbent(W& w) {
    w.srv = remote_server(w.H, w.dt, w.lay, w.R, w.C, "T", w.n);
    w.srv->start();
    w.attach_survivor();
    Blk b(w.R, w.C, dtsize(w.dt)); fill_random(b, w.dt, w.r);
    w.srv->write(b, 0, 0, Form::whole, w.r);
}
static void custom(Buf& q, Buf& a);
enum Cust { K_STR_SERVE = 1, K_STR_CLIENT, K_PROD, K_CONS, K_TRIG, K_WAITACK, K_CONSWAIT, K_DROP, K_STR_RW };

static Buf rpc(HostP& h, const std::function<void(Buf&)>& f) {
    Buf q; q.put((int)R_CUSTOM); q.put(0); f(q);
    Buf a = h->call(q);
    if (a.get<char>()) throw std::runtime_error(a.gets());
    return a;
}
static std::vector<Scenario> scenarios() {
    std::vector<Scenario> v;
    auto none = [](W&) {};
    auto life = [](bool force) { return [force](W& w) { auto s = make_server(w.dt, w.lay, w.R, w.C, "T", w.n, force); s->start(); use(*s, w); s->nclients(); s->stop(); s->start(); s->acquire(); s->release(); s->close(); }; };
    v.push_back({"a server's life", none, life(false)});
    v.push_back({"a forced server's life", none, life(true)});
    v.push_back({"a server with clients", [](W& w) { w.steps = [&w](int) { w.attach_survivor(); }; },
        [](W& w) { auto s = make_server(w.dt, w.lay, w.R, w.C, "T", w.n); s->start(); w.step(1); use(*s, w); s->nclients(); s->stop(); s->start(); use(*s, w); s->close(); }});
    v.push_back({"a client's life", incumbent,
        [](W& w) { auto e = make_client(w.dt, w.lay, "T", w.n); e->start(); use(*e, w); e->stop(); e->start(); e->acquire(); e->release(); use(*e, w); e->close(); }});
    v.push_back({"a refused client", incumbent, [](W& w) { auto e = make_client((w.dt + 1) % 4, w.lay, "T", w.n); throws([&] { e->start(); }); }});
    v.push_back({"a forced takeover of a running server", incumbent,
        [](W& w) { auto s = make_server(w.dt, w.lay, w.R + 1, w.C + 2, "T", w.n, true); s->start(); use(*s, w); s->close(); }});
    v.push_back({"a refused challenger", incumbent, [](W& w) { throws([&] { auto s = make_server(w.dt, w.lay, 2, 3, "T", w.n); s->start(); s->close(); }); }});
    v.push_back({"a challenger of a stopped server", [](W& w) { incumbent(w); w.srv->stop(); }, [](W& w) { throws([&] { auto s = make_server(w.dt, w.lay, 2, 3, "T", w.n); s->start(); use(*s, w); s->close(); }); }});
    v.push_back({"a restart over the leftovers of a crash", [](W& w) {
            auto n = w.n; int dt = w.dt;
            Proc p = spawn([n, dt] { auto s = make_server(dt, 0, 3, 3, "T", n); s->start(); auto q = make_client(dt, 0, "T", n); q->start(); q->acquire(); kill(getpid(), SIGKILL); return 0; });
            join(p, 20); },
        life(true)});
    return v;
}
static std::vector<Scenario> string_scenarios() {
    std::vector<Scenario> v;
    auto userw = [](auto& t) { std::vector<std::string> x{"aa", "bcdefgh"}; t.write(x, 0); t.read(x, 0); std::string s = "zz"; t.write(s, 1); t.read(s, 1); };
    v.push_back({"a string server's life", [](W&) {}, [=](W& w) { StrS s(4, "T", w.n, false, V0, w.r.chance(50)); s.run(); userw(s); s.getNClients(); s.close(); }});
    v.push_back({"a string client's life", [](W& w) { rpc(w.H, [&](Buf& q) { q.put(K_STR_SERVE); q.puts(w.n); q.put(4); q.put(false); }); },
        [=](W& w) { StrC s("T", w.n); s.run(); userw(s); s.close(); }});
    v.push_back({"a forced string server over a running one", [](W& w) { rpc(w.H, [&](Buf& q) { q.put(K_STR_SERVE); q.puts(w.n); q.put(4); q.put(false); }); },
        [=](W& w) { StrS s(6, "T", w.n, false, V0, true); s.run(); userw(s); s.close(); }});
    return v;
}
static std::vector<Scenario> trigger_scenarios() {
    std::vector<Scenario> v;
    v.push_back({"a producer's life", [](W&) {}, [=](W& w) { Producer p("T", w.n, false, V0, w.r.chance(50)); p.run(); p.trigger(); p.wait_ack_from(1, 2); p.close(); }});
    v.push_back({"a producer with a consumer", [](W& w) { w.steps = [&w](int k) { if (k == 1) rpc(w.H2, [&](Buf& q) { q.put(K_CONS); q.puts(w.n); }); else rpc(w.H2, [&](Buf& q) { q.put(K_CONSWAIT); q.put(200); }); }; },
        [=](W& w) { Producer p("T", w.n, false, V0, false); p.run(); w.step(1); p.trigger(); w.step(2); p.wait_ack_from(1, 20); p.trigger(); p.wait_ack_from(1, 2); p.close(); }});
    v.push_back({"a consumer's life", [](W& w) { rpc(w.H, [&](Buf& q) { q.put(K_PROD); q.puts(w.n); q.put(false); }); w.steps = [&w](int) { rpc(w.H, [&](Buf& q) { q.put(K_TRIG); }); }; },
        [=](W& w) { Consumer q("T", w.n); q.run(); w.step(1); q.wait(50); q.ack(); q.wait(2); w.step(2); q.wait_and_ack([] { return true; }, 50); q.close(); }});
    return v;
}

// in the host processes
static std::unique_ptr<StrS> g_ss; static std::unique_ptr<StrC> g_sc; static std::unique_ptr<Producer> g_p; static std::unique_ptr<Consumer> g_c;
static void custom(Buf& q, Buf& a) {
    Cust k = q.get<Cust>();
    if (k == K_STR_SERVE) { auto n = q.gets(); int len = q.get<int>(); bool f = q.get<bool>(); g_ss.reset(); g_ss.reset(new StrS(len, "T", n, false, V0, f)); g_ss->run(); a.put(g_ss->getLength()); a.put(g_ss->getNClients()); std::vector<std::string> v(len, "?"); bool z = g_ss->read(v, 0); for (auto& s : v) z = z && s.empty(); a.put(z); }
    else if (k == K_STR_CLIENT) { auto n = q.gets(); g_sc.reset(); g_sc.reset(new StrC("T", n)); g_sc->run(); a.put(g_sc->getLength()); }
    else if (k == K_STR_RW) {
        bool srv = q.get<bool>(), wr = q.get<bool>(); std::string s = q.gets(); int idx = q.get<int>(); bool ok;
        if (srv) ok = wr ? g_ss->write(s, idx) : g_ss->read(s, idx); else ok = wr ? g_sc->write(s, idx) : g_sc->read(s, idx);
        a.put(ok); a.puts(s);
    }
    else if (k == K_PROD) { auto n = q.gets(); bool f = q.get<bool>(); g_p.reset(); g_p.reset(new Producer("T", n, false, V0, f)); g_p->run(); }
    else if (k == K_CONS) { auto n = q.gets(); g_c.reset(); g_c.reset(new Consumer("T", n)); g_c->run(); }
    else if (k == K_TRIG) g_p->trigger();
    else if (k == K_WAITACK) { int n = q.get<int>(); a.put(g_p->wait_ack_from(n, q.get<int>())); }
    else if (k == K_CONSWAIT) a.put(g_c->wait_and_ack([] { return true; }, q.get<int>()));
    else if (k == K_DROP) { g_ss.reset(); g_sc.reset(); g_p.reset(); g_c.reset(); }
}

struct Crash {
    Ctx& c; HostP hosts[4];        // 0,1 survivors; 2,3 recovery
    explicit Crash(Ctx& x) : c(x) {}
    HostP& H(int i) { if (!hosts[i] || hosts[i]->dead || hosts[i]->busy) { hosts[i] = std::make_shared<Host>(custom); hosts[i]->limit = 25; } return hosts[i]; }

    void drop(W& w) { if (w.stuck) for (int i : {0, 1}) if (hosts[i]) hosts[i]->kill_now(); w.cl.reset(); w.srv.reset(); }
    // runs the victim until it dies or ends; returns the number of OS calls it made
    int run(Scenario& s, W& w, int target, bool after, const std::function<void()>& prepare = nullptr) {
        Shared* sh = w.sh;
        sh->calls = 0; sh->want = 0; sh->given = 0; sh->done = 0; sh->at[0] = 0;
        Proc p = spawn([&] {
            Killer k(sh, target, after);
            hook = &k;
            LibScope l;
            if (prepare) prepare();
            try { s.victim(w); } catch (const std::exception& e) { fprintf(stderr, "victim: %s\n", e.what()); }
            sh->done = 1;
            hook = nullptr;
            _exit(0);
            return 0;
        });
        double t0 = now();
        while (!join(p, 0)) {
            if (sh->want > sh->given) { int k = sh->want; try { if (w.steps) w.steps(k); } catch (const std::exception& e) { fprintf(stderr, "step: %s\n", e.what()); } sh->given = k; }
            if (now() - t0 > 25) { c.fail("victim-hangs", "%s does not end", s.name); kill9(p); break; }
            msleep(0.1); c.tick();
        }
        if (WIFSIGNALED(p.status) && WTERMSIG(p.status) != SIGKILL) c.fail("victim-crash", "%s crashed with signal %d", s.name, WTERMSIG(p.status));
        return sh->calls;
    }
    void survivors(W& w, const char* when) {
        Rng r(3);
        for (Ep* e : {w.srv.get(), w.cl.get()}) if (e) {
            c.tr("survivors %s", when);
            try { Blk b(e->rows(), e->cols(), dtsize(w.dt)); bool a = e->read(b, 0, 0, Form::whole, r).ok, z = e->write(b, 0, 0, Form::whole, r).ok; if (!a || !z) w.stuck = true; c.count(a && z ? "survivor operations that worked" : "survivor operations that failed"); }
            catch (const std::exception& x) { c.fail("survivor", "a read or write of a survivor %s: %s", when, x.what()); }
        }
    }
    // false: went wrong
    bool recover(W& w, bool twice = false) {
        HostP &a = H(2), &b = H(3);
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), R = c.rng.in(1, 7), C = c.rng.in(1, 7);
        const char* at = "creating the server";
        try {
            c.tr("recovery");
            auto s = remote_server(a, dt, lay, R, C, "T", w.n, true);
            at = "running the server"; s->start();
            if (s->rows() != R || s->cols() != C) { c.fail("dims", "the recovered server has %dx%d", s->rows(), s->cols()); return false; }
            at = "reading the zeros";
            Blk z(R, C, dtsize(dt)), g(R, C, dtsize(dt)); Rng r(9);
            if (twice) survivors(w, "while the recovered server runs");
            if (!s->read(g, 0, 0, Form::whole, r).ok) { c.fail("unusable", "the recovered server cannot read"); return false; }
            if (!(g == z)) { c.fail("zeros", "the recovered tensor is not zero"); return false; }
            at = "counting clients";
            int nc = s->nclients();
            if (nc != 0) { c.fail("count", "the recovered server counts %d clients", nc); return false; }
            at = "attaching a client";
            auto q = remote_client(b, dt, lay, "T", w.n);
            q->start();
            if (q->rows() != R || q->cols() != C) { c.fail("dims", "a new client sees %dx%d instead of %dx%d", q->rows(), q->cols(), R, C); return false; }
            if (s->nclients() != 1) { c.fail("count", "the recovered server counts %d clients instead of 1", s->nclients()); return false; }
            at = "exchanging data";
            fill_random(z, dt, c.rng);
            if (!s->write(z, 0, 0, Form::whole, r).ok || !q->read(g, 0, 0, Form::whole, r).ok || !(g == z)) { c.fail("exchange", "server and new client do not exchange data"); return false; }
            fill_random(z, dt, c.rng);
            if (!q->write(z, 0, 0, Form::whole, r).ok || !s->read(g, 0, 0, Form::whole, r).ok || !(g == z)) { c.fail("exchange", "new client and server do not exchange data"); return false; }
            at = "closing a survivor";
            if (!w.stuck && c.rng.chance(50)) { if (c.rng.chance(50)) { w.cl.reset(); w.srv.reset(); } else { w.srv.reset(); w.cl.reset(); }
                at = "exchanging data after survivors were closed";
                fill_random(z, dt, c.rng);
                if (!q->write(z, 0, 0, Form::whole, r).ok || !s->read(g, 0, 0, Form::whole, r).ok || !(g == z)) { c.fail("exchange", "closing survivors cuts the recovered server off"); return false; }
                auto q2 = remote_client(b, dt, lay, "T", w.n); q2->start();
                if (s->nclients() != 2 || !q2->read(g, 0, 0, Form::whole, r).ok || !(g == z)) { c.fail("exchange", "after survivors were closed a new client is not served"); return false; }
            }
            at = "closing";
            q->close(); s->close();
        } catch (const std::exception& e) { c.fail("recovery", "%s fails: %s", at, e.what()); return false; }
        return true;
    }
    bool recover_strings(W& w) {
        HostP &a = H(2), &b = H(3);
        int len = c.rng.in(2, 7);
        const char* at = "creating the server";
        try {
            c.tr("recovery");
            Buf x = rpc(a, [&](Buf& q) { q.put(K_STR_SERVE); q.puts(w.n); q.put(len); q.put(true); });
            int l = x.get<int>(), nc = x.get<int>(); bool z = x.get<bool>();
            if (l != len || nc != 0 || !z) { c.fail("string-state", "the recovered string server has length %d instead of %d, %d clients%s", l, len, nc, z ? "" : ", non-empty strings"); return false; }
            at = "attaching a client";
            x = rpc(b, [&](Buf& q) { q.put(K_STR_CLIENT); q.puts(w.n); });
            if (x.get<int>() != len) { c.fail("string-state", "a new client sees another length"); return false; }
            at = "exchanging data";
            for (int srv = 0; srv < 2; srv++) {
                std::string s = fmt("text%d", c.rng.in(0, 99999));
                int idx = c.rng.in(0, len - 1);
                x = rpc(srv ? a : b, [&](Buf& q) { q.put(K_STR_RW); q.put((bool)srv); q.put(true); q.puts(s); q.put(idx); });
                bool ok = x.get<bool>();
                x = rpc(srv ? b : a, [&](Buf& q) { q.put(K_STR_RW); q.put(!srv); q.put(false); q.puts(""); q.put(idx); });
                bool ok2 = x.get<bool>();
                if (!ok || !ok2 || x.gets() != s) { c.fail("string-exchange", "the recovered string tensor does not pass strings on"); return false; }
            }
            at = "closing";
            for (int i : {3, 2, 1, 0}) if (hosts[i]) rpc(H(i), [](Buf& q) { q.put(K_DROP); });
        } catch (const std::exception& e) { c.fail("string-recovery", "%s fails: %s", at, e.what()); return false; }
        return true;
    }
    bool recover_triggers(W& w) {
        HostP &a = H(2), &b = H(3);
        const char* at = "creating the producer";
        try {
            c.tr("recovery");
            rpc(a, [&](Buf& q) { q.put(K_PROD); q.puts(w.n); q.put(true); });
            at = "running a consumer";
            rpc(b, [&](Buf& q) { q.put(K_CONS); q.puts(w.n); });
            for (int i = 0; i < 3; i++) {
                at = "triggering"; rpc(a, [&](Buf& q) { q.put(K_TRIG); });
                at = "waiting for the trigger"; if (!rpc(b, [&](Buf& q) { q.put(K_CONSWAIT); q.put(8000); }).get<bool>()) { c.fail("trigger", "a new consumer does not get the trigger of the recovered producer"); return false; }
                at = "waiting for acknowledgements"; if (!rpc(a, [&](Buf& q) { q.put(K_WAITACK); q.put(1); q.put(8000); }).get<bool>()) { c.fail("ack", "the recovered producer does not get the acknowledgement"); return false; }
            }
            at = "closing";
            if (c.rng.chance(50)) for (int i : {0, 1}) hosts[i].reset();   // survivors may wait on what the dead held
            for (int i : {3, 2}) rpc(H(i), [](Buf& q) { q.put(K_DROP); });
        } catch (const std::exception& e) { c.fail("trigger-recovery", "%s fails: %s", at, e.what()); return false; }
        for (int i : {0, 1}) hosts[i].reset();
        return true;
    }
    std::string leftover(const std::string& n) { std::string s; for (auto& x : shm_entries(n)) { auto k = x.find(n); s += x.substr(0, k) + x.substr(k + n.size()) + " "; struct stat st; s += stat(("/dev/shm/" + x).c_str(), &st) == 0 && st.st_size == 0 ? "(empty) " : ""; } return s; }
};

static void points(Ctx& c, std::vector<Scenario> all, int kind) {
    Crash K(c);
    Shared* sh = shared<Shared>();
    int rounds = c.thorough ? 25 : 3;
    int idx = 0;
    std::set<std::string> states;
    for (int round = 0; round < rounds; round++)
        for (auto& s : all) {
            int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), R = c.rng.in(1, 9), C = c.rng.in(1, 9);
            auto prepare = [&](W& w) { try { s.setup(w); return true; } catch (const std::exception& e) { c.fail("setup", "%s: %s", s.name, e.what()); return false; } };
            // count
            int total;
            {
                c.begin("%s", s.name);
                W w{c, sh, c.name(), dt, lay, R, C, Rng(1), K.H(0), K.H(1)};
                if (!prepare(w)) continue;
                total = K.run(s, w, -1, false);
                if (!sh->done) continue;
                w.cl.reset(); w.srv.reset();
                if (kind) for (int i : {0, 1}) if (K.hosts[i]) { if (kind == 2) K.hosts[i].reset(); else rpc(K.H(i), [](Buf& q) { q.put(K_DROP); }); }
                shm_clean(w.n);
            }
            c.count("kill points", 0);
            for (int p = 0; p < total * 2; p++) {
                if (idx++ % c.nshards != c.shard) continue;
                c.begin("%s, killed %s call %d of %d", s.name, p % 2 ? "after" : "before", p / 2, total);
                W w{c, sh, c.name(), dt, lay, R, C, Rng(1), K.H(0), K.H(1)};
                if (!prepare(w)) continue;
                K.run(s, w, p / 2, p % 2);
                if (sh->done) { c.count("not reached"); }
                std::string l = K.leftover(w.n);
                states.insert(l);
                c.tr("died %s; leaves: %s", sh->at, l.c_str());
                if (kind == 0) { K.survivors(w, "after the crash"); K.recover(w, true); K.survivors(w, "after the recovery"); }
                else if (kind == 1) K.recover_strings(w);
                else K.recover_triggers(w);
                c.eval(hcomb(hcomb(hstr(s.name), p), hcomb(dt * 2 + lay, hstr(l))), !sh->done);
                c.count("recoveries"); if (p < 40 && idx % 31 == 0) c.sample(c.cur + " " + sh->at + ", leaving " + l);
                K.drop(w);
                shm_clean(w.n);
                if (c.nfail > 6) goto out;
            }
        }
out:
    c.count("distinct leftovers", states.size());
    unshare_mem(sh);
}
static void tensors(Ctx& c) { points(c, scenarios(), 0); }
static void strings(Ctx& c) { points(c, string_scenarios(), 1); }
static void triggers(Ctx& c) { points(c, trigger_scenarios(), 2); }

// dies at single accesses to shared memory, so also between two stores with no OS call in between
static void accesses(Ctx& c, std::vector<Scenario> all, int kind) {
    Crash K(c);
    Shared* sh = shared<Shared>();
    std::atomic<long>* cnt = shared<std::atomic<long>>();
    std::set<std::string> states;
    int per = c.thorough ? 150 : 6;
    for (auto& s : all) {
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), R = c.rng.in(1, 4), C = c.rng.in(1, 4);
        auto prepare = [&](W& w) { try { s.setup(w); return true; } catch (const std::exception& e) { c.fail("setup", "%s: %s", s.name, e.what()); return false; } };
        long total = 0;
        for (int p = -1; p < per; p++) {
            long target = p < 0 ? -1 : (long)(c.rng() % (uint64_t)total);
            if (p < 0) c.begin("%s, accesses counted", s.name); else c.begin("%s, killed at access %ld of %ld", s.name, target, total);
            W w{c, sh, c.name(), dt, lay, R, C, Rng(1), K.H(0), K.H(1)};
            if (!prepare(w)) break;
            cnt->store(0);
            K.run(s, w, -1, false, [&] {
                MemStep::on_access() = [=](uintptr_t a) {
                    if (cnt->fetch_add(1) == target) { snprintf(sh->at, sizeof sh->at, "at an access to %s", map_name((void*)a).c_str()); kill(getpid(), SIGKILL); for (;;) pause(); }
                };
                MemStep::start();
            });
            if (p < 0) { total = *cnt; if (!sh->done || total < 2) { if (total < 2) c.count("scenarios without accesses"); K.drop(w); shm_clean(w.n); break; } c.count("accesses seen", total); }
            std::string l = K.leftover(w.n);
            states.insert(l);
            c.tr("died %s; leaves: %s", sh->at, l.c_str());
            if (kind == 0) { K.survivors(w, "after the crash"); K.recover(w, true); K.survivors(w, "after the recovery"); }
            else K.recover_strings(w);
            c.eval(hcomb(hcomb(hstr(s.name), target), hcomb(dt * 2 + lay, R * 8 + C)), p >= 0 && !sh->done);
            c.count("recoveries");
            if (p == 0) c.sample(c.cur + " " + sh->at);
            K.drop(w);
            shm_clean(w.n);
            if (c.nfail > 6) goto out;
        }
    }
out:
    c.count("distinct leftovers", states.size());
    unshare_mem(cnt);
    unshare_mem(sh);
}
static void stores(Ctx& c) { auto v = scenarios(); accesses(c, v, 0); accesses(c, string_scenarios(), 1); }

// dies in the middle of the copy of a read or a write
static void midcopy(Ctx& c) {
    Crash K(c);
    Shared* sh = shared<Shared>();
    int n = c.thorough ? 400 : 40;
    for (int k = 0; k < n && c.nfail < 6; k++) {
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1);
        bool server = c.rng.chance(50), write = c.rng.chance(60);
        int page = c.rng.in(0, 6), R = 128, C = (int)(7 * 4096 / dtsize(dt) / 128);
        c.begin("a %s killed on page %d of a %s", server ? "server" : "client", page, write ? "write" : "read");
        W w{c, sh, c.name(), dt, lay, R, C, Rng(1), K.H(0), K.H(1)};
        Scenario s{"mid-copy", nullptr, nullptr};
        if (server) w.steps = [&](int) { w.attach_survivor(); };
        else { try { incumbent(w); } catch (const std::exception& e) { c.fail("setup", "%s", e.what()); continue; } }
        s.victim = [=](W& v) {
            EpP e = server ? make_server(dt, lay, R, C, "T", v.n) : make_client(dt, lay, "T", v.n);
            e->start();
            if (server) v.step(1);
            GuardBuf g(7 * 4096);
            memset(g.mem, 1, 7 * 4096);
            GuardBuf::on_fault() = [=](GuardBuf*, size_t) { snprintf(sh->at, sizeof sh->at, "in the middle"); kill(getpid(), SIGKILL); for (;;) pause(); };
            g.close(page, page + 1);
            if (write) e->write_raw(g.mem, R, C, 0, 0); else e->read_raw(g.mem, R, C, 0, 0);
        };
        K.run(s, w, -1, false);
        if (sh->done) { c.fail("monitor", "the victim did not die in its copy"); continue; }
        K.survivors(w, "after the crash");
        K.recover(w, true);
        K.survivors(w, "after the recovery");
        c.eval(hcomb(hcomb(page, write * 2 + server), dt * 2 + lay)); c.count("recoveries");
        c.sample(c.cur);
        K.drop(w);
        shm_clean(w.n);
    }
    unshare_mem(sh);
}

// several crashes on one name without anybody cleaning up
static void chains(Ctx& c) {
    Crash K(c);
    Shared* sh = shared<Shared>();
    int n = c.thorough ? 1200 : 90;
    auto all = scenarios();
    std::set<std::string> states;
    for (int k = 0; k < n && c.nfail < 6; k++) {
        std::string nm = c.name();
        c.begin("chain %d", k);
        int len = c.rng.in(2, 4);
        uint64_t h = k;
        for (int i = 0; i < len; i++) {
            // only forced servers and clients of whatever is left can start here
            W w{c, sh, nm, c.rng.in(0, 3), c.rng.in(0, 1), c.rng.in(1, 6), c.rng.in(1, 6), Rng(c.rng()), K.H(0), K.H(1)};
            Scenario s{"crash in a chain", nullptr, nullptr};
            int kind = c.rng.in(0, 3), target = c.rng.in(0, kind == 2 ? 60 : 110); bool aft = c.rng.chance(50);
            if (kind == 0) s.victim = [](W& w) { throws([&] { auto s = make_server(w.dt, w.lay, w.R, w.C, "T", w.n, true); s->start(); use(*s, w); s->stop(); s->start(); s->close(); }); kill(getpid(), SIGKILL); };
            if (kind == 1) s.victim = [](W& w) { throws([&] { auto s = make_server(w.dt, w.lay, w.R, w.C, "T", w.n, false); s->start(); use(*s, w); kill(getpid(), SIGKILL); }); };
            if (kind == 2) s.victim = [](W& w) { throws([&] { auto s = make_server(w.dt, w.lay, w.R, w.C, "T", w.n, true); s->start(); auto q = make_client(w.dt, w.lay, "T", w.n); q->start(); if (w.r.chance(50)) q->acquire(); kill(getpid(), SIGKILL); }); };
            if (kind == 3) s.victim = [](W& w) { throws([&] { auto s = make_server(w.dt, w.lay, w.R, w.C, "T", w.n, true); auto t = make_server(w.dt, w.lay, w.R, w.C, "T", w.n, true); if (w.r.chance(50)) s.swap(t); s->start(); t->close(); use(*s, w); s->close(); }); };
            K.run(s, w, target, aft);
            std::string l = K.leftover(nm);
            states.insert(l);
            c.tr("victim %d (kind %d) died %s; leaves: %s", i, kind, sh->at, l.c_str());
            h = hcomb(h, hstr(l) + target);
        }
        W w{c, sh, nm, 0, 0, 1, 1, Rng(1), K.H(0), K.H(1)};
        K.recover(w);
        c.eval(h); c.count("recoveries");
        shm_clean(nm);
    }
    c.count("distinct leftovers", states.size());
    c.sample("2 to 4 crashes of forced and ordinary servers and their clients on one name, then a recovery");
    unshare_mem(sh);
}

// clients waiting in attach while servers crash and restart: they come back
static void waiters(Ctx& c) {
    Crash K(c);
    Shared* sh = shared<Shared>();
    int n = c.thorough ? 300 : 24;
    for (int k = 0; k < n && c.nfail < 4; k++) {
        std::string nm = c.name();
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), target = c.rng.in(0, 75); bool aft = c.rng.chance(50);
        c.begin("a client waits while a server dies %s call %d", aft ? "after" : "before", target);
        W w{c, sh, nm, dt, lay, c.rng.in(1, 6), c.rng.in(1, 6), Rng(1), K.H(0), K.H(1)};
        Scenario s{"server", nullptr, [](W& w) { throws([&] { auto s = make_server(w.dt, w.lay, w.R, w.C, "T", w.n, true); s->start(); use(*s, w); s->stop(); s->close(); }); kill(getpid(), SIGKILL); }};
        auto q = remote_client(K.H(1), dt, lay, "T", nm);
        q->begin(R_START);
        K.run(s, w, target, aft);
        // a server which dies running and holding the lock takes along whoever is just attaching to it
        int val = 1, mark = 0;
        if (sem_t* x = sem_open(("/" + nm + "T_dataSem").c_str(), 0); x != SEM_FAILED) { sem_getvalue(x, &val); sem_close(x); }
        if (int fd = ::open(("/dev/shm/" + nm + "T_isSrvrRunning").c_str(), O_RDONLY); fd >= 0) { if (::read(fd, &mark, 4)) {} ::close(fd); }
        bool excused = val == 0 && mark == 1;
        c.tr("died %s, lock %d, marker %d", sh->at, val, mark);
        try {
            auto srv = remote_server(K.H(2), dt, lay, 5, 6, "T", nm, true);
            srv->start();
            if (!q->ready(excused ? 1.5 : 25)) { if (excused) c.count("waiters taken along"); else c.fail("waiter", "a client waiting during the crash never comes back after the recovery"); K.hosts[1].reset(); q->h->kill_now(); }
            else {
                bool att = true;
                try { q->end(); } catch (const HostDied&) { c.fail("waiter-crash", "a client waiting during the crash died"); att = false; } catch (const std::exception&) { att = false; }
                c.count(att ? "waiters attached" : "waiters refused");
                auto q2 = remote_client(K.H(3), dt, lay, "T", nm); q2->start();
                Blk b(5, 6, dtsize(dt)), g(5, 6, dtsize(dt)); fill_random(b, dt, c.rng);
                if (!srv->write(b, 0, 0, Form::whole, c.rng).ok || !q2->read(g, 0, 0, Form::whole, c.rng).ok || !(b == g)) c.fail("exchange", "the recovered server does not serve a new client");
                if (att) { Blk x(q->rows(), q->cols(), dtsize(dt)); q->read(x, 0, 0, Form::whole, c.rng); }
            }
            q.reset();
        } catch (const std::exception& e) { c.fail("recovery", "fails: %s", e.what()); }
        c.eval(hcomb(target * 2 + aft, dt * 2 + lay)); c.count("recoveries");
        shm_clean(nm);
    }
    c.sample("a client waits in attach, the server dies at some OS call, a forced one starts");
    unshare_mem(sh);
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"tensors", 8, 8, tensors, 60}, {"strings", 4, 8, strings, 60}, {"triggers", 4, 8, triggers, 60}, {"stores", 4, 8, stores, 60}, {"midcopy", 2, 8, midcopy, 60}, {"chains", 4, 8, chains, 60}, {"waiters", 4, 8, waiters, 60}});
}
