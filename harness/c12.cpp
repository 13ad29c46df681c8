// C12: every trigger reaches every consumer exactly once and acknowledgements are conserved.
#include "remote.hpp"
#include "sched.hpp"
#include "vclock.hpp"
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/Producer.hpp>
using namespace vf;
using EigenIPC::Consumer;
using EigenIPC::Producer;
using V = EigenIPC::Journal::VLevel;

// ---- producers and consumers, here or in another process -----------------------------------------
enum { P_NEW = 1, P_RUN, P_TRIG, P_WAIT, P_CLOSE, C_NEW, C_RUN, C_WAIT, C_ACK, C_WACK, C_CLOSE, FREE };
struct Objs {
    std::map<int, std::unique_ptr<Producer>> p;
    std::map<int, std::unique_ptr<Consumer>> c;
    int next = 1;
};
struct Rep { int r = 0; int acts = 0; double ms = 0; std::string what; };   // r: 1 true/ok, 0 false, -1 raised
static Rep perform(Objs& o, int op, int id, int a, int b, const std::string& s1, const std::string& s2) {
    Rep x;
    double t0 = now();
    try {
        LibScope l;
        switch (op) {
            case P_NEW: x.r = o.next++; o.p[x.r] = std::make_unique<Producer>(s1, s2, false, V::V0, a != 0); break;
            case P_RUN: o.p.at(id)->run(); x.r = 1; break;
            case P_TRIG: o.p.at(id)->trigger(); x.r = 1; break;
            case P_WAIT: x.r = o.p.at(id)->wait_ack_from(a, b); break;
            case P_CLOSE: o.p.at(id)->close(); x.r = 1; break;
            case C_NEW: x.r = o.next++; o.c[x.r] = std::make_unique<Consumer>(s1, s2, false, V::V0); break;
            case C_RUN: o.c.at(id)->run(); x.r = 1; break;
            case C_WAIT: x.r = o.c.at(id)->wait(b); break;
            case C_ACK: x.r = o.c.at(id)->ack(); break;
            case C_WACK: x.r = o.c.at(id)->wait_and_ack([&]() -> bool { x.acts++; if (a == 2) throw std::runtime_error("vf action"); return a == 0; }, b); break;
            case C_CLOSE: o.c.at(id)->close(); x.r = 1; break;
            case FREE: o.p.erase(id); o.c.erase(id); x.r = 1; break;
        }
    } catch (const std::exception& e) { x.r = -1; x.what = e.what(); }
    x.ms = (now() - t0) * 1000;
    return x;
}
struct Place {                       // where objects live
    HostP h; std::shared_ptr<Objs> o;
    static Place local() { Place p; p.o = std::make_shared<Objs>(); return p; }
    static Place remote() {
        Place p;
        auto* st = new Objs;
        p.h = std::make_shared<Host>([st](Buf& q, Buf& a) {
            int op = q.get<int>(), id = q.get<int>(), x = q.get<int>(), y = q.get<int>(); auto s1 = q.gets(), s2 = q.gets();
            Rep r = perform(*st, op, id, x, y, s1, s2);
            a.put(r.r); a.put(r.acts); a.put(r.ms); a.puts(r.what);
        });
        p.h->limit = 20;
        return p;
    }
    Rep call(int op, int id = 0, int a = 0, int b = 0, const std::string& s1 = "", const std::string& s2 = "") {
        if (!h) return perform(*o, op, id, a, b, s1, s2);
        Buf q; q.put((int)R_CUSTOM); q.put(0); q.put(op); q.put(id); q.put(a); q.put(b); q.puts(s1); q.puts(s2);
        Buf r = h->call(q);
        r.get<char>();
        Rep x; x.r = r.get<int>(); x.acts = r.get<int>(); x.ms = r.get<double>(); x.what = r.gets();
        return x;
    }
};

// ---- histories against a counting model ----------------------------------------------------------
static void model(Ctx& c) {
    int cases = c.thorough ? 800 : 60;
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        c.begin("history %d", k);
        uint64_t h = c.rng();
        std::string ns = c.rng.chance(70) ? c.name() : "", base = ns.empty() ? c.name() : "x";
        Place places[3] = {Place::local(), Place::remote(), Place::remote()};
        int nprod = 0;
        std::vector<std::pair<Place*, int>> old;     // consumers closed earlier, to be run again
        // one or two generations of the producer, each with consumers running before the first trigger
        int gens = c.rng.in(1, 4);
        for (int g = 0; g < gens && c.nfail < 10; g++) {
            Place& pp = places[c.rng.in(0, 2)];
            Rep r = pp.call(P_NEW, 0, 0, 0, base, ns);
            int pid = r.r;
            if (r.r < 0) { c.fail("start", "constructing a producer on a free name raised: %s", r.what.c_str()); return; }
            if (c.rng.chance(20) && pp.call(P_TRIG, pid).r != -1) c.fail("not running", "a producer which does not run triggered");
            r = pp.call(P_RUN, pid);
            if (r.r != 1) { c.fail("start", "running a producer on a free name raised: %s", r.what.c_str()); return; }
            nprod++;
            struct Con { Place* p; int id; int got = 0; bool on = true, acked = false; };
            std::vector<Con> cs;
            int nc = c.rng.in(1, 4);
            for (int i = 0; i < nc; i++) {
                Con x; x.p = &places[c.rng.in(0, 2)];
                bool again = !old.empty() && c.rng.chance(70);
                if (again) { x.p = old.back().first; x.id = old.back().second; old.pop_back(); c.count("consumers run again"); }
                else x.id = x.p->call(C_NEW, 0, 0, 0, base, ns).r;
                if (c.rng.chance(10) && x.p->call(C_WAIT, x.id, 0, 1).r != -1) c.fail("not running", "a consumer which does not run waited");
                Rep y = x.p->call(C_RUN, x.id);
                if (y.r != 1) c.fail("start", "running a consumer raised: %s", y.what.c_str());
                if (c.rng.chance(10)) x.p->call(C_RUN, x.id);
                cs.push_back(x);
            }
            c.tr("generation %d with %d consumers", g, nc);
            int trig = 0;
            std::set<int> out{0};        // acknowledgements made and not accounted for: possible numbers
            int steps = c.rng.in(10, 60);
            for (int s = 0; s < steps && c.nfail < 10; s++) {
                int op = c.rng.in(0, 99);
                Con& q = cs[c.rng() % cs.size()];
                int ms = c.rng.chance(80) ? c.rng.in(1, 4) : c.rng.in(5, 25);
                if (op < 22) {
                    // sometimes wait until all have got the previous one
                    bool behind = false;
                    for (auto& x : cs) if (x.on && x.got < trig) behind = true;
                    if (behind && c.rng.chance(80)) continue;
                    c.tr("trigger %d", trig + 1);
                    if (pp.call(P_TRIG, pid).r != 1) c.fail("trigger", "trigger raised");
                    trig++;
                } else if (op < 75) {
                    if (!q.on) continue;
                    int pend = trig - q.got;
                    bool wa = c.rng.chance(45);
                    int act = c.rng.chance(60) ? 0 : c.rng.chance(70) ? 1 : 2;
                    int to = pend >= 1 && c.rng.chance(35) ? -1 : ms;
                    c.tr("%s(%d) of consumer %d, %d pending%s", wa ? "wait_and_ack" : "wait", to, (int)(&q - &cs[0]), pend, wa ? act == 0 ? "" : act == 1 ? " with a failing action" : " with a raising action" : "");
                    Rep r = q.p->call(wa ? C_WACK : C_WAIT, q.id, act, to);
                    h = hcomb(h, hcomb(op < 50, pend * 16 + wa * 8 + act));
                    if (pend == 0) {
                        if (r.r != 0) c.fail("phantom trigger", "a wait %s with no trigger pending%s%s", r.r == 1 ? "succeeded" : "raised", r.r < 0 ? ": " : "", r.what.c_str());
                        if (r.ms < to - 1.5) c.fail("early", "a wait of %d ms failed after %.2f ms", to, r.ms);
                        if (r.acts) c.fail("action", "the action was called though no trigger arrived");
                        c.count("timeouts");
                    } else if (pend >= 2) {
                        if (r.r != -1) c.fail("missed", "a consumer with %d triggers pending got %s instead of an error", pend, r.r ? "success" : "a timeout");
                        if (r.acts) c.fail("action", "the action was called though triggers were missed");
                        c.count("misses");
                    } else {
                        int want = !wa ? 1 : act == 0 ? 1 : act == 1 ? 0 : -1;
                        if (r.r != want) c.fail("lost trigger", "%s with a trigger pending gives %s instead of %s %s", wa ? "wait_and_ack" : "wait", r.r == 1 ? "success" : r.r == 0 ? "failure" : "an error", want == 1 ? "success" : want == 0 ? "failure" : "an error", r.what.c_str());
                        if (wa && r.acts != 1) c.fail("action", "the action was called %d times", r.acts);
                        q.got++;
                        c.count("triggers received");
                        if (wa) {
                            q.acked = true;
                            std::set<int> n;
                            for (int v : out) { if (act == 0 || act == 1) n.insert(v + 1); if (act != 0) n.insert(v); }
                            out = n;
                        }
                    }
                } else if (op < 82) {
                    if (!q.on) continue;
                    c.tr("ack of consumer %d", (int)(&q - &cs[0]));
                    Rep r = q.p->call(C_ACK, q.id);
                    if (r.r != 1) c.fail("ack", "ack %s", r.r ? "raised" : "failed");
                    std::set<int> n; for (int v : out) n.insert(v + 1);
                    out = n;
                } else if (op < 97) {
                    int n = *out.begin();
                    int ask = c.rng.chance(60) ? n : c.rng.in(0, n + 2);
                    bool sure = out.size() == 1 && ask == n;
                    int to = sure && c.rng.chance(40) && n > 0 ? -1 : c.rng.in(1, 6);
                    c.tr("wait_ack_from(%d, %d), made %d..%d", ask, to, *out.begin(), *out.rbegin());
                    Rep r = pp.call(P_WAIT, pid, ask, to);
                    h = hcomb(h, hcomb(ask, n));
                    if (r.r < 0) c.fail("acks", "wait_ack_from raised: %s", r.what.c_str());
                    else if (r.r == 1) {
                        std::set<int> m; for (int v : out) if (v >= ask) m.insert(v - ask);
                        if (m.empty()) c.fail("phantom ack", "wait_ack_from(%d) succeeded with %d acknowledgements not accounted for", ask, *out.rbegin());
                        // the unedited library succeeds on exactly n only; more cannot be told apart
                        out = m.empty() ? std::set<int>{0} : m;
                        c.count("ack waits succeeded");
                    } else {
                        if (sure) c.fail("lost ack", "wait_ack_from(%d, %d) failed with exactly that many acknowledgements made", ask, to);
                        if (r.ms < to - 1.5) c.fail("early", "wait_ack_from(%d, %d) failed after %.2f ms", ask, to, r.ms);
                        if (out.count(ask)) out.erase(ask);
                        if (out.empty()) out.insert(0);
                        c.count("ack waits failed");
                    }
                } else if (op == 97 && cs.size() > 1) {   // one consumer goes away
                    if (!q.on) continue;
                    c.tr("close of consumer %d", (int)(&q - &cs[0]));
                    q.p->call(C_CLOSE, q.id); q.on = false;
                    if (q.p->call(C_WAIT, q.id, 0, 1).r != -1) c.fail("not running", "a closed consumer waited");
                    if (c.rng.chance(50) && trig == 0) { q.p->call(C_RUN, q.id); q.on = true; }
                } else if (op == 98 && trig == 0) {      // one more, still before the first trigger
                    Con x; x.p = &places[c.rng.in(0, 2)];
                    x.id = x.p->call(C_NEW, 0, 0, 0, base, ns).r;
                    x.p->call(C_RUN, x.id);
                    cs.push_back(x);
                }
                c.eval(h);
            }
            // settle: every pending trigger and acknowledgement is still there, and nothing else
            for (auto& x : cs) if (x.on) {
                int pend = trig - x.got;
                Rep r = x.p->call(C_WAIT, x.id, 0, 2);
                if (r.r != (pend == 0 ? 0 : pend == 1 ? 1 : -1)) c.fail("conservation", "in the end a consumer with %d triggers pending got %d", pend, r.r);
                if (pend == 1 && x.p->call(C_WAIT, x.id, 0, 2).r != 0) c.fail("conservation", "a trigger was received twice");
            }
            if (out.size() == 1) {
                int n = *out.begin();
                if (n && pp.call(P_WAIT, pid, n, 5).r != 1) c.fail("conservation", "in the end the %d acknowledgements made and not accounted for are not there", n);
                if (pp.call(P_WAIT, pid, 1, 2).r != 0) c.fail("conservation", "an acknowledgement was accounted for twice");
            }
            bool first = c.rng.chance(50);
            auto closep = [&] { c.rng.chance(50) ? pp.call(P_CLOSE, pid) : Rep(); pp.call(FREE, pid); };
            if (first) closep();
            for (auto& x : cs) {
                bool cl = c.rng.chance(60);
                if (cl) x.p->call(C_CLOSE, x.id);
                if (cl && c.rng.chance(60)) old.push_back({x.p, x.id});
                else x.p->call(FREE, x.id);
            }
            if (!first) closep();
        }
        c.count("producers", nprod);
    }
}

// ---- controlled schedules ------------------------------------------------------------------------
struct TB { int tb = 0, td = 0, ab = 0, ad = 0, acc = 0, ready = 0, fin = 0; bool stop = false; };

static void sched(Ctx& c) {
    int cases = c.thorough ? 6000 : 450;
    for (int k = 0; k < cases && c.nfail < 5; k++) {
        uint64_t seed = c.rng();
        Rng r(seed);
        int nc = r.in(1, 3), kind = r.in(0, 2), rounds = r.in(1, 4), pct = r.chance(50) ? r.in(3, 15) : r.in(15, 60);
        std::string n = c.name();
        c.begin("schedule %d seed %llu: %s, %d consumers, %d rounds", k, (unsigned long long)seed, kind == 0 ? "lock-step" : kind == 1 ? "free triggers" : "free acknowledgements", nc, rounds);
        ledger.reset();
        Sched S(r(), pct);
        S.timeout_pct = r.in(5, 60);
        S.spurious_pct = r.chance(50) ? r.in(1, 30) : 0;
        TB T;
        std::vector<uint64_t> sd; for (int i = 0; i <= nc; i++) sd.push_back(r());
        S.on_stuck = [&](const std::string& s) { c.fail("stuck", "a wake-up was lost or a lock not released: %s", s.c_str()); c.flush(); };
        auto guarded = [&](const char* who, std::function<void()> f) {
            return [&, who, f] { try { f(); } catch (const std::exception& e) { c.fail("raised", "%s raised: %s", who, e.what()); } };
        };
        bool preset = r.chance(50);
        S.add("producer", guarded("the producer", [&] {
            Rng q(sd[0]);
            LibScope l;
            Producer p("p", n);
            p.run();
            { in_lib--; while (T.ready < nc) S.relax(); in_lib++; }
            if (kind == 0) {
                for (int i = 0; i < rounds; i++) {
                    T.tb++; p.trigger(); T.td++;
                    for (;;) {
                        int to = q.chance(60) ? -1 : 5, a0 = T.ad;
                        bool ok = p.wait_ack_from(nc, to);
                        if (ok && T.ab - T.acc < nc) c.fail("phantom ack", "wait_ack_from(%d) succeeded with only %d acknowledgements begun", nc, T.ab - T.acc);
                        if (!ok && to < 0) c.fail("blocking", "a blocking wait_ack_from failed");
                        if (!ok && a0 - T.acc == nc) c.fail("lost ack", "wait_ack_from(%d) failed with exactly that many acknowledgements made", nc);
                        if (ok) { T.acc += nc; break; }
                    }
                }
            } else if (kind == 1) {
                for (int i = 0; i < rounds; i++) {
                    T.tb++; p.trigger(); T.td++;
                    in_lib--; for (int z = q.in(0, 12); z > 0; z--) S.relax(); in_lib++;
                }
            } else {
                int tries = 0;
                while (tries++ < 400) {
                    int left = nc * rounds - T.acc;
                    if (!left) break;
                    int ask = q.chance(30) ? T.ab - T.acc : q.in(1, std::min(left, 2)), a0 = T.ad;
                    if (ask < 1) ask = 1;
                    if (T.ad == nc * rounds) ask = left;     // all made: exactly these must be accounted for
                    bool all = T.ad == nc * rounds;
                    bool ok = p.wait_ack_from(ask, 5);
                    if (ok && T.ab - T.acc < ask) c.fail("phantom ack", "wait_ack_from(%d) succeeded with only %d acknowledgements begun", ask, T.ab - T.acc);
                    if (!ok && a0 == T.ab && a0 - T.acc == ask) c.fail("lost ack", "wait_ack_from(%d) failed with exactly that many acknowledgements made%s", ask, all ? " by all" : "");
                    if (ok) T.acc += ask;
                }
                if (T.acc != nc * rounds) c.fail("conservation", "%d acknowledgements made, %d accounted for", nc * rounds, T.acc);
                if (p.wait_ack_from(1, 5)) c.fail("conservation", "an acknowledgement was accounted for twice");
            }
            { in_lib--; T.stop = true; while (T.fin < nc) S.relax(); in_lib++; }
        }));
        for (int i = 0; i < nc; i++)
            S.add(fmt("consumer%d", i), guarded("a consumer", [&, i] {
                Rng q(sd[i + 1]);
                LibScope l;
                Consumer x("p", n);
                if (preset) { }
                x.run();
                T.ready++;
                int got = 0;
                bool missed = false;
                auto one = [&](int to) -> int {      // 1 got, 0 not, -1 missed
                    int d0 = T.td;
                    int r;
                    try { r = x.wait(to); } catch (const std::exception&) { r = -1; }
                    if (r == 1) {
                        if (T.tb < got + 1) c.fail("phantom trigger", "a wait succeeded with no trigger pending");
                        if (d0 > got + 1) c.fail("missed", "a wait succeeded though %d triggers were pending", d0 - got);
                        got++;
                    } else if (r == 0) {
                        if (d0 > got) c.fail("lost trigger", "a wait failed though a trigger was pending");
                        if (to < 0) c.fail("blocking", "a blocking wait failed");
                    } else {
                        if (T.tb < got + 2) c.fail("missed", "a wait raised though at most %d triggers were pending", T.tb - got);
                        missed = true;
                    }
                    return r;
                };
                if (kind == 0) {
                    for (int j = 0; j < rounds; j++) {
                        bool wa = q.chance(50);
                        if (wa) {
                            for (;;) {
                                int acts = 0, to = q.chance(60) ? -1 : 5, d0 = T.td;
                                bool ok = x.wait_and_ack([&] { acts++; T.ab++; return true; }, to);
                                if (ok) { T.ad++; if (acts != 1) c.fail("action", "the action was called %d times", acts); if (T.tb < got + 1) c.fail("phantom trigger", "no trigger was pending"); got++; break; }
                                if (acts) { c.fail("action", "wait_and_ack failed though the trigger arrived and the action succeeded"); T.ad++; got++; break; }
                                if (d0 > got) c.fail("lost trigger", "a wait_and_ack failed though a trigger was pending");
                                if (to < 0) { c.fail("blocking", "a blocking wait failed"); break; }
                            }
                        } else {
                            while (one(q.chance(60) ? -1 : 5) == 0) {}
                            T.ab++;
                            if (!x.ack()) c.fail("ack", "an acknowledgement failed");
                            T.ad++;
                        }
                    }
                    if (x.wait(5)) c.fail("conservation", "a trigger was received twice");
                } else if (kind == 1) {
                    while (!missed && got < rounds) { if (one(q.chance(20) && got < T.td ? -1 : 5) == 1 && q.chance(40)) { in_lib--; for (int z = q.in(0, 6); z > 0; z--) S.relax(); in_lib++; } }
                    if (missed) { if (one(5) != -1) c.fail("missed", "a consumer which missed triggers goes on silently"); }
                    else if (x.wait(5)) c.fail("conservation", "a trigger was received twice");
                } else {
                    for (int j = 0; j < rounds; j++) {
                        T.ab++;
                        if (!x.ack()) c.fail("ack", "an acknowledgement failed");
                        T.ad++;
                        if (q.chance(30)) { in_lib--; for (int z = q.in(0, 10); z > 0; z--) S.relax(); in_lib++; }
                    }
                }
                { in_lib--; T.fin++; while (!T.stop && kind != 0) S.relax(); in_lib++; }
            }));
        S.run();
        c.eval(S.hash, S.preemptions > 0);
        c.count("waits woken", S.n_wakeups); c.count("waits timed out", S.n_timeouts); c.count("spurious wake-ups", S.n_spurious);
        c.count("triggers", T.td); c.count("acknowledgements", T.ad);
    }
}

// ---- free running --------------------------------------------------------------------------------
struct Jitter : Hook {
    Rng r; int pct;
    Jitter(uint64_t s, int p) : r(s), pct(p) {}
    void wobble() { if (r.chance(pct)) { if (r.chance(70)) sched_yield(); else msleep(r.in(1, 300) / 1000.0); } }
    void before(Call&) override { wobble(); }
    void after(Call&) override { wobble(); }
};
struct Sh { std::atomic<int> ready, bad, got[8], tdone, tbegun, acked, go; std::atomic<int> kind[16]; char msg[16][200]; std::atomic<int> nmsg; };
static void say(Sh* s, const char* key, const char* f, ...) {
    int i = s->nmsg++;
    if (i >= 16) return;
    char b[150]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    snprintf(s->msg[i], 200, "%s|%s", key, b);
}

static void stress(Ctx& c) {
    int cases = c.thorough ? 60 : 8;
    for (int k = 0; k < cases && c.nfail < 5; k++) {
        int nc = c.rng.in(1, 6), rounds = c.thorough ? 3000 : 700, jit = c.rng.chance(60) ? c.rng.in(1, 10) : 0;
        bool free_acks = c.rng.chance(30);
        int timed = c.rng.in(0, 80);
        std::string n = c.name();
        c.begin("stress %d: %d consumer processes, %d rounds, %s, %d%% timed waits, jitter %d%%", k, nc, rounds, free_acks ? "free acknowledgements" : "lock-step", timed, jit);
        Sh* s = shared<Sh>();
        std::vector<Proc> ps;
        uint64_t sd = c.rng();
        for (int i = 0; i < nc; i++)
            ps.push_back(spawn([&, i] {
                Rng q(sd + i);
                Jitter J(sd * 7 + i, jit);
                Consumer x("p", n);
                LibScope l;
                x.run();
                if (jit) hook = &J;
                s->ready++;
                if (free_acks) {
                    for (int j = 0; j < rounds; j++) { if (!x.ack()) say(s, "ack", "an acknowledgement failed"); s->acked++; }
                } else {
                    for (int j = 0; j < rounds; j++) {
                        for (;;) {
                            int to = q.chance(timed) ? q.in(1, 3) : -1, acts = 0, d0 = s->tdone;
                            bool ok, wa = q.chance(50), act_ok = true;
                            double t0 = now();
                            if (wa) ok = x.wait_and_ack([&] { acts++; s->acked++; return true; }, to);
                            else ok = x.wait(to);
                            if (!ok) {
                                if (to < 0) say(s, "blocking", "a blocking wait failed");
                                if (acts) { say(s, "action", "wait_and_ack failed though everything succeeded"); }
                                if (d0 > j) say(s, "lost trigger", "a wait failed though trigger %d was pending", j + 1);
                                if ((now() - t0) * 1000 < to - 1.5) say(s, "early", "a wait of %d ms failed after %.2f ms", to, (now() - t0) * 1000);
                                continue;
                            }
                            if (s->tbegun < j + 1) say(s, "phantom trigger", "trigger %d was received before it was made", j + 1);
                            if (!wa) { s->acked++; if (!x.ack()) say(s, "ack", "an acknowledgement failed"); }
                            (void)act_ok;
                            break;
                        }
                        s->got[i]++;
                    }
                    hook = nullptr;
                    if (x.wait(3)) say(s, "conservation", "a trigger was received twice");
                }
                hook = nullptr;
                x.close();
                return 0;
            }));
        {
            Jitter J(sd * 13, jit);
            Rng q(sd + 99);
            Producer p("p", n);
            LibScope l;
            p.run();
            while (s->ready < nc) msleep(0.2);
            if (jit) hook = &J;
            int accd = 0;
            if (free_acks) {
                double t0 = now();
                while (accd < nc * rounds && now() - t0 < 40) {
                    int made = s->acked, left = nc * rounds - accd;
                    int ask = made == nc * rounds ? left : q.chance(50) ? std::max(1, made - accd) : q.in(1, std::min(left, 3));
                    if (p.wait_ack_from(ask, 1)) accd += ask;
                    else if (made == nc * rounds) { say(s, "lost ack", "%d acknowledgements were made and %d of them not accounted for, but waiting for these fails", made, left); break; }
                    if (accd > s->acked + nc) say(s, "phantom ack", "more acknowledgements accounted for than made");
                    c.tick();
                }
            } else {
                for (int i = 0; i < rounds; i++) {
                    s->tbegun++; p.trigger(); s->tdone++;
                    double t0 = now();
                    for (;;) {
                        int to = q.chance(timed) ? q.in(1, 3) : 200;
                        int a0 = s->acked;
                        if (p.wait_ack_from(nc, to)) break;
                        (void)a0;
                        if (now() - t0 > 20) { say(s, "stuck", "round %d: after 20 s not all acknowledgements arrived (%d made)", i, (int)s->acked - accd); break; }
                    }
                    if (now() - t0 > 20) break;
                    accd += nc;
                    if (s->acked < accd) say(s, "phantom ack", "%d acknowledgements accounted for, %d made", accd, (int)s->acked);
                    c.tick();
                }
            }
            hook = nullptr;
            if (p.wait_ack_from(1, 2)) say(s, "conservation", "an acknowledgement was accounted for twice");
            bool stuck = s->nmsg > 0;
            for (auto& x : ps) if (!join(x, stuck ? 1 : 30)) { if (!stuck) say(s, "stuck", "a consumer never ends: a trigger was lost"); kill9(x); }
                else if (x.status) say(s, "raised", "a consumer raised (status %x)", x.status);
        }
        for (int i = 0; i < std::min(16, (int)s->nmsg); i++) { std::string m = s->msg[i]; c.fail(m.substr(0, m.find('|')), "%s", m.substr(m.find('|') + 1).c_str()); }
        if (!free_acks) for (int i = 0; i < nc; i++) { if (c.nfail == 0 && s->got[i] != rounds) c.fail("conservation", "%d triggers, consumer received %d", rounds, (int)s->got[i]); }
        c.count("stress rounds", rounds); c.count("stress acknowledgements", s->acked);
        c.eval(hcomb(hcomb(nc, rounds), hcomb(k, c.shard)));
        unshare_mem(s);
    }
}

// a long life: counters may not wrap or drift
static void longlife(Ctx& c) {
    int rounds = c.thorough ? 3000000 : 140000;
    std::string n = c.name();
    c.begin("long life of %d rounds", rounds);
    Producer p("p", n);
    p.run();
    Consumer a("p", n), b("p", n);
    a.run(); b.run();
    for (int i = 0; i < rounds && c.nfail < 3; i++) {
        p.trigger();
        bool w1 = a.wait(50), w2;
        bool ok = b.wait_and_ack([] { return true; }, 50);
        w2 = ok;
        bool k = a.ack();
        bool pa = p.wait_ack_from(2, 50);
        if (!w1 || !w2 || !k || !pa) c.fail("long", "round %d: wait %d, wait_and_ack %d, ack %d, wait_ack %d", i, w1, w2, k, pa);
        if (i % 1000 == 0) c.tick();
    }
    c.count("long rounds", rounds);
    c.eval(rounds + c.shard);
}

// time-outs of hours and weeks: the clock of the library runs ahead, so that they take no time
static void hours(Ctx& c) {
    int cases = c.thorough ? 40000 : 4000;
    const long S = 1000000000, Y = 31557600 * S;
    std::vector<int> ts = {1, 9, 999, 1000, 32767, 32768, 60000, 65535, 65536, 100000, 1000000, 3600000, 4294967, 4294968, 86400000, 604800000, 1073741824, 2147483646, 2147483647};
    std::string n = c.name();
    int nc = c.rng.in(1, 3);
    Producer p("p", n); p.run();
    std::vector<std::unique_ptr<Consumer>> cs;
    for (int i = 0; i < nc; i++) { cs.push_back(std::make_unique<Consumer>("p", n)); cs.back()->run(); }
    std::vector<int> pend(nc, 0); int acks = 0;
    for (int k = 0; k < cases && c.nfail < 8; k++) {
        int ms = c.rng.chance(50) ? (int)((unsigned)c.rng() >> c.rng.in(1, 31)) : c.rng.pick(ts);
        if (ms <= 0) ms = 1;
        ahead = c.rng.pick(*new std::vector<long>{0, 3600 * S, 86400 * S * 31, Y, 12 * Y + 120 * 86400 * S, 30 * Y, 81 * Y}) + (c.rng.chance(50) ? (long)(c.rng() % (400 * 86400UL)) * S : 0);
        if (c.rng.chance(30)) ahead += S - (real_ns() + ahead) % S - c.rng.in(1, 300000);
        int op = c.rng.in(0, 3), i = c.rng.in(0, nc - 1);
        Hours h;
        const char* on[] = {"wait", "wait_and_ack", "wait_ack_from", "trigger"};
        c.begin("%s of %d ms at %+ld s, %d consumers, pending %d, acks %d", on[op], ms, (long)ahead / S, nc, pend[i], acks);
        hook = &h;
        long v0 = virtual_ns(); double t0 = now();
        bool r = true, want = true; int need = c.rng.in(1, nc);
        {
            LibScope in;
            if (op == 0) { want = pend[i]; r = cs[i]->wait(ms); pend[i] = 0; }
            if (op == 1) { want = pend[i]; r = cs[i]->wait_and_ack([] { return true; }, ms); if (want) acks++; pend[i] = 0; }
            if (op == 2) { if (acks && c.rng.chance(70)) need = acks; else need += acks; want = acks == need; r = p.wait_ack_from(need, ms); if (want) acks -= need; }
            if (op == 3) { bool any = false; for (int x : pend) any |= x; if (!any) { p.trigger(); for (int& x : pend) x = 1; } }
        }
        hook = nullptr;
        long v = virtual_ns() - v0; double el = now() - t0;
        if (r != want) c.fail("timeout", "%s of %d ms reports %s", on[op], ms, r ? "true" : "false");
        else if (!want && v + 20000 < (long)ms * 1000000) c.fail("early", "a timeout of %d ms was reported after %.3f ms", ms, v / 1e6);
        else if (v > (want ? 0 : (long)ms * 1000000) + (long)((el + 2) * S)) c.fail("late", "%s of %d ms %s ended after %.3f ms", on[op], ms, want ? "with nothing to wait for" : "", v / 1e6);
        c.eval(hcomb(hcomb(ms, op), hcomb(nc, want)));
        c.count("waits in the library's own time"); c.count("timed out", !want);
        if (k % 64 == 0) c.tick();
    }
    ahead = 0;
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"model", 8, 8, model}, {"sched", 8, 8, sched}, {"stress", 4, 4, stress, 60}, {"long", 1, 1, longlife}, {"hours", 2, 4, hours}});
}
