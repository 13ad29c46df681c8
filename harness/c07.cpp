// C07: the server's client count equals the number of attached clients.
#include "remote.hpp"
#include <sys/resource.h>
#include "sched.hpp"
using namespace vf;

static void history(Ctx& c) {
    int cases = c.thorough ? 500 : 70;
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1);
        std::string n = c.name();
        c.begin("history %d: %s %s", k, dtname(dt), layname(lay));
        auto h1 = std::make_shared<Host>(), h2 = std::make_shared<Host>(), h3 = std::make_shared<Host>();
        EpP s; bool running = false;
        std::vector<EpP> old;
        struct Cl { EpP e; int d, l; bool att = false, bad = false, dead = false; int gen = 0; };
        std::vector<Cl> cl;
        int gen = 0, expect = 0;
        uint64_t h = c.rng();
        auto check = [&](const char* after) {
            int x = s->nclients();
            c.count("counts checked");
            if (x != expect) c.fail("count", "the server counts %d clients instead of %d after %s", x, expect, after);
            if (c.rng.chance(20) && (x = s->nclients()) != expect) c.fail("count", "a repeated count gives %d instead of %d", x, expect);
        };
        auto newserver = [&](bool force) {
            int R = c.rng.in(1, 4), C = c.rng.in(1, 4);
            bool rem = c.rng.chance(35);
            if (gen && c.rng.chance(35)) {   // of another kind: the clients that matched are now refused, and the other way round
                if (c.rng.chance(70)) dt = (dt + c.rng.in(1, 3)) % 4; else lay = 1 - lay;
                for (auto& z : cl) z.bad = z.d != dt || z.l != lay;
            }
            c.tr("new server %s %s %dx%d%s%s", dtname(dt), layname(lay), R, C, rem ? " in another process" : "", force ? " (forced)" : "");
            s = rem ? EpP(remote_server(h3, dt, lay, R, C, "T", n, force, c.rng.chance(70))) : make_server(dt, lay, R, C, "T", n, force, c.rng.chance(70));
            s->start(); running = true; gen++; expect = 0;
            check("starting");
        };
        newserver(false);
        int steps = c.rng.in(10, 45);
        for (int i = 0; i < steps && c.nfail < 10; i++) {
            int op = c.rng.in(0, 19);
            std::string what;
            Cl* q = cl.empty() ? nullptr : &cl[c.rng() % cl.size()];
            if (op <= 4 && cl.size() < 8) {
                bool bad = c.rng.chance(20);
                int d = bad ? (dt + c.rng.in(1, 3)) % 4 : dt, l = bad && c.rng.chance(30) ? 1 - lay : lay, loc = c.rng.in(0, 2);
                if (bad && c.rng.chance(30)) { d = dt; l = 1 - lay; }
                Cl x; x.d = d; x.l = l; x.bad = d != dt || l != lay;
                x.e = loc ? EpP(remote_client(loc == 1 ? h1 : h2, d, l, "T", n, c.rng.chance(80))) : make_client(d, l, "T", n, c.rng.chance(80));
                cl.push_back(std::move(x)); q = &cl.back();
                if (c.rng.chance(15)) { what = "constructing a client"; }
                else op = 5;
            }
            if (op == 5 || op == 6) {        // attach
                if (!q || !running) continue;
                what = q->bad ? "a refused attach" : q->att && q->gen == gen ? "attaching again" : "an attach";
                bool thr = throws([&] { q->e->start(); });
                if (thr != q->bad && !(q->att && q->gen != gen)) c.fail("attach", "attach %s", thr ? "raised" : "was not refused");
                if (!thr && !(q->att)) { q->att = true; q->gen = gen; expect++; }
            } else if (op <= 9) {            // detach
                if (!q) continue;
                what = q->att ? "a detach" : "detaching again";
                throws([&] { q->e->stop(); });
                if (q->att && q->gen == gen) expect--;
                q->att = false;
            } else if (op <= 11) {           // close
                if (!q) continue;
                what = "closing a client";
                int times = c.rng.in(1, 2);
                for (int t = 0; t < times; t++) throws([&] { q->e->close(); });
                if (q->att && q->gen == gen) expect--;
                q->att = false;
            } else if (op == 12) {           // destroy
                if (!q) continue;
                what = "destroying a client";
                if (q->att && q->gen == gen) expect--;
                q->e.reset();
                cl.erase(cl.begin() + (q - &cl[0]));
            } else if (op == 13) {           // use
                if (!q) continue;
                Blk b(1, 1, dtsize(q->e->dtype())); fill_random(b, q->e->dtype(), c.rng);
                q->e->write(b, 0, 0, Form::whole, c.rng); q->e->read(b, 0, 0, Form::whole, c.rng);
                what = "reads and writes";
            } else if (op == 14) {           // attach and detach in a row
                if (!q || q->bad || q->att || !running) continue;
                int t = c.rng.in(1, 6);
                for (int x = 0; x < t; x++) { q->e->start(); if (s->nclients() != expect + 1) c.fail("count", "an attached client is not counted once"); if (c.rng.chance(50)) q->e->stop(); else q->e->close(); }
                what = "attaching and detaching repeatedly";
            } else if (op == 15) {
                what = running ? "stopping the server" : "running the server again";
                if (running) s->stop(); else s->start();
                running = !running;
                if (!running) { for (int x = c.rng.in(0, 2); x > 0 && !cl.empty(); x--) { Cl& z = cl[c.rng() % cl.size()]; throws([&] { z.e->stop(); }); if (z.att && z.gen == gen) expect--; z.att = false; } s->start(); running = true; what = "detaching while the server was stopped"; }
            } else if (op == 16) {           // a challenger is refused
                throws([&] { auto x = make_server(dt, lay, 2, 2, "T", n); x->start(); });
                what = "a refused server";
            } else if (op == 17 && c.rng.chance(60)) {      // another server takes over; old clients do not count with it
                c.tr("the server ends");
                int how = c.rng.in(0, 2);
                if (how == 0) s->close(); else { s->stop(); old.push_back(std::move(s)); }
                newserver(how == 2);
                what = "another server took over";
                if (c.rng.chance(50)) { for (auto& z : cl) { throws([&] { z.e->stop(); }); z.att = false; } what += " and the clients of the earlier one detached"; }
            } else if (op == 18 && !old.empty()) { old.pop_back(); what = "an earlier server was destroyed"; }
            else continue;
            c.tr("%s", what.c_str());
            check(what.c_str());
            h = hcomb(h, hcomb(op, hcomb(expect, cl.size())));
            c.eval(h);
        }
        if (k == 0) { std::string t; for (size_t i = 0; i < c.trace.size() && i < 30; i++) t += c.trace[i] + "; "; c.sample(c.cur + ": " + t); }
        cl.clear(); old.clear(); s.reset();
        shm_clean(n);
    }
}

// states: 0 detached 1 attaching 2 attached 3 detaching; every change bumps the client's epoch (word = epoch*4+state)
static void sched(Ctx& c) {
    int cases = c.thorough ? 15000 : 2500;
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        int nc = c.rng.in(2, 4), dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), pct = c.rng.pick(*new std::vector<int>{5, 15, 30, 60});
        uint64_t sd = c.rng();
        c.begin("schedule %d: %s %s, %d clients, switch %d%% seed %llu", k, dtname(dt), layname(lay), nc, pct, (unsigned long long)sd);
        std::string n = c.name();
        auto s = make_server(dt, lay, 2, 3, "T", n); s->start();
        std::vector<int> st(nc, 0), ep(nc, 0);
        Sched sc(sd, pct);
        sc.mem_pct = sd % 5 ? 0 : sd % 2 ? 15 : 60;
        sc.on_stuck = [&](const std::string& w) { c.fail("stuck", "%s", w.c_str()); c.flush(); };
        int left = nc, final_attached = 0, ncounts = 0;
        for (int i = 0; i < nc; i++)
            sc.add(fmt("client%d", i), [&, i] {
                Rng r(hcomb(sd, i));
                {
                    EpP e = make_client(dt, lay, "T", n, r.chance(70));
                    auto set = [&](int x) { st[i] = x; ep[i]++; sc.step("state"); };
                    for (int x = r.in(1, 4); x > 0; x--) {
                        set(1); e->start(); set(2);
                        if (r.chance(25)) e->start();
                        if (r.chance(50)) { Blk b(1, 1, dtsize(dt)); fill_random(b, dt, r); e->write(b, 0, 0, Form::whole, r); }
                        set(3);
                        int how = r.in(0, 2);
                        if (how == 0) e->stop(); else if (how == 1) e->close(); else { e.reset(); e = make_client(dt, lay, "T", n); }
                        set(0);
                        if (r.chance(25)) e->stop();
                        if (r.chance(20)) { int bad = (dt + 1) % 4; auto b = make_client(bad, lay, "T", n); if (!throws([&] { b->start(); })) c.fail("attach", "a mismatching client was not refused"); }
                    }
                    if (r.chance(40)) { set(1); e->start(); set(2); final_attached++; left--; while (left) sc.wait_turn(Sched::SLEEPING); while (st[i] == 2 && final_attached >= 0) sc.wait_turn(Sched::SLEEPING); }
                    else left--;
                }
            });
        sc.add("server", [&] {
            Rng r(hcomb(sd, 77));
            while (left) {
                std::vector<int> s0 = st, e0 = ep;
                // anything that happens during the call is seen through the epochs
                int x = s->nclients();
                int lo = 0, hi = 0;
                for (int i = 0; i < nc; i++) { if (s0[i] == 2 && ep[i] == e0[i]) lo++; if (s0[i] != 0 || ep[i] != e0[i]) hi++; }
                if (x < lo || x > hi) c.fail("bounds", "the count is %d, %d clients are certainly attached and %d possibly", x, lo, hi);
                ncounts++;
                if (r.chance(10)) { s->stop(); s->start(); }
                sc.wait_turn(Sched::SLEEPING);
            }
            int want = final_attached, x = s->nclients();
            if (x != want) c.fail("count", "the count is %d instead of %d when nothing is in progress", x, want);
            final_attached = -1;
        });
        sc.run();
        if (sc.mem_pct) c.count("switch points at accesses to shared memory", sc.n_mem);
        for (auto& t : sc.ths) if (!t->exc.empty()) c.fail("raised", "%s: %s", t->name.c_str(), t->exc.c_str());
        if (s->nclients() != 0) c.fail("count", "the count is %d after all clients are gone", s->nclients());
        c.count("preemptions", sc.preemptions); c.count("counts checked", ncounts);
        c.eval(sc.hash, sc.preemptions > 0);
        if (k == 0) { std::string lg; for (size_t x = 0; x < sc.log.size() && x < 40; x++) lg += sc.log[x] + ","; c.sample(c.cur + " " + lg); }
    }
}

// processes and threads attach and detach all the time
static void churn(Ctx& c) {
    int rounds = c.thorough ? 60 : 6;
    for (int k = 0; k < rounds && c.nfail < 5; k++) {
        int np = c.rng.in(3, 6), dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), per = c.thorough ? 1500 : 300;
        std::string n = c.name();
        c.begin("churn %d: %d processes attach and detach %d times each", k, np, per);
        auto s = make_server(dt, lay, 3, 3, "T", n); s->start();
        auto* st = shared<std::atomic<uint64_t>>(16);
        auto* ctl = shared<std::atomic<int>>(4);
        uint64_t sd = c.rng();
        std::vector<Proc> ps;
        for (int p = 0; p < np; p++)
            ps.push_back(spawn([&, p] {
                Rng r(hcomb(sd, p));
                EpP e = make_client(dt, lay, "T", n, r.chance(70));
                auto set = [&](int x) { st[p] = (st[p] / 4 + 1) * 4 + x; };
                while (!ctl[0]) {}
                for (int i = 0; i < per; i++) {
                    set(1); e->start(); set(2);
                    if (r.chance(20)) msleep(0.05 * r.in(0, 10));
                    if (i == per - 1 && p % 2) break;       // the last attachment stays
                    set(3);
                    int how = r.in(0, 2);
                    if (how == 0) e->stop(); else if (how == 1) e->close(); else { e.reset(); e = make_client(dt, lay, "T", n); }
                    set(0);
                    if (r.chance(3)) { auto b = make_client((dt + 1) % 4, lay, "T", n); throws([&] { b->start(); }); }
                }
                ctl[1]++;
                while (!ctl[2]) msleep(1);
                return 0;
            }));
        ctl[0] = 1;
        uint64_t counts = 0; double t0 = now(); std::set<int> seen;
        while (ctl[1] < np && c.nfail < 5) {
            uint64_t a[16], b[16];
            for (int i = 0; i < np; i++) a[i] = st[i];
            int x = s->nclients();
            for (int i = 0; i < np; i++) b[i] = st[i];
            int lo = 0, hi = 0;
            for (int i = 0; i < np; i++) { if (a[i] == b[i] && a[i] % 4 == 2) lo++; if (a[i] != b[i] || a[i] % 4 != 0) hi++; }
            if (x < lo || x > hi) c.fail("bounds", "the count is %d, %d clients are certainly attached and %d possibly", x, lo, hi);
            counts++; seen.insert(x);
            if (counts % 64 == 0) { c.tick(); if (now() - t0 > 100) { c.fail("stuck", "the processes do not finish"); break; } }
            c.eval(hcomb(hcomb(k, x), hcomb(lo, hi)));
            msleep(0.01);
        }
        int want = np / 2;
        if (c.nfail == 0 && s->nclients() != want) c.fail("count", "the count is %d when %d clients are attached", s->nclients(), want);
        ctl[2] = 1;
        for (auto& p : ps) if (!join(p, 20)) { c.fail("stuck", "a process hangs"); kill9(p); } else if (p.status) c.fail("crash", "a process ended with %x", p.status);
        if (c.nfail == 0 && s->nclients() != 0) c.fail("count", "the count is %d after all processes ended", s->nclients());
        c.count("counts checked", counts); c.count("attaches", (uint64_t)np * per);
        if (k == 0) c.sample(fmt("%s: %llu counts, %zu different values", c.cur.c_str(), (unsigned long long)counts, seen.size()));
        unshare_mem(st, 16); unshare_mem(ctl, 4);
    }
}

// many clients at once: the count has no ceiling
static void crowd(Ctx& c) {
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl);
    size_t lim = std::min<size_t>(rl.rlim_cur, 1 << 20);
    for (int k = 0; k < (c.thorough ? 8 : 1) && c.nfail < 10; k++) {
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), np = c.thorough ? 12 : 4, per = std::min<int>(c.thorough ? 400 : 110, (lim - 64) / 10);
        c.begin("%d clients in each of %d processes", per, np);
        std::string n = c.name();
        auto s = make_server(dt, lay, 2, 2, "T", n); s->start();
        auto* st = shared<std::atomic<int>>(3);      // phase, clients attached, clients done
        std::vector<Proc> ps;
        for (int p = 0; p < np; p++) ps.push_back(spawn([&, p] {
            std::vector<EpP> v;
            for (int i = 0; i < per; i++) { v.push_back(make_client(dt, lay, "T", n, true)); v.back()->start(); st[1]++; }
            while (st[0] < 1) msleep(0.5);
            for (int i = 0; i < per; i += 2) { if (i % 4) v[i]->stop(); else v[i].reset(); st[1]--; }
            st[2]++;
            while (st[0] < 2) msleep(0.5);
            v.clear();
            return 0;
        }));
        auto look = [&](const char* when) {
            int x = s->nclients(), want = st[1];
            if (x != want) c.fail("count", "%s the count is %d instead of %d", when, x, want);
            c.eval(hcomb(hcomb(want, dt * 2 + lay), k)); c.count("counts checked");
            return x;
        };
        double t0 = now(); int peak = 0;
        while (st[1] < np * per && now() - t0 < 60) {
            int a = st[1], x = s->nclients(), b = st[1];
            if (x < a || x > b + np) c.fail("bounds", "the count is %d, %d clients are certainly attached and %d possibly", x, a, b + np);
            peak = std::max(peak, x); c.tick(); msleep(0.2);
        }
        if (st[1] == np * per) {
            peak = look("with everybody attached");
            st[0] = 1;
            while (st[2] < np && now() - t0 < 90) { c.tick(); msleep(1); }
            look("after half of them went away");
        } else c.fail("stuck", "only %d of %d clients attach", st[1].load(), np * per);
        st[0] = 2;
        for (auto& p : ps) { if (!join(p, 40)) { c.fail("stuck", "a process does not end"); kill9(p); } else if (p.status) c.fail("crash", "a process ended with %d", p.status); }
        if (!c.nfail) { st[1] = 0; look("after everybody went away"); }
        c.count("largest count", peak);
        if (k == 0) c.sample(c.cur);
        unshare_mem(st);
        s.reset();
        shm_clean(n);
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"history", 6, 16, history}, {"sched", 6, 16, sched}, {"churn", 2, 4, churn}, {"crowd", 1, 2, crowd}});
}
