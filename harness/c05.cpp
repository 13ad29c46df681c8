// C05: at most one server serves a name, and challengers never disturb the incumbent.
#include "remote.hpp"
#include "sched.hpp"
#include "witness.hpp"
using namespace vf;

static void history(Ctx& c) {
    int cases = c.thorough ? 400 : 60;
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        std::string n = c.name();
        c.begin("history %d", k);
        auto h1 = std::make_shared<Host>(), h2 = std::make_shared<Host>();
        int where = 0, dt = 0, lay = 0, R = 1, C = 1;
        auto mk = [&](int loc, int d, int l, int r, int q, bool safe) -> EpP {
            if (loc == 0) return make_server(d, l, r, q, "T", n, false, safe);
            return remote_server(loc == 1 ? h1 : h2, d, l, r, q, "T", n, false, safe);
        };
        EpP inc, cl;
        std::vector<EpP> old;           // stopped predecessors, superseded
        std::unique_ptr<Witness> wit;
        uint64_t h = c.rng();
        auto newinc = [&](const char* how) {
            where = c.rng.in(0, 2); dt = c.rng.in(0, 3); lay = c.rng.in(0, 1); R = c.rng.in(1, 5); C = c.rng.in(1, 5);
            c.tr("%s: new server %s %s %dx%d in process %d", how, dtname(dt), layname(lay), R, C, where);
            std::string w;
            try { inc = mk(where, dt, lay, R, C, c.rng.chance(70)); inc->start(); }
            catch (const std::exception& e) { c.fail("takeover", "a new server cannot take the name (%s): %s", how, e.what()); return false; }
            cl.reset();
            if (c.rng.chance(75)) {
                cl = c.rng.chance(50) ? make_client(dt, lay, "T", n) : EpP(remote_client(c.rng.chance(50) ? h1 : h2, dt, lay, "T", n));
                cl->start();
            }
            wit.reset(new Witness{c, *inc, cl.get(), Blk(R, C, dtsize(dt)), cl ? 1 : 0, dt, lay, n});
            wit->check("starting", c.rng);
            if (inc->write(wit->sh, 0, 0, Form::whole, c.rng).ok && c.nfail == 0) { fill_random(wit->sh, dt, c.rng); inc->write(wit->sh, 0, 0, Form::whole, c.rng); }
            return c.nfail == 0;
        };
        if (!newinc("first")) break;
        int steps = c.rng.in(4, 12);
        for (int s = 0; s < steps && c.nfail < 10; s++) {
            int op = c.rng.in(0, 13);
            if (op <= 7) {           // a challenger
                int loc = c.rng.in(0, 2), d = c.rng.chance(60) ? dt : c.rng.in(0, 3), l = c.rng.chance(60) ? lay : c.rng.in(0, 1);
                int r = c.rng.chance(40) ? R : c.rng.in(1, 9), q = c.rng.chance(40) ? C : c.rng.in(1, 9);
                bool held = c.rng.chance(15) && wit->cl;    // while somebody holds the lock
                c.tr("challenger %s %s %dx%d in process %d%s", dtname(d), layname(l), r, q, loc, held ? " while a client holds the lock" : "");
                if (held) wit->cl->acquire();
                EpP x;
                bool thr = false; std::string w;
                try { x = mk(loc, d, l, r, q, true); if (x) { x->start(); } } catch (const std::exception& e) { thr = true; w = e.what(); }
                if (!thr) c.fail("two-servers", "a server is constructed and run although another one is running");
                if (x && x->started()) c.fail("two-servers", "a challenger reports that it is running");
                if (x && c.rng.chance(50)) { Blk b(r, q, dtsize(d)); if (x->write(b, 0, 0, Form::whole, c.rng).ok) c.fail("two-servers", "a challenger can write"); }
                x.reset();
                if (held) wit->cl->release();
                wit->check("a refused challenger", c.rng);
                c.count("challengers");
                h = hcomb(h, hcomb(hcomb(loc * 3 + where, d * 2 + l), hcomb(r, q)));
            } else if (op == 8 && !old.empty()) {   // a predecessor tries to come back
                auto& o = old[c.rng() % old.size()];
                c.tr("a predecessor runs again");
                if (!throws([&] { o->start(); })) c.fail("two-servers", "a stopped predecessor runs again although another server is running");
                wit->check("a predecessor tried to run", c.rng);
                h = hcomb(h, 77); c.count("predecessors refused");
            } else if (op == 9 && !old.empty()) {
                int i = c.rng() % old.size();
                c.tr("a predecessor is closed");
                int how = c.rng.in(0, 2);
                if (how) old[i]->close();
                if (how < 2) old.erase(old.begin() + i);
                wit->check("a predecessor was closed", c.rng);
                h = hcomb(h, 78); c.count("predecessors closed");
            } else if (op == 10) {                  // stop, and a new one takes over
                c.tr("the incumbent stops");
                inc->stop();
                if (cl && c.rng.chance(50)) cl->close();
                old.push_back(std::move(inc));
                if (!newinc("after a stop")) break;
                h = hcomb(h, 79); c.count("takeovers after stop");
            } else if (op == 11) {
                c.tr("the incumbent is closed");
                if (cl && c.rng.chance(50)) cl->close();
                inc->close();
                if (c.rng.chance(50)) inc.reset();
                if (!newinc("after a close")) break;
                h = hcomb(h, 80); c.count("takeovers after close");
            } else if (op == 12) {                  // stop and run again; challengers lose against a stopped one that restarts first
                c.tr("the incumbent stops and runs again");
                inc->stop();
                std::string w;
                if (throws([&] { inc->start(); }, &w)) { c.fail("restart", "a stopped server cannot run again: %s", w.c_str()); break; }
                wit->check("a restart", c.rng);
                h = hcomb(h, 81);
            } else {                                // constructed while stopped, never run: the name stays usable
                c.tr("the incumbent stops, a new server is constructed and closed without running");
                inc->stop();
                EpP x;
                std::string w;
                if (throws([&] { x = mk(c.rng.in(0, 2), dt, lay, R, C, true); }, &w)) { c.fail("takeover", "no server can be constructed after a stop: %s", w.c_str()); break; }
                // now the new one owns the name: the old one must not run beside it
                bool thr = throws([&] { inc->start(); });
                bool thr2 = throws([&] { x->start(); });
                if (!thr && !thr2) c.fail("two-servers", "a stopped server and its successor run at the same time");
                if (inc->started() && x->started()) c.fail("two-servers", "both report that they are running");
                x->close(); x.reset(); inc->close(); inc.reset(); cl.reset();
                if (!newinc("after both were closed")) break;
                h = hcomb(h, 82);
            }
            c.eval(h);
        }
        if (k == 0) { std::string t; for (auto& x : c.trace) t += x + "; "; c.sample(t); }
        wit.reset(); cl.reset(); old.clear(); inc.reset();
        shm_clean(n);
    }
}

// threads start, stop, close servers of one name under the controlled scheduler
static void sched(Ctx& c) {
    int cases = c.thorough ? 15000 : 2500;
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        int nth = c.rng.in(2, 4), pct = c.rng.pick(*new std::vector<int>{5, 15, 30, 60});
        uint64_t sd = c.rng();
        c.begin("schedule %d: %d servers switch %d%% seed %llu", k, nth, pct, (unsigned long long)sd);
        std::string n = c.name();
        Sched s(sd, pct);
        s.mem_pct = sd % 5 ? 0 : sd % 2 ? 15 : 60;
        s.on_stuck = [&](const std::string& w) { c.fail("stuck", "%s", w.c_str()); c.flush(); };
        int running = -1, started = 0, refused = 0, nsrv = 0;
        bool taken = false;
        std::vector<EpP> pre(nth);
        // one of them may be running, or stopped, beforehand
        int first = c.rng.in(0, 2);
        int sizes[4];
        for (int i = 0; i < 4; i++) sizes[i] = i + 2;
        if (first) {
            pre[0] = make_server(DI, COL, sizes[0], 2, "T", n); pre[0]->start();
            if (first == 2) pre[0]->stop(); else { running = 0; started++; }
        }
        std::string t;
        for (int i = 0; i < nth; i++)
            s.add(fmt("t%d", i), [&, i] {
                Rng r(hcomb(sd, i));
                EpP e = std::move(pre[i]);
                bool mine = running == i;
                int life = r.in(1, 2);
                auto refuse = [&] { refused++; s.step("refused"); };
                auto enter = [&](const char* how) {
                    if (running != -1) c.fail("two-servers", "server %d got to run (%s) while server %d is running", i, how, running);
                    running = i; mine = true; started++;
                    // a server which runs must work
                    Blk z(sizes[i], 2, 4), g = z;
                    fill_version(z, DI, sd % 1000 + i * 1000 + started * 10);
                    bool ok = false;
                    for (int q = 0; q < 600 && !ok; q++) { ok = e->write(z, 0, 0, Form::whole, r).ok; if (!ok) s.wait_turn(Sched::SLEEPING); }
                    if (!ok) { c.fail("incumbent-lock", "a running server never gets to write"); return; }
                    for (int x = r.in(0, 6); x > 0; x--) s.step("serving");
                    ok = false;
                    for (int q = 0; q < 600 && !ok; q++) { ok = e->read(g, 0, 0, Form::whole, r).ok; if (!ok) s.wait_turn(Sched::SLEEPING); }
                    if (!ok) { c.fail("incumbent-lock", "a running server never gets to read"); return; }
                    if (!(g == z)) c.fail("incumbent-data", "the data of running server %d changed", i);
                    if (running != i) c.fail("two-servers", "server %d ran meanwhile", running);
                    // what everybody finds under the name is the tensor of the server which runs
                    std::vector<int32_t> there(sizes[i] * 2 + 1, 0);
                    int fd = ::open(("/dev/shm/" + n + "T").c_str(), O_RDONLY);
                    long got = fd < 0 ? -1 : ::pread(fd, there.data(), there.size() * 4, 0);
                    if (fd >= 0) ::close(fd);
                    if (got != sizes[i] * 8) c.fail("orphan", "under the name of running server %d there are %ld bytes instead of %d", i, got, sizes[i] * 8);
                    else for (int y = 0; y < sizes[i]; y++) for (int x = 0; x < 2; x++) if (memcmp(&there[x * sizes[i] + y], z.at(y, x), 4)) { c.fail("orphan", "the tensor under the name of running server %d is not its own", i); y = 99; break; }
                    c.count("names looked up while serving");
                };
                auto leave = [&](bool cls) { running = -1; mine = false; if (cls) e->close(); else e->stop(); };
                if (mine) { started--; running = -1; enter("before"); }
                for (int l = 0; l < life; l++) {
                    if (!e) {
                        s.step("construct");
                        int run0 = running; int st0 = started;
                        try { e = make_server(DI, COL, sizes[i], 2, "T", n); nsrv++; }
                        catch (const std::exception&) { refuse(); continue; }
                        if (run0 != -1 && running == run0 && started == st0) c.fail("two-servers", "server %d was constructed while server %d was running throughout", i, run0);
                        if (r.chance(15)) { e->close(); e.reset(); continue; }
                    }
                    if (!mine) {
                        s.step("run");
                        try { e->start(); } catch (const std::exception&) { refuse(); if (r.chance(50)) { e->close(); e.reset(); } continue; }
                        enter("run");
                        if (c.nfail) return;
                    }
                    if (r.chance(35)) { leave(false); for (int x = r.in(0, 3); x > 0; x--) s.step("stopped"); if (r.chance(50)) { try { e->start(); enter("again"); leave(true); } catch (const std::exception&) { refuse(); } } }
                    else leave(true);
                    if (r.chance(60)) { e.reset(); }
                    else break;
                }
                if (e && mine) leave(true);
                e.reset();
                (void)taken;
            });
        s.run();
        if (s.mem_pct) c.count("switch points at accesses to shared memory", s.n_mem);
        for (auto& th : s.ths) if (!th->exc.empty()) c.fail("raised", "%s: %s", th->name.c_str(), th->exc.c_str());
        c.count("preemptions", s.preemptions); c.count("servers that ran", started); c.count("refused", refused);
        c.eval(s.hash, s.preemptions > 0);
        std::string lg;
        for (auto& x : s.log) if (x.find(":done") == std::string::npos) { std::string y = x; size_t p = y.find(n); if (p != std::string::npos) y.erase(p, n.size()); lg += y + ","; }
        c.trace.push_back(lg);
        if (k == 0) c.sample(c.cur + " " + lg.substr(0, 600));
        // afterwards the name can be taken and served
        try {
            auto e = make_server(DI, COL, 2, 2, "T", n); e->start();
            auto q = make_client(DI, COL, "T", n); q->start();
            Blk b(2, 2, 4), g = b; fill_random(b, DI, c.rng);
            if (!e->write(b, 0, 0, Form::whole, c.rng).ok || !q->read(g, 0, 0, Form::whole, c.rng).ok || !(g == b)) c.fail("takeover", "the server after the schedule is not connected to its client");
            if (e->nclients() != 1) c.fail("takeover", "the client count after the schedule is %d", e->nclients());
            q->close(); e->close();
        } catch (const std::exception& ex) { c.fail("takeover", "no server can take the name after the schedule: %s", ex.what()); }
        shm_clean(n);
    }
}

// free running processes race for one name
static void race(Ctx& c) {
    int rounds = c.thorough ? 600 : 60;
    for (int k = 0; k < rounds && c.nfail < 5; k++) {
        int np = c.rng.in(2, 6), tries = c.rng.in(5, 30);
        bool closing = c.rng.chance(50);
        c.begin("race %d: %d processes try %d times%s", k, np, tries, closing ? "" : ", the winner keeps running");
        std::string n = c.name();
        auto* go = shared<std::atomic<int>>(8);   // 0 go, 1 inside, 2 bad, 3 wins, 4 refused, 5 data, 6 done
        uint64_t sd = c.rng();
        std::vector<Proc> ps;
        for (int p = 0; p < np; p++)
            ps.push_back(spawn([&, p] {
                Rng r(hcomb(sd, p));
                while (!go[0]) {}
                for (int t = 0; t < tries; t++) {
                    EpP e;
                    try { e = make_server(DI, p % 2, 3 + p, 3, "T", n); e->start(); }
                    catch (const std::exception&) { go[4]++; continue; }
                    if (go[1].fetch_add(1) != 0) go[2]++;
                    go[3]++;
                    Blk b(3 + p, 3, 4), g = b; fill_random(b, DI, r);
                    int w = 0;
                    while (!e->write(b, 0, 0, Form::whole, r).ok && w < 2000000) w++;
                    for (int x = r.in(0, closing ? 3 : 30); x > 0; x--) {
                        int q = 0;
                        while (!e->read(g, 0, 0, Form::whole, r).ok && q < 2000000) q++;
                        if (!(g == b)) go[5]++;
                        if (r.chance(30)) msleep(0.2);
                    }
                    if (!closing) while (go[6] < np - 1 && go[2] == 0) msleep(0.5);
                    go[1].fetch_sub(1);
                    if (!closing || r.chance(70)) e->close(); else e->stop();
                    if (!closing) break;
                }
                go[6]++;
                return 0;
            }));
        go[0] = 1;
        for (auto& p : ps) if (!join(p, 60)) { c.fail("stuck", "a process hangs"); kill9(p); } else if (p.status) c.fail("crash", "a process ended with status %x", p.status);
        if (go[2]) c.fail("two-servers", "%d times a server got to run while another one was running", go[2].load());
        if (go[5]) c.fail("incumbent-data", "%d times the data of a running server changed", go[5].load());
        c.count("servers that ran", go[3]); c.count("refused", go[4]);
        c.eval(hcomb(hcomb(sd, go[3]), go[4]), go[3] > 0 && go[4] > 0);
        if (k == 0) c.sample(fmt("%s: %d ran, %d refused", c.cur.c_str(), go[3].load(), go[4].load()));
        shm_clean(n);
        unshare_mem(go, 8);
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"history", 6, 16, history}, {"sched", 8, 16, sched}, {"race", 1, 4, race}});
}
