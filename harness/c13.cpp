// C13: the named condition variable gives exclusion, wake-ups and timeouts.
#include "remote.hpp"
#include "sched.hpp"
#include "vclock.hpp"
#include <EigenIPC/CondVar.hpp>
using namespace vf;
using CV = EigenIPC::ConditionVariable;
using V = EigenIPC::Journal::VLevel;

static std::unique_ptr<CV> mk(bool server, const std::string& b, const std::string& n, bool force = false) {
    LibScope l;
    return std::make_unique<CV>(server, b, n, false, V::V0, force);
}

// ---- creating, opening, closing ------------------------------------------------------------------
// another process holding condition variables
static HostP cvhost() {
    auto* m = new std::map<int, std::unique_ptr<CV>>;
    auto* lk = new std::map<int, CV::ScopedLock>;
    auto* next = new int(1);
    auto h = std::make_shared<Host>([m, lk, next](Buf& q, Buf& a) {
        int op = q.get<int>(), id = q.get<int>(), x = q.get<int>(); auto b = q.gets(), n = q.gets();
        int r = 0;
        try {
            switch (op) {
                case 0: (*m)[*next] = mk(x & 1, b, n, x & 2); r = (*next)++; break;
                case 1: m->at(id)->close(); break;
                case 2: lk->erase(id); m->erase(id); break;
                case 3: (*lk)[id] = m->at(id)->lock(); break;
                case 4: CV::unlock(lk->at(id)); lk->erase(id); break;
                case 5: { bool t; { auto l = m->at(id)->lock(); t = m->at(id)->timedwait(l, x); if (!l.owns()) r = 5; } if (r == 0) r = t; break; }
                case 6: { auto l = m->at(id)->lock(); m->at(id)->notify_all(); break; }
                case 7: { auto l = m->at(id)->lock(); m->at(id)->notify_one(); break; }
                case 8: { auto l = m->at(id)->lock(); m->at(id)->wait(l); r = l.owns() ? 1 : 5; break; }
            }
        } catch (const std::exception& e) { r = -1; }
        a.put(r);
    });
    h->limit = 30;
    return h;
}
static Buf cvq(int op, int id, int x = 0, const std::string& b = "", const std::string& n = "") {
    Buf q; q.put((int)R_CUSTOM); q.put(0); q.put(op); q.put(id); q.put(x); q.puts(b); q.puts(n);
    return q;
}
static int cvcall(HostP& h, int op, int id, int x = 0, const std::string& b = "", const std::string& n = "") {
    Buf q = cvq(op, id, x, b, n);
    Buf a = h->call(q);
    a.get<char>();
    return a.get<int>();
}
static int cvend(HostP& h) { Buf a = h->end(); a.get<char>(); return a.get<int>(); }

static void life(Ctx& c) {
    int cases = c.thorough ? 500 : 50;
    for (int k = 0; k < cases && c.nfail < 8; k++) {
        c.begin("life %d", k);
        std::string n = c.name(), b = c.rng.chance(50) ? "cv" : "a b/c";
        if (b.size() > 2) b = "ab_c";
        HostP hs[2] = {cvhost(), cvhost()};
        struct Obj { int place, id; bool server, closed = false, stale = false; std::unique_ptr<CV> l; };
        std::vector<Obj> os;
        int owner = -1;                     // the creator in charge
        bool exists = false;
        uint64_t h = 0;
        int steps = c.rng.in(10, 40);
        auto entries = [&] { return shm_entries(n); };
        for (int s = 0; s < steps && c.nfail < 8; s++) {
            int op = c.rng.in(0, 19);
            auto before = entries();
            if (op < 5) {                   // create
                bool force = c.rng.chance(30);
                if (force && exists && owner >= 0) {
                    // a forced creation replaces what a process has left behind: let it die first
                    int pl = os[owner].place;
                    if (pl < 2) {
                        c.tr("process %d killed", pl);
                        hs[pl]->kill_now();
                        hs[pl] = cvhost();
                        for (auto it = os.begin(); it != os.end();) it = it->place == pl ? os.erase(it) : it + 1;
                        for (auto& o : os) o.stale = true;
                    } else force = false;
                    owner = -1;
                    if (!force) { for (size_t i = 0; i < os.size(); i++) if (os[i].server && !os[i].closed && !os[i].stale) owner = i; }
                }
                int pl = c.rng.in(0, 2);
                bool want = !exists || force;
                c.tr("create%s in %d (exists %d)", force ? " forced" : "", pl, exists);
                Obj o; o.place = pl; o.server = true; o.id = -1;
                bool ok = true;
                if (pl < 2) { o.id = cvcall(hs[pl], 0, 0, 1 | (force ? 2 : 0), b, n); ok = o.id > 0; }
                else try { o.l = mk(true, b, n, force); } catch (const std::exception&) { ok = false; }
                if (ok != want) c.fail("create", "creating %s %s%s", exists ? "an existing condition variable" : "a condition variable", ok ? "succeeded" : "raised", force ? " (forced)" : "");
                if (!ok && entries() != before) c.fail("create", "a refused creation changed the names");
                if (ok) { if (exists) for (auto& x : os) x.stale = true; os.push_back(std::move(o)); owner = os.size() - 1; exists = true; }
                c.count("creations");
            } else if (op < 10) {           // open
                int pl = c.rng.in(0, 2);
                c.tr("open in %d (exists %d)", pl, exists);
                Obj o; o.place = pl; o.server = false; o.id = -1;
                bool ok = true;
                if (pl < 2) { o.id = cvcall(hs[pl], 0, 0, 0, b, n); ok = o.id > 0; }
                else try { o.l = mk(false, b, n); } catch (const std::exception&) { ok = false; }
                if (ok != exists) c.fail("open", "opening a condition variable %s %s", exists ? "that exists" : "nobody created", ok ? "succeeded" : "raised");
                if (entries() != before) c.fail("open", "opening changed the names");
                if (ok) os.push_back(std::move(o));
                c.count("opens");
            } else if (op < 15) {           // close or destroy
                if (os.empty()) continue;
                int i = c.rng() % os.size();
                Obj& o = os[i];
                if (o.server && o.stale && !o.closed) continue;
                bool destroy = c.rng.chance(50);
                c.tr("%s a %s in %d%s", destroy ? "destroy" : "close", o.server ? "creator" : "user", o.place, o.closed ? " again" : "");
                if (o.place < 2) cvcall(hs[o.place], destroy ? 2 : 1, o.id);
                else if (destroy) o.l.reset();
                else o.l->close();
                if (o.server && !o.closed) { exists = false; owner = -1; for (auto& x : os) x.stale = true; if (!entries().empty()) c.fail("close", "closing the creator leaves %s", entries().begin()->c_str()); }
                else if (entries() != before) c.fail("close", "closing %s changed the names", o.server ? "a closed creator" : "a user");
                o.closed = true;
                if (destroy) { os.erase(os.begin() + i); if (owner > i) owner--; }
                c.count("closes");
            } else {                        // use it: wait in one place, notify from another
                std::vector<int> live;
                for (size_t i = 0; i < os.size(); i++) if (!os[i].stale && !os[i].closed) live.push_back(i);
                if (live.size() < 2) continue;
                int i = live[c.rng() % live.size()], j = live[c.rng() % live.size()];
                if (os[i].place == 2 || os[i].place == os[j].place) continue;
                Obj &w = os[i], &m = os[j];
                bool timed = c.rng.chance(60), all = c.rng.chance(50);
                c.tr("%s in %d, notified from %d", timed ? "timed wait" : "wait", w.place, m.place);
                Buf q = cvq(timed ? 5 : 8, w.id, 20000);
                hs[w.place]->begin(q);
                // notified again and again until it returns: whenever it started waiting, a later one must wake it
                double t0 = now();
                while (!hs[w.place]->ready(0.002) && now() - t0 < 15) {
                    if (m.place < 2) cvcall(hs[m.place], all ? 6 : 7, m.id);
                    else { auto l = m.l->lock(); all ? m.l->notify_all() : m.l->notify_one(); }
                    c.tick();
                }
                if (!hs[w.place]->ready(0)) { c.fail("wake-up", "a waiter is not woken by notifications through another endpoint"); return; }
                int r = cvend(hs[w.place]);
                if (r == 5) c.fail("lock", "a wait returned without the lock");
                else if (r != 1) c.fail("wake-up", "a notified wait gives %d", r);
                c.count("wake-ups across processes");
            }
            h = hcomb(h, hcomb(op, exists * 64 + os.size()));
            c.eval(h);
        }
        for (auto& o : os) if (o.place == 2 && !(o.server && o.stale)) o.l.reset();
        for (auto& o : os) if (o.place == 2) o.l.reset();
        hs[0].reset(); hs[1].reset();
        shm_clean(n);
    }
}

// ---- controlled schedules ------------------------------------------------------------------------
static void sched(Ctx& c) {
    int cases = c.thorough ? 9000 : 700;
    for (int k = 0; k < cases && c.nfail < 5; k++) {
        uint64_t seed = c.rng();
        Rng r(seed);
        int nt = r.in(2, 4), kind = r.in(0, 3), pct = r.chance(50) ? r.in(3, 15) : r.in(15, 60);
        std::string n = c.name();
        static const char* kn[] = {"raw waits, notify-all", "raw waits, notify-one", "predicates", "mixture"};
        c.begin("schedule %d seed %llu: %d threads, %s", k, (unsigned long long)seed, nt, kn[kind]);
        ledger.reset();
        Sched S(r(), pct);
        S.timeout_pct = r.in(5, 60);
        S.spurious_pct = kind == 2 && r.chance(60) ? r.in(1, 30) : 0;
        S.on_stuck = [&](const std::string& s) { c.fail("stuck", "a wake-up was lost or a lock not released: %s", s.c_str()); c.flush(); };
        // all of this is only touched under the lock of the condition variable
        int owner = -1, waiting = 0, done = 0, opened = 0, value = 0, items = 0, taken = 0;
        uint64_t notes = 0;
        std::vector<uint64_t> sd; for (int i = 0; i < nt; i++) sd.push_back(r());
        auto enter = [&](int me, const char* what) {
            if (owner != -1) c.fail("exclusion", "thread %d has the lock after %s while thread %d holds it", me, what, owner);
            owner = me;
        };
        auto leave = [&](int me) { if (owner != me && !c.nfail) c.fail("exclusion", "the lock held by thread %d was taken by %d", me, owner); owner = -1; };
        bool created = false;
        int ops = r.in(2, 5), finished = 0;
        bool via_mutex = r.chance(20);
        for (int i = 0; i < nt; i++)
            S.add(fmt("t%d", i), [&, i] {
                Rng q(sd[i]);
                std::unique_ptr<CV> v;
                if (i == 0) { v = mk(true, "cv", n); created = true; }
                else { while (!created) S.relax(); v = mk(false, "cv", n); }
                opened++;
                while (opened < nt) S.relax();
                struct Own { CV::NamedMutex m; explicit Own(const std::string& p) : m(CV::create_named_mutex(p)) {} };
                std::unique_ptr<Own> own;
                if (via_mutex) { LibScope l; own = std::make_unique<Own>(v->mutex_path()); }
                auto lock = [&] { LibScope l; auto x = own && q.chance(50) ? CV::lock(own->m) : v->lock(); enter(i, "locking"); return x; };
                auto unlock = [&](CV::ScopedLock& x) { leave(i); LibScope l; if (q.chance(50)) CV::unlock(x); else CV::ScopedLock y(std::move(x)); };
                auto wait = [&](CV::ScopedLock& x, int ms) -> bool {
                    uint64_t n0 = notes;
                    waiting++; leave(i);
                    bool res = true;
                    { LibScope l; if (ms < 0) v->wait(x); else res = v->timedwait(x, ms); }
                    enter(i, "waiting"); waiting--;
                    if (!x.owns()) c.fail("lock", "a wait returned without the lock");
                    if (res && notes == n0 && !S.spurious_pct) c.fail("phantom wake-up", "a wait reported a notification that was not made");
                    return res;
                };
                // predicate waits: what the predicate sees must be protected
                auto waitp = [&](CV::ScopedLock& x, int ms, std::function<bool()> p) -> bool {
                    bool res = true, saw = false;
                    waiting++; leave(i);
                    auto pp = [&] { enter(i, "a predicate wait called the predicate"); saw = p(); leave(i); return saw; };
                    { LibScope l; if (ms < 0) v->wait_for(x, pp); else res = v->timedwait_for(x, ms, pp); }
                    enter(i, "waiting"); waiting--;
                    if (!x.owns()) c.fail("lock", "a wait returned without the lock");
                    if (ms < 0 ? !p() : res != p()) c.fail("predicate", "a predicate wait returned %s though its predicate is %s", ms < 0 ? "" : res ? "true" : "false", p() ? "true" : "false");
                    if (ms < 0 ? !saw : res != saw) c.fail("predicate", "a predicate wait returned against what its predicate said last");
                    return res;
                };
                if (kind <= 1) {
                    // thread 0 notifies when all others wait; each must come back
                    for (int o = 0; o < ops; o++) {
                        if (i == 0) {
                            for (;;) {
                                auto x = lock();
                                if (waiting == nt - 1) {
                                    for (int z = 0; z < (kind == 0 ? 1 : nt - 1); z++) { LibScope l; kind == 0 ? v->notify_all() : v->notify_one(); notes++; }
                                    unlock(x);
                                    break;
                                }
                                unlock(x);
                                S.relax();
                            }
                            // all come back before the next round
                            for (;;) { auto x = lock(); bool all = done == (o + 1) * (nt - 1); unlock(x); if (all) break; S.relax(); }
                        } else {
                            auto x = lock();
                            uint64_t n0 = notes;
                            if (q.chance(70)) wait(x, -1);
                            else while (!wait(x, 5)) { if (notes != n0) break; }
                            done++;
                            unlock(x);
                            for (bool go = false; !go;) { S.relax(); auto y = lock(); go = done >= (o + 1) * (nt - 1); unlock(y); }
                        }
                    }
                } else if (kind == 2) {
                    // the threads take turns
                    for (int o = 0; o < ops; o++) {
                        auto x = lock();
                        auto mine = [&] { return value % nt == i; };
                        if (q.chance(60)) waitp(x, -1, mine);
                        else while (!waitp(x, q.in(0, 9), mine)) {}
                        value++;
                        { LibScope l; v->notify_all(); notes++; }
                        unlock(x);
                    }
                } else {
                    // items handed over: half of the threads give, the others take
                    bool giver = i % 2 == 0;
                    int givers = (nt + 1) / 2, takers = nt / 2, total = ops * givers * takers;
                    for (int o = 0; o < total / (giver ? givers : takers); o++) {
                        auto x = lock();
                        if (giver) { items++; { LibScope l; q.chance(50) ? v->notify_one() : v->notify_all(); notes++; } }
                        else {
                            int how = q.in(0, 3);
                            if (how == 0) waitp(x, -1, [&] { return items > 0; });
                            else if (how == 1) { while (!waitp(x, 3, [&] { return items > 0; })) {} }
                            else if (how == 2) { while (items == 0) wait(x, -1); }
                            else while (items == 0) wait(x, 4);
                            items--; taken++;
                        }
                        unlock(x);
                    }
                }
                finished++;
                while (finished < nt) S.relax();
                if (i == 0) { LibScope l; v->close(); finished++; }
                else while (finished < nt + 1) S.relax();
            });
        S.run();
        for (auto& t : S.ths) if (!t->exc.empty()) c.fail("raised", "%s raised: %s", t->name.c_str(), t->exc.c_str());
        if (!shm_entries(n).empty()) c.fail("close", "the closed creator leaves %s", shm_entries(n).begin()->c_str());
        c.eval(S.hash, S.preemptions > 0);
        c.count("waits woken", S.n_wakeups); c.count("waits timed out", S.n_timeouts); c.count("spurious wake-ups", S.n_spurious); c.count("preemptions", S.preemptions);
    }
}

// ---- free running over processes -----------------------------------------------------------------
struct Q {
    // protected by the lock only: deliberately not atomic
    volatile long counter, items, given, taken, turn;
    volatile int holder, waiting;
    std::atomic<int> ready, bad, stop; char msg[300];
};
static void stress(Ctx& c) {
    int cases = c.thorough ? 60 : 8;
    for (int k = 0; k < cases && c.nfail < 5; k++) {
        int np = c.rng.in(2, 6), kind = c.rng.in(0, 2), rounds = c.thorough ? 6000 : 1500, timed = c.rng.in(0, 60);
        if (kind == 1) np = np / 2 * 2;
        if (kind == 2) rounds /= np;
        std::string n = c.name();
        static const char* kn[] = {"counting", "giving and taking", "turns"};
        c.begin("stress %d: %d processes, %s, %d rounds, %d%% timed", k, np, kn[kind], rounds, timed);
        Q* s = shared<Q>();
        s->holder = -1;
        auto cv = mk(true, "cv", n);
        std::vector<Proc> ps;
        uint64_t sd = c.rng();
        for (int i = 0; i < np; i++) ps.push_back(spawn([&, i] {
            Rng q(sd + i);
            CV v(false, "cv", n);
            auto bad = [&](const char* m) { if (!s->bad++) strncpy(s->msg, m, 299); };
            auto in = [&] { if (s->holder != -1) bad("two processes hold the lock"); s->holder = i; };
            auto out = [&] { if (s->holder != i) bad("the lock was taken while held"); s->holder = -1; };
            s->ready++;
            while (s->ready < np) sched_yield();
            for (int o = 0; o < rounds && !s->bad; o++) {
                auto l = v.lock(); in();
                if (kind == 0) { long x = s->counter; if (q.chance(5)) sched_yield(); s->counter = x + 1; }
                else if (kind == 1) {
                    auto some = [&] { return s->items > 0; };
                    if (i % 2 == 0) { s->items = s->items + 1; s->given = s->given + 1; q.chance(50) ? v.notify_one() : v.notify_all(); }
                    else {
                        out();
                        if (q.chance(timed)) { while (!v.timedwait_for(l, q.in(1, 3), some)) {} }
                        else if (q.chance(50)) v.wait_for(l, some);
                        else { while (s->items == 0) v.wait(l); }
                        in();
                        if (s->items <= 0) bad("a predicate wait returned with a false predicate");
                        s->items = s->items - 1; s->taken = s->taken + 1;
                    }
                } else {
                    auto mine = [&] { return s->turn % np == i; };
                    out();
                    if (q.chance(timed)) { while (!v.timedwait_for(l, q.in(1, 3), mine)) {} }
                    else v.wait_for(l, mine);
                    in();
                    if (!mine()) bad("a predicate wait returned with a false predicate");
                    s->turn = s->turn + 1;
                    v.notify_all();
                }
                out();
                if (q.chance(50)) CV::unlock(l);
            }
            return 0;
        }));
        bool stuck = false;
        for (auto& p : ps) if (!join(p, stuck || s->bad ? 1 : 40)) { if (!s->bad) stuck = true; kill9(p); } else if (p.status) c.fail("raised", "a process ended with %x", p.status);
        if (s->bad) c.fail("exclusion", "%s", s->msg);
        else if (stuck) c.fail("stuck", "a waiter was never woken, or the lock never released");
        else {
            if (kind == 0 && s->counter != (long)np * rounds) c.fail("exclusion", "%ld of %ld increments under the lock are left", (long)s->counter, (long)np * rounds);
            if (kind == 1 && (s->given != s->taken || s->items != 0)) c.fail("conservation", "%ld given, %ld taken", (long)s->given, (long)s->taken);
        }
        c.count("stress rounds", (uint64_t)np * rounds);
        c.eval(hcomb(hcomb(np, kind), hcomb(k, c.shard)));
        unshare_mem(s);
    }
}

// ---- times ---------------------------------------------------------------------------------------
static void times(Ctx& c) {
    std::string n = c.name();
    auto sv = mk(true, "cv", n), cl = mk(false, "cv", n);
    std::vector<unsigned> mss{0, 1, 3, 10, 40, 130, 700};
    for (unsigned ms : mss) for (int form = 0; form < 4; form++) {
        c.begin("timeout of %u ms, form %d", ms, form);
        double least = 1e9;
        int reps = ms > 300 ? 2 : 6;
        for (int k = 0; k < reps; k++) {
            CV& v = form & 1 ? *cl : *sv;
            bool r;
            double t0 = now();
            { auto l = v.lock(); r = form & 2 ? v.timedwait_for(l, ms, [] { return false; }) : v.timedwait(l, ms); if (!l.owns()) c.fail("lock", "a wait returned without the lock"); }
            double t = (now() - t0) * 1000;
            if (r) c.fail("timeout", "a wait nobody notified reports success");
            if (t < ms - 1.5) c.fail("early", "a wait of %u ms returned after %.2f ms", ms, t);
            least = std::min(least, t);
            c.eval(hcomb(ms, form * 8 + k));
        }
        if (least > ms + 400) c.fail("late", "waits of %u ms take %.0f ms at least", ms, least);
        c.count("timeouts measured", reps);
    }
    for (unsigned ms : {5000u, 600000u, 2147483647u, 4294967295u}) for (int form = 0; form < 2; form++) {
        c.begin("timeout of %u ms, notified in time", ms);
        Q* s = shared<Q>();
        Proc p = spawn([&] {
            CV v(false, "cv", n);
            bool r; bool pr = false;
            auto l = v.lock();
            s->waiting = 1;
            if (form) r = v.timedwait_for(l, ms, [&] { return s->stop == 2; }); else r = v.timedwait(l, ms);
            (void)pr;
            if (form && s->stop != 2) return 3;
            return r ? 1 : 2;
        });
        // notified once it certainly waits
        double t0 = now();
        for (;;) { { auto l = sv->lock(); if (s->waiting) { s->stop = 2; sv->notify_one(); break; } } msleep(0.3); if (now() - t0 > 20) break; }
        if (!join(p, 20)) { kill9(p); c.fail("wake-up", "a timed wait is not woken"); }
        else if (WEXITSTATUS(p.status) != 1) c.fail("timeout", "a timed wait of %u ms notified in time reports %d", ms, WEXITSTATUS(p.status));
        unshare_mem(s);
        c.eval(hcomb(ms, form));
        c.count("timed waits notified");
    }
    // a predicate that is true already needs no notification
    for (int form = 0; form < 2; form++) {
        c.begin("true predicate");
        auto l = sv->lock();
        double t0 = now();
        bool r = true;
        if (form) r = sv->timedwait_for(l, 60000, [] { return true; }); else sv->wait_for(l, [] { return true; });
        if (!r) c.fail("predicate", "a wait with a true predicate failed");
        if (now() - t0 > 20) c.fail("late", "a wait with a true predicate waits");
        c.eval(form + 77);
    }
}

// ---- what a dead process leaves ------------------------------------------------------------------
static void dead(Ctx& c) {
    int cases = c.thorough ? 150 : 16;
    for (int k = 0; k < cases && c.nfail < 5; k++) {
        std::string n = c.name();
        int how = k % 4;
        c.begin("dead process %d: %s", k, how == 0 ? "holding the lock" : how == 1 ? "waiting" : how == 2 ? "notifying" : "idle");
        Q* s = shared<Q>();
        Proc p = spawn([&] {
            CV v(true, "cv", n);
            if (how == 0) { auto l = v.lock(); s->ready = 1; for (;;) pause(); }
            if (how == 1) { auto l = v.lock(); s->ready = 1; for (;;) v.wait(l); }
            if (how == 2) { for (;;) { auto l = v.lock(); s->ready = 1; v.notify_all(); } }
            s->ready = 1;
            for (;;) pause();
            return 0;
        });
        while (!s->ready) msleep(0.2);
        if (how) msleep(c.rng.in(0, 20) / 10.0);
        kill9(p);
        if (!throws([&] { mk(true, "cv", n); })) { c.fail("create", "creating an existing condition variable succeeded"); }
        Proc q = spawn([&] {
            auto a = mk(true, "cv", n, true);
            s->stop = 1;
            while (s->stop != 2) { auto l = a->lock(); a->notify_all(); }
            a->close();
            return 0;
        });
        double t0 = now();
        while (s->stop != 1 && now() - t0 < 20) msleep(0.2);
        if (s->stop != 1) c.fail("forced", "a forced creation after a crash does not succeed");
        else {
            Proc w = spawn([&] { CV v(false, "cv", n); auto l = v.lock(); return v.timedwait(l, 15000) ? 0 : 1; });
            if (!join(w, 20)) { kill9(w); c.fail("forced", "after a forced creation a waiter hangs"); }
            else if (w.status) c.fail("forced", "after a forced creation a waiter is not woken (%x)", w.status);
        }
        s->stop = 2;
        if (!join(q, 10)) { kill9(q); if (!c.nfail) c.fail("forced", "the new creator hangs"); }
        else if (!shm_entries(n).empty()) c.fail("close", "the closed creator leaves %s", shm_entries(n).begin()->c_str());
        shm_clean(n);
        unshare_mem(s);
        c.eval(hcomb(how, k));
        c.count("crashes");
    }
}

// ---- time-outs of hours and weeks -----------------------------------------------------------------
// the clock of the library runs ahead, so that they take no time
static void hours(Ctx& c) {
    std::string n = c.name();
    auto sv = mk(true, "cv", n);
    std::vector<unsigned> ts = {1, 9, 999, 1000, 1001, 32767, 32768, 40000, 59999, 60000, 65535, 65536, 70000, 100000, 131072, 200000, 999999, 1000000, 3600000, 4294967, 4294968,
        16777216, 16777217, 86400000, 100000000, 604800000, 1073741824, 2000000000, 2147483646, 2147483647, 2147483648u, 2147483649u, 3000000000u, 4294967294u, 4294967295u};
    int cases = c.thorough ? 40000 : 4000;
    const long S = 1000000000, Y = 31557600 * S;
    for (int k = 0; k < cases && c.nfail < 8; k++) {
        bool fixed = k < (int)ts.size() * 8;
        unsigned ms = fixed ? ts[k / 8] : c.rng.chance(50) ? (unsigned)c.rng() >> c.rng.in(0, 31) : c.rng.pick(ts);
        if (!ms) ms = 1;
        bool form = k % 2;
        int sp = form && c.rng.chance(60) ? c.rng.pick(*new std::vector<int>{10, 50, 90}) : 0;
        bool turns = sp && c.rng.chance(40);
        bool moment = c.rng.chance(30);              // the moment: close to the next second, or any
        ahead = c.rng.pick(*new std::vector<long>{0, 3600 * S, 86400 * S * 31, Y, 12 * Y + 120 * 86400 * S, 30 * Y, 81 * Y}) + (c.rng.chance(50) ? (long)(c.rng() % (400 * 86400UL)) * S : 0);
        if (moment) ahead += S - (real_ns() + ahead) % S - c.rng.in(1, 300000);
        c.begin("%s of %u ms at %+ld s, spurious %d%%%s", form ? "timedwait_for" : "timedwait", ms, (long)ahead / S, sp, turns ? ", turns true" : "");
        Hours h; h.rng = &c.rng; h.spurious = sp;
        bool truth = false; int preds = 0;
        h.on_wake = [&] { if (turns && c.rng.chance(30)) truth = true; };
        auto l = sv->lock();
        hook = &h;
        long a0 = ahead, v0 = virtual_ns(); double t0 = now();
        bool r, owns;
        {
            LibScope in;
            r = form ? sv->timedwait_for(l, ms, [&] { preds++; return truth; }) : sv->timedwait(l, ms);
        }
        hook = nullptr;
        owns = l.owns();
        long v = virtual_ns() - v0; double el = now() - t0;
        if (!owns) c.fail("lock", "a timed wait returned without the lock");
        if (r != truth) c.fail("timeout", "a %s of %u ms that %s reports %s", form ? "timedwait_for" : "timedwait", ms, truth ? "was notified with a true predicate" : "nobody ended", r ? "true" : "false");
        if (!r && v + 20000 < (long)ms * 1000000) c.fail("early", "a timeout of %u ms was reported after %.3f ms", ms, v / 1e6);
        if (v > (long)ms * 1000000 + (long)((el + 2) * S)) c.fail("late", "a timeout of %u ms ended after %.3f ms", ms, v / 1e6);
        if (form && !preds) c.fail("predicate", "the predicate was not asked");
        (void)a0;
        c.eval(hcomb(hcomb(ms, form), hcomb(sp, truth)));
        c.count("timeouts in the library's own time"); c.count("spurious wake-ups", h.wakes); if (truth) c.count("ended by the predicate");
        if (k % 64 == 0) c.tick();
    }
    ahead = 0;
}

// ---- one object, several threads -------------------------------------------------------------------
// each has a timeout of its own: some short with a predicate that stays false, some long which end through theirs
static void together(Ctx& c) {
    int cases = c.thorough ? 200 : 24;
    std::string n = c.name();
    auto sv = mk(true, "cv", n);
    auto cl = mk(false, "cv", n);
    for (int k = 0; k < cases && c.nfail < 5; k++) {
        CV& v = k % 2 ? *cl : *sv;
        int ns = c.rng.in(1, 3), nl = c.rng.in(1, 3), gap = c.rng.in(1, 12);
        c.begin("together %d: %d short and %d long timeouts on one object, notified every %d ms", k, ns, nl, gap);
        struct W { int ms, delay; bool longer, res = false, owns = true, saw = false; double el = 0; };
        std::vector<W> ws;
        for (int i = 0; i < ns; i++) ws.push_back({c.rng.in(20, 150), c.rng.in(0, 40), false});
        for (int i = 0; i < nl; i++) ws.push_back({c.rng.in(8000, 20000), c.rng.in(0, 60), true});
        std::atomic<int> left{ns}, alive{ns + nl};
        volatile long inside = 0; long wrong = 0;          // protected by the lock
        std::vector<std::thread> th;
        for (auto& w : ws) th.emplace_back([&] {
            msleep(w.delay);
            {
                auto l = v.lock();
                double t0 = now();
                w.res = v.timedwait_for(l, w.ms, [&] { if (inside++) wrong++; bool p = w.longer && left == 0; inside--; return w.saw = p; });
                w.el = (now() - t0) * 1000; w.owns = l.owns();
                if (inside++) wrong++;
                inside--;
                if (!w.longer) left--;
            }
            alive--;
        });
        uint64_t h = 0;
        for (int z = 0; alive > 0; z++) { msleep(gap); auto l = v.lock(); (z % 3 ? v.notify_all() : v.notify_one()); if (left == 0) v.notify_all(); c.count("notifications"); }
        for (auto& t : th) t.join();
        for (auto& w : ws) {
            if (!w.owns) c.fail("lock", "a timed wait returned without the lock");
            if (w.res != w.saw) c.fail("predicate", "a timed wait reports %s, its predicate said %s", w.res ? "true" : "false", w.saw ? "true" : "false");
            if (!w.longer && w.res) c.fail("predicate", "a predicate that is never true ended a wait");
            if (!w.res && w.el < w.ms - 1) c.fail("early", "of several waits on one object the one of %d ms gave up after %.0f ms", w.ms, w.el);
            if (w.el > w.ms + 4000) c.fail("late", "of several waits on one object the one of %d ms returned after %.0f ms", w.ms, w.el);
            h = hcomb(h, hcomb(w.ms, hcomb(w.delay, w.res)));
            c.count(w.longer ? "long waits ended by their predicate" : "timeouts next to longer ones");
        }
        if (wrong) c.fail("exclusion", "two threads were inside at a time");
        c.eval(h); c.tick();
    }
    cl.reset(); sv.reset();
    shm_clean(n);
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"life", 8, 8, life}, {"sched", 8, 8, sched}, {"stress", 4, 4, stress, 60}, {"times", 1, 1, times}, {"hours", 2, 4, hours}, {"together", 2, 4, together}, {"dead", 2, 4, dead}});
}
