// C17: distinct names never share anything; the same name reaches the same tensor everywhere.
#include "remote.hpp"
#include <EigenIPC/CondVar.hpp>
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/StringTensor.hpp>
#include <thread>
using namespace vf;
using namespace EigenIPC;
using StrS = StringTensor<StrServer>;
using StrC = StringTensor<StrClient>;
using V = Journal::VLevel;

enum Kind { TENSOR, STRINGS, TRIGGER, CONDVAR };
static const char* kname[] = {"tensor", "string tensor", "producer and consumer", "condition variable"};
struct Pair {
    std::string ns, base;
    std::string full() const { return ns + base; }
    bool operator<(const Pair& o) const { return std::tie(ns, base) < std::tie(o.ns, o.base); }
    std::string str() const { return "(\"" + ns + "\", \"" + base + "\")"; }
};

// the overlaps recorded as known findings: pairs related like this are only tried in known()
static bool related(const Pair& a, const Pair& b) {
    std::string x = a.full(), y = b.full();
    if (x == y) return true;
    if (x.size() > y.size()) std::swap(x, y);
    if (y.compare(0, x.size(), x) != 0) return false;
    std::string rest = y.substr(x.size());
    static const char* suf[] = {"_sharedTensorNRows", "_sharedTensorNCols", "_sharedTensorDType", "_clientsCount", "_isSrvrRunning", "_memLayoutType", "_srvrSem", "_dataSem", "Trigger", "Ack", "CondVar"};
    for (auto s : suf) if (rest.compare(0, strlen(s), s) == 0) return true;
    return false;
}

// ---- names --------------------------------------------------------------------------------------
static std::string frag(Rng& r) {
    static const char* f[] = {"a", "b", "ab", "A", "_", "__", "-", ".", " ", "0", "1", "01", "sharedTensor", "Sem", "Cond", "ns", "é", "\xff", "%s", "%", "*", "?", "~", "$HOME", "\\", "'", "\"", ":", ",", "\n", "\t", "sem.", "Srv", "Client", "trigger", "ack", "x y", "long_name_of_a_robot"};
    return f[r() % (sizeof f / sizeof *f)];
}
// pairs which differ in little; every one contains P
static std::vector<Pair> cluster(Rng& r, const std::string& P, int want) {
    std::vector<Pair> v;
    std::string x = P, y = frag(r);
    int l = r.in(0, 3);
    for (int i = 0; i < l; i++) x += frag(r);
    // long ones differ only behind a long common part
    int z = r.in(0, 9);
    if (z == 0) x += std::string(r.in(20, 150), 'k');
    else if (z == 1) y = std::string(r.in(10, 60), 'q') + y;
    else if (z == 2) x += std::string(r.in(150, 190), 'k');
    else if (z == 3) y = std::string(r.in(100, 190), 'q') + y;
    else if (z == 4) { int n = r.in(60, 110); x += std::string(n, 'k'); y = std::string(190 - n, 'q') + y; }
    bool late = z >= 1 && z <= 4 && z != 2;
    auto add = [&](Pair p) {
        if (p.full().find(P) == std::string::npos || p.full().size() > 210) return;
        for (auto& o : v) if (related(o, p)) return;
        v.push_back(p);
    };
    for (int t = 0; t < 200 && (int)v.size() < want; t++) {
        std::string a = x, b = y;
        switch (r.in(0, 15)) {
            case 0: break;
            case 1: std::swap(a, b); break;
            case 2: a += frag(r); break;
            case 3: b += frag(r); break;
            case 4: b = (late ? b.substr(0, b.size() * 9 / 10) : "") + frag(r); break;
            case 5: a += "_"; break;
            case 6: b = "_" + b; break;
            case 7: b += " "; break;
            case 8: for (auto& ch : b) ch = toupper(ch); break;
            case 9: b = b + b; break;
            case 10: b = ""; break;
            case 11: b = a + y; a = ""; break;
            case 12: a += std::string(1, 'a' + r.in(0, 25)); break;
            case 13: b += std::string(1, '0' + r.in(0, 9)); break;
            case 14: std::reverse(b.begin(), b.end()); break;
            case 15: b[late && b.size() > 3 ? b.size() - 1 - r() % 3 : r() % b.size()] = 'a' + r.in(0, 25); break;
        }
        add({a, b});
    }
    return v;
}

// ---- footprints ---------------------------------------------------------------------------------
struct Names : Hook {
    std::set<std::string> seen;
    void before(Call& c) override {
        if (c.op == Op::shm_open || c.op == Op::shm_unlink) seen.insert("m:" + c.name);
        if (c.op == Op::sem_open || c.op == Op::sem_unlink) seen.insert("s:" + c.name);
    }
};
static std::set<std::string> footprint(Ctx& c, const Pair& p, Kind k, Rng& r) {
    Names h; hook = &h;
    std::string what; bool bad = false;
    try {
        LibScope l;
        switch (k) {
            case TENSOR: {
                int dt = r.in(0, 3), lay = r.in(0, 1);
                auto s = make_server(dt, lay, 2, 3, p.base, p.ns, r.chance(30)); s->start();
                auto q = make_client(dt, lay, p.base, p.ns); q->start();
                Blk b(2, 3, dtsize(dt)); fill_random(b, dt, r); write_all(*q, b, r); read_all(*s, b, r);
                q->stop(); if (r.chance(50)) { s->stop(); s->start(); }
                q->close(); s->close();
                break;
            }
            case STRINGS: {
                StrS s(2, p.base, p.ns, false, V::V0, r.chance(30)); s.run();
                StrC q(p.base, p.ns, false, V::V0); q.run();
                s.write("x", 0); std::string t; q.read(t, 0);
                q.close(); s.close();
                break;
            }
            case TRIGGER: {
                Producer s(p.base, p.ns, false, V::V0, r.chance(30)); s.run();
                Consumer q(p.base, p.ns, false, V::V0); q.run();
                s.trigger(); q.wait(100); q.ack(); s.wait_ack_from(1, 100);
                q.close(); s.close();
                break;
            }
            case CONDVAR: {
                ConditionVariable s(true, p.base, p.ns, false, V::V0, r.chance(30));
                ConditionVariable q(false, p.base, p.ns, false, V::V0);
                { auto lk = q.lock(); q.timedwait(lk, 1); }
                s.notify_all(); q.close(); s.close();
                break;
            }
        }
    } catch (const std::exception& e) { bad = true; what = e.what(); }
    hook = nullptr;
    if (bad) c.fail("name refused", "a %s on the fresh name %s raised: %s", kname[k], p.str().c_str(), what.c_str());
    return h.seen;
}
static void footprints(Ctx& c) {
    int cases = c.thorough ? 400 : 40;
    for (int k = 0; k < cases && c.nfail < 8; k++) {
        c.begin("footprints %d", k);
        std::string P = c.name();
        auto v = cluster(c.rng, P, c.rng.in(4, 14));
        std::map<std::string, std::pair<size_t, Kind>> owner;
        for (size_t i = 0; i < v.size(); i++)
            for (int kd = 0; kd < 4; kd++) {
                c.tr("%s %s", kname[kd], v[i].str().c_str());
                auto s = footprint(c, v[i], (Kind)kd, c.rng);
                if (s.empty()) c.fail("monitor", "no names were seen");
                for (auto& n : s) {
                    auto it = owner.find(n);
                    if (it != owner.end() && it->second.first != i)
                        c.fail("shared object", "the %s %s and the %s %s use the same object %s", kname[it->second.second], v[it->second.first].str().c_str(), kname[kd], v[i].str().c_str(), n.c_str());
                    owner[n] = {i, (Kind)kd};
                }
                c.count("object names seen", s.size());
                c.eval(hcomb(hcomb(hstr(v[i].ns.substr(std::min(v[i].ns.size(), P.size()))), hstr(v[i].base)), kd));
            }
        c.sample(fmt("%zu names like %s", v.size(), v.empty() ? "" : v[0].str().c_str()));
        shm_clean(P);
    }
}

// ---- worlds -------------------------------------------------------------------------------------
// a world lives in its own process: a name, everything on it, and a model of what it must show
struct World {
    Kind k; Pair p; Rng r{1};
    // tensor
    int dt = 0, lay = 0, R = 2, C = 2; EpP s, q; Blk m; bool running = false, attached = false, holding = false; int holder = 0;
    // strings
    std::unique_ptr<StrS> ss; std::unique_ptr<StrC> sc; std::vector<std::string> ms;
    // triggers
    std::unique_ptr<Producer> pr; std::unique_ptr<Consumer> co; int pending = 0, acks = 0;
    // condition variable
    std::unique_ptr<ConditionVariable> cs, cc; std::unique_ptr<ConditionVariable::ScopedLock> cl;
    std::string err;
    void bad(const char* f, ...) __attribute__((format(printf, 2, 3))) { if (!err.empty()) return; va_list ap; va_start(ap, f); err = fmtv(f, ap); va_end(ap); }

    void create(bool force) {
        switch (k) {
            case TENSOR:
                dt = r.in(0, 3); lay = r.in(0, 1); R = r.in(1, 5); C = r.in(1, 5);
                s = make_server(dt, lay, R, C, p.base, p.ns, force); s->start(); running = true;
                q = make_client(dt, lay, p.base, p.ns); attached = false; holding = false;
                m = Blk(R, C, dtsize(dt));
                break;
            case STRINGS:
                R = r.in(1, 4);
                ss = std::make_unique<StrS>(R, p.base, p.ns, false, V::V0, force); ss->run();
                sc = std::make_unique<StrC>(p.base, p.ns, false, V::V0); sc->run();
                ms.assign(R, ""); for (int i = 0; i < R; i++) { ms[i] = fmt("first %d", i); if (!ss->write(ms[i], i)) bad("writing strings fails"); }
                break;
            case TRIGGER:
                pr = std::make_unique<Producer>(p.base, p.ns, false, V::V0, force); pr->run();
                co = std::make_unique<Consumer>(p.base, p.ns, false, V::V0); co->run();
                pending = acks = 0;
                break;
            case CONDVAR:
                cs = std::make_unique<ConditionVariable>(true, p.base, p.ns, false, V::V0, force);
                cc = std::make_unique<ConditionVariable>(false, p.base, p.ns, false, V::V0);
                break;
        }
    }
    void shut() {
        switch (k) {
            case TENSOR: if (holding) { (holder ? *q : *s).release(); holding = false; } if (r.chance(50)) { q->close(); q.reset(); s->close(); s.reset(); } else { s->close(); s.reset(); q->close(); q.reset(); } break;
            case STRINGS: sc->close(); sc.reset(); ss->close(); ss.reset(); break;
            case TRIGGER: co->close(); co.reset(); pr->close(); pr.reset(); break;
            case CONDVAR: cl.reset(); cc->close(); cc.reset(); cs->close(); cs.reset(); break;
        }
    }
    void act() {
        int x = r.in(0, 99);
        if (x < 15) { shut(); create(r.chance(50)); return; }
        switch (k) {
            case TENSOR:
                if (holding && x < 60) { (holder ? *q : *s).release(); holding = false; return; }
                if (holding) return;
                if (x < 30) { if (attached) q->stop(); else if (running) q->start(); else break; attached = !attached; }
                else if (x < 40) { if (running) { s->stop(); running = false; } else { s->start(); running = true; if (attached) { q->stop(); q->start(); } } }
                else if (x < 55 && running) { holder = attached && r.chance(50); (holder ? *q : *s).acquire(); holding = true; }
                else if (running) { fill_random(m, dt, r); Ep& e = attached && r.chance(50) ? *q : *s; if (!e.write(m, 0, 0, Form::whole, r).ok) bad("a write fails though nobody holds the lock"); }
                break;
            case STRINGS: { int i = r.in(0, R - 1); ms[i] = fmt("%llx", (unsigned long long)r()) + std::string(r.in(0, 100), 'z'); if (!(r.chance(50) ? ss->write(ms[i], i) : sc->write(ms[i], i))) bad("writing a string fails"); break; }
            case TRIGGER:
                if (pending == 0 && r.chance(60)) { pr->trigger(); pending = 1; }
                else if (pending) { if (!co->wait(3000)) bad("a pending trigger is not delivered"); pending = 0; if (r.chance(70)) { if (!co->ack()) bad("ack fails"); acks++; } }
                else if (acks) { if (!pr->wait_ack_from(acks, 3000)) bad("acknowledgements made are not delivered"); acks = 0; }
                break;
            case CONDVAR:
                if (cl) { cl.reset(); break; }
                if (x < 60) { for (int i = 0; i < 30; i++) { { auto l = cc->lock(); if (r.chance(50)) cs->notify_all(); else cc->notify_one(); } std::this_thread::sleep_for(std::chrono::microseconds(700)); } }
                else cl = std::make_unique<ConditionVariable::ScopedLock>((r.chance(50) ? *cs : *cc).lock());
                break;
        }
    }
    void check() {
        switch (k) {
            case TENSOR: {
                if (s->started() != running) bad("the server %s running any more", running ? "is not" : "started");
                if (q->started() != attached) bad("the client changed its state");
                if (!running) break;
                if (s->rows() != R || s->cols() != C) bad("the dimensions changed");
                Blk b(R, C, dtsize(dt));
                OpRes o = s->read(b, 0, 0, Form::whole, r);
                if (holding) { if (o.ok) bad("a read succeeds while the lock is held"); break; }
                if (!o.ok) bad("the server cannot read");
                else if (!(b == m)) bad("the data changed");
                if (attached) {
                    if (q->rows() != R || q->cols() != C) bad("the client's dimensions changed");
                    Blk d(R, C, dtsize(dt)); o = q->read(d, 0, 0, Form::whole, r);
                    if (!o.ok) bad("the client cannot read"); else if (!(d == m)) bad("the client's data changed");
                }
                int n = s->nclients();
                if (n != (int)attached) bad("the server counts %d clients instead of %d", n, (int)attached);
                if (r.chance(30)) {
                    auto e = make_client(dt, lay, p.base, p.ns); e->start();
                    if (e->rows() != R || e->cols() != C) bad("a new client sees other dimensions");
                    Blk d(R, C, dtsize(dt)); if (!e->read(d, 0, 0, Form::whole, r).ok || !(d == m)) bad("a new client reads something else");
                    e->close();
                }
                break;
            }
            case STRINGS: {
                std::vector<std::string> v(R);
                if (!ss->isRunning() || !sc->isRunning() || ss->getLength() != R || sc->getLength() != R) bad("the state changed");
                if (!ss->read(v, 0)) bad("reading strings fails"); else if (v != ms) bad("the strings changed");
                v.assign(R, ""); if (!sc->read(v, 0)) bad("the client's reading of strings fails"); else if (v != ms) bad("the client's strings changed");
                break;
            }
            case TRIGGER:
                if (!pending) { try { if (co->wait(8)) bad("a trigger arrived which nobody made"); } catch (const std::exception& e) { bad("a consumer's wait raises: %s", e.what()); } }
                if (!acks) { if (pr->wait_ack_from(1, 8)) bad("an acknowledgement arrived which nobody made"); }
                break;
            case CONDVAR: {
                if (cl) break;
                int woken = 0;                     // a spurious wake-up is allowed, many are not
                for (int i = 0; i < 3; i++) { auto l = (i & 1 ? *cs : *cc).lock(); if ((i & 1 ? *cs : *cc).timedwait(l, 7)) woken++; }
                if (woken >= 2) bad("waits are woken though nobody notifies");
                break;
            }
        }
    }
};
enum { W_NEW = 1, W_ACT, W_CHECK, W_SHUT };
static HostP worldhost(World proto) = delete;
static HostP worldhost(Kind k, Pair p) {
    auto* w = new World; w->k = k; w->p = p;
    auto h = std::make_shared<Host>([w](Buf& q, Buf& a) {
        int op = q.get<int>(); uint64_t seed = q.get<uint64_t>(); int x = q.get<int>();
        w->r = Rng(seed); w->err.clear();
        try {
            if (op == W_NEW) w->create(x);
            else if (op == W_ACT) w->act();
            else if (op == W_CHECK) w->check();
            else w->shut();
        } catch (const std::exception& e) { w->bad("unexpected exception: %s", e.what()); }
        a.puts(w->err);
    }, [p] { if (!getenv("VFTRACE")) {} if (chdir("/tmp")) {} });
    h->limit = 25;
    return h;
}
static Buf wq(int op, uint64_t seed, int x = 0) { Buf q; q.put((int)R_CUSTOM); q.put(0); q.put(op); q.put(seed); q.put(x); return q; }
static std::string wend(HostP& h) { Buf a = h->end(); a.get<char>(); return a.gets(); }
static std::string wcall(HostP& h, int op, uint64_t seed, int x = 0) { Buf q = wq(op, seed, x); Buf a = h->call(q); a.get<char>(); return a.gets(); }

static void worlds(Ctx& c) {
    int cases = c.thorough ? 120 : 9;
    for (int k = 0; k < cases && c.nfail < 6; k++) {
        c.begin("worlds %d", k);
        std::string P = c.name();
        auto v = cluster(c.rng, P, c.rng.in(4, 8));
        struct W { Kind k; Pair p; HostP h; };
        std::vector<W> ws;
        uint64_t hh = 0;
        bool down = false;
        for (auto& p : v) {
            W w; w.k = (Kind)c.rng.in(0, 3); if (c.rng.chance(25)) w.k = TENSOR; w.p = p; w.h = worldhost(w.k, p);
            c.tr("new %s %s", kname[w.k], p.str().c_str());
            std::string e;
            try { e = wcall(w.h, W_NEW, c.rng(), 0); } catch (const HostDied& x) { e = x.what(); }
            if (!e.empty()) { c.fail("interference", "creating the %s %s next to others fails: %s", kname[w.k], p.str().c_str(), e.c_str()); down = true; break; }
            ws.push_back(w);
            hh = hcomb(hcomb(hh, w.k), hstr(p.base));
        }
        if (ws.size() < 2) continue;
        int steps = c.rng.in(15, 40);
        for (int i = 0; i < steps && !down && c.nfail < 6; i++) {
            size_t j = c.rng() % ws.size();
            W& w = ws[j];
            bool crash = c.rng.chance(15);
            c.tr("%s %s %s", crash ? "crash of" : "activity of", kname[w.k], w.p.str().c_str());
            // the others look while it happens, and again afterwards
            std::string e; int who = -1;
            std::string doing;
            try {
                bool together = c.rng.chance(60);
                if (together) for (size_t o = 0; o < ws.size(); o++) if (o != j) { who = o; Buf q = wq(W_CHECK, c.rng()); ws[o].h->begin(q); }
                who = j; doing = "the activity itself";
                if (crash) {
                    if (c.rng.chance(50)) { Buf q = wq(W_ACT, c.rng()); w.h->begin(q); msleep(c.rng.in(0, 300) / 100.0); }
                    w.h->kill_now(); w.h = worldhost(w.k, w.p);
                    e = wcall(w.h, W_NEW, c.rng(), 1);
                    c.count("crashes");
                } else e = wcall(w.h, W_ACT, c.rng());
                doing = "looking at it";
                if (together) for (size_t o = 0; o < ws.size(); o++) if (o != j) {
                    who = o;
                    if (!ws[o].h->ready(25)) throw HostDied("the call hangs");
                    std::string x = wend(ws[o].h); if (e.empty() && !x.empty()) { e = x; break; } if (!e.empty()) break;
                }
                if (e.empty()) for (size_t o = 0; o < ws.size(); o++) { who = o; e = wcall(ws[o].h, W_CHECK, c.rng()); c.count("states compared"); if (!e.empty()) break; }
            } catch (const HostDied& x) { e = x.what(); }
            if (!e.empty()) {
                W& b = ws[who];
                if ((int)j == who) c.fail("interference", "the %s %s fails in its own activity with %zu other names around: %s", kname[b.k], b.p.str().c_str(), ws.size() - 1, e.c_str());
                else c.fail("interference", "%s of the %s %s affects the %s %s: %s", crash ? "a crash" : "activity", kname[w.k], w.p.str().c_str(), kname[b.k], b.p.str().c_str(), e.c_str());
                down = true;
            }
            c.eval(hcomb(hh, hcomb(i, hcomb(j, crash))));
        }
        ws.clear();
        shm_clean(P);
    }
}

// ---- the same name from another process ---------------------------------------------------------
static std::string oddname(Rng& r) {
    std::string s; int n = r.in(0, 4);
    for (int i = 0; i < n; i++) {
        if (r.chance(70)) s += frag(r);
        else s += (char)r.in(1, 255);
    }
    return s;
}
static void same(Ctx& c) {
    int cases = c.thorough ? 600 : 60;
    HostP h = std::make_shared<Host>([](Buf& q, Buf& a) {
        Kind k = (Kind)q.get<int>(); Pair p; p.ns = q.gets(); p.base = q.gets(); uint64_t v = q.get<uint64_t>();
        std::string e;
        try {
            LibScope l;
            if (k == STRINGS) { StrC t(p.base, p.ns, false, V::V0); t.run(); std::string s; if (!t.read(s, 1) || s != fmt("v%llu", (unsigned long long)v)) e = "reads another string"; if (!t.write("back", 0)) e = "cannot write"; t.close(); }
            if (k == TRIGGER) { Consumer t(p.base, p.ns, false, V::V0); t.run(); if (t.wait(1) ) e = "got a trigger nobody made"; if (!t.ack()) e = "ack fails"; t.close(); }
            if (k == CONDVAR) { ConditionVariable t(false, p.base, p.ns, false, V::V0); { auto lk = t.lock(); t.notify_all(); } t.close(); }
        } catch (const std::exception& x) { e = fmt("raises: %s", x.what()); }
        a.puts(e);
    }, [] { if (chdir("/")) {} setenv("TMPDIR", "/nonexistent", 1); setenv("HOME", "/", 1); });
    h->limit = 25;
    for (int i = 0; i < cases && c.nfail < 8; i++) {
        std::string P = c.name();
        Pair p; p.ns = oddname(c.rng); p.base = oddname(c.rng);
        int longer = c.rng.chance(25) ? c.rng.in(150, 262) : 0;
        (c.rng.chance(50) ? p.ns : p.base).insert(0, P);
        if (longer > (int)p.full().size()) (c.rng.chance(50) ? p.ns : p.base) += std::string(longer - p.full().size(), 'l');
        bool odd = p.full().find('/') != std::string::npos || p.full().size() > 200;     // the system may not accept it
        Kind k = (Kind)c.rng.in(0, 3);
        c.begin("same name %d: %s %s", i, kname[k], p.str().c_str());
        h->limit = 25;
        std::string refused, e;
        uint64_t v = c.rng();
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), R = c.rng.in(1, 6), C = c.rng.in(1, 6);
        try {
            if (k == TENSOR) {
                bool here = c.rng.chance(50);
                EpP s; bool up = false;
                try { s = here ? make_server(dt, lay, R, C, p.base, p.ns) : EpP(remote_server(h, dt, lay, R, C, p.base, p.ns)); s->start(); up = true; }
                catch (const HostDied&) { throw; } catch (const std::exception& x) { refused = x.what(); }
                if (up) {
                    EpP q = here ? EpP(remote_client(h, dt, lay, p.base, p.ns)) : make_client(dt, lay, p.base, p.ns);
                    q->start();
                    Blk b(R, C, dtsize(dt)), g(R, C, dtsize(dt)); fill_random(b, dt, c.rng);
                    if (q->rows() != R || q->cols() != C) e = "the client sees other dimensions";
                    else if (!write_all(*s, b, c.rng) || !read_all(*q, g, c.rng) || !(b == g)) e = "the client does not see the server's data";
                    else { fill_random(b, dt, c.rng); if (!write_all(*q, b, c.rng) || !read_all(*s, g, c.rng) || !(b == g)) e = "the server does not see the client's data"; }
                    if (s->nclients() != 1) e = "the server does not count the client";
                    if (s->ns() != p.ns || s->base() != p.base || q->ns() != p.ns || q->base() != p.base) e = "the names reported differ";
                    q->close(); s->close();
                } else s.reset();
            } else {
                std::unique_ptr<StrS> ss; std::unique_ptr<Producer> pr; std::unique_ptr<ConditionVariable> cv;
                bool up = false;
                try {
                    LibScope l;
                    if (k == STRINGS) { ss = std::make_unique<StrS>(3, p.base, p.ns, false, V::V0); ss->run(); if (!ss->write(fmt("v%llu", (unsigned long long)v), 1)) e = "a write fails"; }
                    if (k == TRIGGER) { pr = std::make_unique<Producer>(p.base, p.ns, false, V::V0); pr->run(); }
                    if (k == CONDVAR) cv = std::make_unique<ConditionVariable>(true, p.base, p.ns, false, V::V0);
                    up = true;
                } catch (const std::exception& x) { refused = x.what(); }
                if (up) {
                    Buf q; q.put((int)R_CUSTOM); q.put(0); q.put((int)k); q.puts(p.ns); q.puts(p.base); q.put(v);
                    bool woken = true;
                    if (k == CONDVAR) { auto l = cv->lock(); h->begin(q); woken = cv->timedwait(l, 20000); }
                    else h->begin(q);
                    if (!h->ready(25)) { h->kill_now(); throw HostDied("the call hangs"); }
                    Buf a = h->end(); a.get<char>(); std::string x = a.gets();
                    if (!x.empty()) e = "the other process " + x;
                    if (!woken) e = "a notification from the other process does not arrive";
                    if (k == TRIGGER && e.empty() && !pr->wait_ack_from(1, 3000)) e = "an acknowledgement from the other process does not arrive";
                    if (k == STRINGS && e.empty()) { std::string s; if (!ss->read(s, 0) || s != "back") e = "the other process's string does not arrive"; }
                    if (ss) { if (ss->getNamespace() != p.ns || ss->getBasename() != p.base) e = "the names reported differ"; ss->close(); }
                    if (pr) pr->close();
                    if (cv) cv->close();
                }
            }
        } catch (const std::exception& x) { e = fmt("unexpected exception: %s", x.what()); }
        if (!e.empty()) { c.fail("same name", "%s", e.c_str()); }
        else if (!refused.empty()) {
            if (!odd) c.fail("name refused", "the name is refused: %s", refused.c_str());
            c.count("names refused");
        } else c.count("names shared by two processes");
        c.eval(hcomb(hcomb(k, dt * 2 + lay), hstr(p.full().substr(0, 40))));
        shm_clean(P);
        if (h->dead) return;
    }
}

// ---- the known overlaps -------------------------------------------------------------------------
static void knowns(Ctx& c) {
    Rng r(7);
    auto put = [&](Ep& e, int dt, int R, int C) { Blk b(R, C, dtsize(dt)); fill_version(b, dt, 77); write_all(e, b, r); return b; };
    c.begin("known overlaps");
    std::string P = c.name(), w;
    {   // one concatenation
        auto s = make_server(DI, ROW, 2, 2, "bc", P + "a"); s->start(); Blk b = put(*s, DI, 2, 2);
        if (throws([&] { auto t = make_server(DI, ROW, 2, 2, "c", P + "ab"); t->start(); }, &w)) c.fail("concat-tensor", "servers on (\"%sa\", \"bc\") and (\"%sab\", \"c\"): %s", P.c_str(), P.c_str(), w.c_str());
    }
    {
        StrS s(2, "bs", P + "a", false, V::V0); s.run();
        if (throws([&] { StrS t(2, "s", P + "ab", false, V::V0); t.run(); }, &w)) c.fail("concat-string", "string tensors of one concatenation: %s", w.c_str());
    }
    {
        Producer s("bp", P + "a", false, V::V0); s.run();
        if (throws([&] { Producer t("p", P + "ab", false, V::V0); t.run(); }, &w)) c.fail("concat-trigger", "producers of one concatenation: %s", w.c_str());
        s.close();
    }
    {
        ConditionVariable s(true, "bv", P + "a", false, V::V0);
        if (throws([&] { ConditionVariable t(true, "v", P + "ab", false, V::V0); }, &w)) c.fail("concat-condvar", "condition variables of one concatenation: %s", w.c_str());
    }
    {   // a data object named like a neighbour's metadata
        std::string n = c.name();
        auto s = make_server(DI, ROW, 3, 2, "m", n); s->start();
        std::string what;
        try {
            auto t = make_server(DI, ROW, 1, 1, "m_sharedTensorNRows", n); t->start(); Blk b(1, 1, 4); fill_version(b, DI, 50); write_all(*t, b, r);
            HostP h = std::make_shared<Host>(); h->limit = 5;
            auto q = remote_client(h, DI, ROW, "m", n); q->start();
            if (q->rows() != 3) what = fmt("a new client sees %d rows instead of 3", q->rows());
        } catch (const std::exception& e) { what = e.what(); }
        if (!what.empty()) c.fail("meta-name", "a server named like another's metadata: %s", what.c_str());
    }
    {
        std::string n = c.name();
        Producer p("q", n, false, V::V0); p.run();
        if (throws([&] { auto t = make_server(DI, ROW, 1, 1, "qTrigger", n); t->start(); }, &w)) c.fail("trigger-name", "a server named like a producer's tensor: %s", w.c_str());
        p.close();
    }
    {
        std::string n = c.name();
        ConditionVariable v(true, "x", n, false, V::V0);
        std::string what;
        try {
            auto t = make_server(DI, ROW, 4, 4, "xCondVar", n); t->start(); put(*t, DI, 4, 4);
            Blk b(4, 4, 4), z(4, 4, 4); fill_version(b, DI, 77);
            { auto l = v.lock(); v.notify_all(); v.timedwait(l, 2); }
            if (!read_all(*t, z, r) || !(b == z)) what = "its data change";
            t->close();
            if (!shm_entries(n + "xCondVar").count(n + "xCondVar")) what = "closing it removes the condition variable";
        } catch (const std::exception& e) { what = e.what(); }
        if (!what.empty()) c.fail("condvar-name", "a server named like a condition variable's object: %s", what.c_str());
    }
    c.count("known overlaps tried", 7);
    c.eval(1);
    shm_clean(P);
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"foot", 2, 8, footprints, 30}, {"worlds", 5, 16, worlds, 60}, {"same", 2, 8, same, 60}, {"known", 1, 1, knowns, 30}});
}
