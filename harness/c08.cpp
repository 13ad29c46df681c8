// C08: closing releases all that was acquired, once, and only that.
#include "ep.hpp"
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/StringTensor.hpp>
#include <limits.h>
using namespace vf;
using namespace EigenIPC;
using StrS = StringTensor<StrServer>;
using StrC = StringTensor<StrClient>;

enum Kind { SERVER, CLIENT, STRSERVER, STRCLIENT, PRODUCER, CONSUMER };
static const char* kname[] = {"server", "client", "string server", "string client", "producer", "consumer"};

struct Obj {
    Kind k; std::string n; int dt = 0, lay = 0, R = 1, C = 1;
    EpP e; std::unique_ptr<StrS> ss; std::unique_ptr<StrC> sc; std::unique_ptr<Producer> p; std::unique_ptr<Consumer> q;
    bool closed = false, started = false, bad = false, everran = false, gone = false;
    int nclose = 0;
    std::map<std::string, int> owned;
    bool serverlike() const { return k == SERVER || k == STRSERVER || k == PRODUCER; }
};

// descriptors and mappings of this process which belong to objects of a prefix
static std::string held(const std::string& prefix) {
    DIR* d = opendir("/proc/self/fd");
    while (dirent* x = readdir(d)) {
        char b[600]; ssize_t l = readlink(fmt("/proc/self/fd/%s", x->d_name).c_str(), b, sizeof b - 1);
        if (l > 0) { b[l] = 0; if (strstr(b, prefix.c_str())) { std::string r = fmt("descriptor %s -> %s", x->d_name, b); closedir(d); return r; } }
    }
    closedir(d);
    FILE* f = fopen("/proc/self/maps", "r");
    char line[1000]; std::string r;
    while (fgets(line, sizeof line, f)) if (strstr(line, prefix.c_str())) { r = line; break; }
    fclose(f);
    return r;
}
static int nfds() {
    int n = 0; DIR* d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}

struct Urbg { Rng& r; using result_type = uint64_t; static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } uint64_t operator()() { return r(); } };
struct Sentinel { int fd; ino_t ino; std::string path; uint64_t* map; };

static void lifecycle(Ctx& c) {
    int cases = c.thorough ? 2500 : 260;
    ledger.on = true;
    for (int k = 0; k < cases && c.nfail < 12; k++) {
        ledger.reset();
        std::string n = c.name();
        int kinds = c.rng.in(0, 4);       // which family this case is about
        c.begin("history %d (%s)", k, kinds <= 2 ? "tensors" : kinds == 3 ? "strings" : "triggers");
        int fd0 = nfds();
        std::vector<Obj> os; os.reserve(64);
        std::vector<Sentinel> sent;
        uint64_t h = c.rng();
        auto call = [&](Obj* o, const std::string& what, const std::function<void()>& f) {   // true: did not raise
            auto a = ledger.units();
            bool clientclose = o && !o->serverlike() && (what == "close" || what == "destroy" || what == "stop");
            auto s0 = clientclose ? shm_entries(n) : std::set<std::string>();
            bool ok = true; std::string why;
            { LibScope l; try { f(); } catch (const std::exception& e) { ok = false; why = e.what(); } }
            auto b = ledger.units();
            auto& own = o->owned;
            for (auto& x : b) { int d = x.second - (a.count(x.first) ? a[x.first] : 0); if (d > 0) own[x.first] += d; }
            for (auto& x : a) {
                int d = x.second - (b.count(x.first) ? b[x.first] : 0);
                if (d > 0) { if ((own[x.first] -= d) < 0) c.fail("foreign", "%s of a %s released the %s, which another object acquired", what.c_str(), kname[o->k], x.first.c_str()); if (own[x.first] <= 0) own.erase(x.first); }
            }
            for (auto& p : ledger.problems()) c.fail("foreign", "%s of a %s: %s", what.c_str(), kname[o->k], p.c_str());
            if (clientclose) { auto s1 = shm_entries(n); for (auto& x : s0) if (!s1.count(x)) c.fail("client-removes", "%s of a %s removed %s", what.c_str(), kname[o->k], x.c_str()); }
            c.count("calls monitored");
            return ok;
        };
        auto server_of = [&](const Obj& o) -> Obj* {     // a running server this client could attach to
            for (auto& s : os) if (!s.gone && s.serverlike() && s.started && !s.closed && !s.bad && s.k + 1 == o.k && s.n == o.n) return &s;
            return nullptr;
        };
        auto locked = [&](const Obj& o) {                // a server on the name keeps the lock until it runs
            for (auto& s : os) if (!s.gone && s.serverlike() && !s.closed && !s.everran && s.n == o.n) return true;
            return false;
        };
        auto released = [&](Obj& o, const char* how) {
            for (auto& u : o.owned) c.fail("kept", "after %s of a %s %s the %s is still open%s", how, kname[o.k], o.everran ? "that was started" : "never started", u.first.c_str(), u.second > 1 ? " more than once" : "");
            c.count("releases checked");
        };
        auto no_names = [&](Obj& o) {
            for (auto& s : os) if (!s.gone && &s != &o && s.serverlike() && s.n == o.n && (!s.closed)) return;     // the name is somebody else's
            int plain = 0; std::string l;
            int limit = o.k == PRODUCER ? 2 : 1;
            for (auto& x : shm_entries(o.n)) {
                l += " " + x;
                struct stat st;
                if (x.compare(0, 4, "sem.") == 0 || (stat(("/dev/shm/" + x).c_str(), &st) == 0 && st.st_size > 8)) plain += 10;
                plain++;
            }
            if (plain > limit) c.fail("names", "after a %s was closed its name holds%s", kname[o.k], l.c_str());
            c.count("names checked");
        };
        int steps = c.rng.in(6, 40);
        for (int i = 0; i <= steps && c.nfail < 12; i++) {
            bool last = i == steps;
            if (c.rng.chance(20) && !last) {     // strangers take the numbers and addresses the library gave back
                Sentinel s; s.path = fmt("/tmp/vfsent%d_%zu", (int)getpid(), sent.size());
                s.fd = open(s.path.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0600);
                unlink(s.path.c_str());
                if (ftruncate(s.fd, 4096)) {}
                struct stat st; fstat(s.fd, &st); s.ino = st.st_ino;
                s.map = (uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, s.fd, 0);
                *s.map = s.ino;
                sent.push_back(s);
            }
            std::vector<int> todo;
            if (last) { for (size_t j = 0; j < os.size(); j++) if (!os[j].gone) todo.push_back(j); std::shuffle(todo.begin(), todo.end(), Urbg{c.rng}); std::stable_partition(todo.begin(), todo.end(), [&](int j) { return os[j].serverlike() && !os[j].everran; }); }
            else if (os.empty() || (os.size() < 40 && c.rng.chance(25))) {
                os.emplace_back();
                Obj& o = os.back();
                Kind pair = kinds <= 2 ? SERVER : kinds == 3 ? STRSERVER : PRODUCER;
                bool haveserver = false;
                for (auto& s : os) if (&s != &o && !s.gone && s.serverlike() && !s.closed) haveserver = true;
                bool srv = !haveserver ? c.rng.chance(80) : c.rng.chance(15);
                o.k = (Kind)(srv ? pair : pair + 1);
                o.n = n + (c.rng.chance(85) ? "A" : "B");
                o.dt = 0;
                if (pair == SERVER) {
                    Obj* s = nullptr; for (auto& x : os) if (&x != &o && !x.gone && x.k == SERVER && x.n == o.n && !x.closed) s = &x;
                    if (srv || !s) { o.dt = c.rng.in(0, 3); o.lay = c.rng.in(0, 1); o.R = c.rng.in(1, 40); o.C = c.rng.in(1, 40); if (c.rng.chance(15)) { o.R = c.rng.in(1, 900); o.C = c.rng.in(1, 900); } }
                    else { o.dt = s->dt; o.lay = s->lay; if (c.rng.chance(20)) { o.dt = c.rng.in(0, 3); o.lay = c.rng.in(0, 1); } }
                }
                bool force = srv && c.rng.chance(15), safe = c.rng.chance(70);
                if (srv && force && pair == PRODUCER) force = false;
                c.tr("%zu: new %s%s on %s", os.size() - 1, kname[o.k], force ? " (forced)" : "", o.n.c_str() + n.size());
                bool ok = call(&o, "construct", [&] {
                    switch (o.k) {
                        case SERVER: o.e = make_server(o.dt, o.lay, o.R, o.C, "T", o.n, force, safe); break;
                        case CLIENT: o.e = make_client(o.dt, o.lay, "T", o.n, safe); break;
                        case STRSERVER: o.C = c.rng.chance(20) ? c.rng.in(7, 600) : c.rng.in(1, 6); o.ss.reset(new StrS(o.C, "T", o.n, false, Journal::VLevel::V0, force, safe)); break;
                        case STRCLIENT: o.sc.reset(new StrC("T", o.n, false, Journal::VLevel::V0, safe)); break;
                        case PRODUCER: o.p.reset(new Producer("T", o.n, false, Journal::VLevel::V0, force)); break;
                        case CONSUMER: o.q.reset(new Consumer("T", o.n, false, Journal::VLevel::V0)); break;
                    }
                });
                h = hcomb(h, o.k * 2 + ok);
                if (!ok) {
                    c.tr("refused"); released(o, "the refused construction"); o.gone = true;
                    bool other = false;
                    for (auto& s : os) if (&s != &o && !s.gone && s.n == o.n && s.serverlike() && !s.closed) other = true;
                    if (!other) c.fail("refused", "construction of a %s fails on a name nobody uses", kname[o.k]);
                } else if (srv && force) for (auto& s : os) if (&s != &o && !s.gone && s.n == o.n && s.k == o.k && !s.closed) s.bad = true;   // superseded
                continue;
            } else todo.push_back(c.rng() % os.size());
            for (int idx : todo) {
                Obj& o = os[idx];
                if (o.gone) continue;
                int op = last ? c.rng.in(8, 9) : c.rng.in(0, 9);
                auto start = [&] { switch (o.k) { case SERVER: case CLIENT: o.e->start(); break; case STRSERVER: o.ss->run(); break; case STRCLIENT: o.sc->run(); break; case PRODUCER: o.p->run(); break; case CONSUMER: o.q->run(); break; } };
                if (!o.serverlike() && locked(o) && (op <= 3 || op >= 7)) continue;
                if (op <= 2) {               // start
                    if (!o.serverlike() && !server_of(o)) continue;
                    bool other = false;
                    for (auto& s : os) if (&s != &o && !s.gone && s.n == o.n && s.k == o.k && o.serverlike() && s.started && !s.closed) other = true;
                    c.tr("%d: start the %s%s", idx, kname[o.k], o.started ? " again" : o.closed ? " (closed)" : "");
                    bool ok = call(&o, "start", start);
                    h = hcomb(h, 16 + o.k * 4 + ok * 2 + o.closed);
                    if (ok && o.serverlike() && o.closed) c.fail("closed-works", "a closed %s can be started", kname[o.k]);
                    if (ok) { o.started = o.everran = true; o.closed = false; }
                    else if (!o.serverlike()) o.closed = false;      // refused, or failed on the way
                    (void)other;
                } else if (op == 3) {        // stop
                    if (o.k > CLIENT) continue;
                    c.tr("%d: stop the %s", idx, kname[o.k]);
                    call(&o, "stop", [&] { o.e->stop(); });
                    o.started = false;
                    h = hcomb(h, 32 + o.k);
                } else if (op <= 6) {        // use
                    c.tr("%d: use the %s%s", idx, kname[o.k], o.closed ? " (closed)" : !o.started ? " (not started)" : "");
                    h = hcomb(h, 48 + o.k * 2 + o.closed);
                    bool must_fail = o.closed || !o.started;
                    auto res = [&](const char* what, bool ok) { if (ok && must_fail) c.fail("closed-works", "%s on a %s %s reports success", what, o.closed ? "closed" : "not started", kname[o.k]); };
                    if (o.k <= CLIENT) {
                        Blk b(1, 1, dtsize(o.dt)); fill_random(b, o.dt, c.rng);
                        Form f = (Form)c.rng.in(0, (int)Form::N - 1);
                        bool r = false;
                        call(&o, "write", [&] { r = o.e->write(b, 0, 0, f, c.rng).ok; }); res("a write", r); r = false;
                        call(&o, "read", [&] { r = o.e->read(b, 0, 0, f, c.rng).ok; }); res("a read", r);
                        call(&o, "rows", [&] { o.e->rows(); o.e->cols(); o.e->started(); o.e->ns(); });
                        if (o.closed) {
                            if (call(&o, "acquire", [&] { o.e->acquire(); })) c.fail("closed-works", "a closed %s acquires the lock", kname[o.k]);
                            if (call(&o, "release", [&] { o.e->release(); })) c.fail("closed-works", "a closed %s releases the lock", kname[o.k]);
                            if (o.k == SERVER) call(&o, "nclients", [&] { o.e->nclients(); });
                        } else if (o.started && !o.bad && !locked(o)) { call(&o, "acquire", [&] { o.e->acquire(); }); call(&o, "release", [&] { o.e->release(); }); if (o.k == SERVER) call(&o, "nclients", [&] { o.e->nclients(); }); }
                    } else if (o.k == STRSERVER || o.k == STRCLIENT) {
                        std::vector<std::string> v{"abc"}; std::string s = "x"; bool r = false;
                        auto both = [&](auto& t) {
                            call(&o, "write", [&] { r = t.write(v, 0); }); res("a write", r); r = false;
                            call(&o, "write", [&] { r = t.write(s, 0); }); res("a write", r); r = false;
                            call(&o, "read", [&] { r = t.read(v, 0); }); res("a read", r); r = false;
                            call(&o, "read", [&] { r = t.read(s, 0); }); res("a read", r);
                            call(&o, "length", [&] { t.getLength(); t.isRunning(); t.getNamespace(); });
                            if (o.started && c.rng.chance(30)) call(&o, "shared mem", [&] { auto& m = t.getSharedMem(); m.getNRows(); });
                            if (o.closed || (o.started && !o.bad && !locked(o))) call(&o, "nclients", [&] { t.getNClients(); });
                        };
                        if (o.ss) both(*o.ss); else both(*o.sc);
                    } else if (o.k == PRODUCER) {
                        if (call(&o, "trigger", [&] { o.p->trigger(); }) && must_fail) c.fail("closed-works", "a trigger on a %s producer is accepted", o.closed ? "closed" : "never started");
                        bool r = false;
                        call(&o, "wait_ack", [&] { r = o.p->wait_ack_from(1000, 1); }); res("waiting for acknowledgements", r);
                    } else {
                        bool r = false;
                        if (c.rng.chance(50)) { call(&o, "wait", [&] { r = o.q->wait(1); }); res("a wait", r); }
                        r = false;
                        if (c.rng.chance(50)) { call(&o, "ack", [&] { r = o.q->ack(); }); res("an acknowledgement", r); }
                        r = false;
                        if (c.rng.chance(50)) { call(&o, "wait_and_ack", [&] { r = o.q->wait_and_ack([] { return true; }, 1); }); res("wait and acknowledge", r); }
                    }
                } else if (op <= 8) {        // close
                    if (op == 7 && c.rng.chance(60)) continue;
                    c.tr("%d: close the %s%s", idx, kname[o.k], o.closed ? " again" : "");
                    bool ok = call(&o, "close", [&] { switch (o.k) { case SERVER: case CLIENT: o.e->close(); break; case STRSERVER: o.ss->close(); break; case STRCLIENT: o.sc->close(); break; case PRODUCER: o.p->close(); break; case CONSUMER: o.q->close(); break; } });
                    if (!ok) c.fail("raised", "closing a %s raised", kname[o.k]);
                    o.closed = true; o.started = false; o.nclose++;
                    released(o, "the close");
                    if (o.serverlike()) no_names(o);
                    h = hcomb(h, 64 + o.k);
                } else {                     // destroy
                    if (!last && c.rng.chance(50)) continue;
                    c.tr("%d: destroy the %s%s", idx, kname[o.k], o.closed ? " (closed)" : "");
                    bool ok = call(&o, "destroy", [&] { o.e.reset(); o.ss.reset(); o.sc.reset(); o.p.reset(); o.q.reset(); });
                    if (!ok) c.fail("raised", "destroying a %s raised", kname[o.k]);
                    o.closed = true; o.gone = true; o.started = false;
                    released(o, "the destruction");
                    if (o.serverlike()) no_names(o);
                    h = hcomb(h, 80 + o.k);
                }
                c.eval(h);
            }
        }
        // all objects were closed or destroyed: the process holds nothing
        std::string r = held(n);
        if (!r.empty()) c.fail("kept", "when all is closed the process holds %s", r.c_str());
        for (auto& s : sent) {
            struct stat st;
            if (fstat(s.fd, &st) || st.st_ino != s.ino) c.fail("foreign", "a descriptor of somebody else was closed");
            unsigned char v;
            if (mincore(s.map, 4096, &v)) c.fail("foreign", "a mapping of somebody else was removed"); else { if (*s.map != s.ino) c.fail("foreign", "memory of somebody else changed"); munmap(s.map, 4096); }
            close(s.fd);
        }
        int fd1 = nfds();
        if (fd1 != fd0) c.fail("kept", "the process has %d descriptors more than before", fd1 - fd0);
        auto s0 = shm_entries(n);
        if (k < 2) { std::string t; for (size_t x = 0; x < c.trace.size() && x < 30; x++) t += c.trace[x] + "; "; c.sample(t); }
        { LibScope l; os.clear(); }
        auto s1 = shm_entries(n);
        if (s0 != s1) c.fail("late", "destroying closed objects changed what the names hold");
        if (!held(n).empty()) c.fail("kept", "at the end the process holds %s", held(n).c_str());
        shm_clean(n);
    }
}

// the same object many times: nothing accumulates
static void cycles(Ctx& c) {
    for (int k = 0; k < 6; k++) {
        std::string n = c.name();
        c.begin("cycles %d", k);
        int dt = c.rng.in(0, 3), fd0 = -1; size_t ent0 = 0;
        for (int i = 0; i < (c.thorough ? 3000 : 300) && c.nfail < 5; i++) {
            {
                if (k == 0) { auto s = make_server(dt, 0, 5, 5, "T", n); s->start(); auto q = make_client(dt, 0, "T", n); q->start(); q->stop(); q->start(); q->close(); q->start(); s->stop(); s->start(); }
                if (k == 1) { auto s = make_server(dt, 0, 5, 5, "T", n); s->start(); auto q = make_client((dt + 1) % 4, 0, "T", n); throws([&] { q->start(); }); throws([&] { q->start(); }); throws([&] { auto t = make_server(dt, 0, 2, 2, "T", n); t->start(); }); }
                if (k == 2) { StrS s(4, "T", n); s.run(); StrC q("T", n); q.run(); std::vector<std::string> v{"a", "b"}; s.write(v, 1); q.read(v, 1); auto& m = q.getSharedMem(); m.getNRows(); s.getSharedMem().getNCols(); }
                if (k == 3) { Producer p("T", n); p.run(); Consumer q("T", n); q.run(); p.trigger(); q.wait_and_ack([] { return true; }, 50); p.wait_ack_from(1, 50); }
                if (k == 4) { Producer p("T", n); Consumer q("T", n); }
                if (k == 5) { auto s = make_server(dt, 1, 5, 5, "T", n, true); s->start(); auto t = make_server(dt, 1, 6, 6, "T", n, true); t->start(); s->close(); auto q = make_client(dt, 1, "T", n); q->start(); if (q->rows() != 6) c.fail("foreign", "closing the superseded server disturbed its successor"); }
            }
            int f = nfds(); size_t e = shm_entries(n).size();
            if (i == 0) { fd0 = f; ent0 = e; }
            if (f != fd0 || e != ent0) { c.fail("accumulates", "cycle %d of kind %d: %d descriptors instead of %d, %zu objects instead of %zu", i, k, f, fd0, e, ent0); break; }
            std::string r = held(n);
            if (!r.empty()) { c.fail("kept", "after cycle %d of kind %d the process holds %s", i, k, r.c_str()); break; }
            c.eval(hcomb(hcomb(k, i), 5)); c.tick(); c.count("cycles");
        }
        shm_clean(n);
    }
    c.sample("start, use and close the same kind of objects hundreds of times");
}

// tensors of all sizes, also beyond 2^31 bytes
static void sizes(Ctx& c) {
    ledger.on = true;
    std::vector<std::pair<int, int>> dims = {{1, 1}, {1, 4096}, {1, 4097}, {4095, 1}, {33000, 3}, {3, 70000}, {700, 1100}, {1, 131072}};
    for (int i = 0; i < (c.thorough ? 40 : 12); i++) dims.push_back({c.rng.in(1, 3000), c.rng.in(1, 3000)});
    dims.push_back({46400, 46500});
    for (auto [R, C] : dims) for (int lay = 0; lay < 2; lay++) {
        bool big = R > 40000 && C > 40000;
        if (big && lay != (int)(c.seed + c.shard) % 2) continue;
        int dt = big ? DB : c.rng.in(0, 3);
        std::string n = c.name();
        c.begin("%s %s %dx%d", dtname(dt), layname(lay), R, C);
        ledger.reset();
        auto u0 = ledger.units();
        try {
            LibScope l;
            auto s = make_server(dt, lay, R, C, "T", n, c.rng.chance(30)); s->start();
            c.tick();
            auto q = make_client(dt, lay, "T", n); q->start();
            c.tick();
            if (c.rng.chance(50)) { q->stop(); if (!big) q->start(); }
            if (c.rng.chance(50)) { q->close(); s->close(); }
            else { s->close(); q->close(); }
        } catch (const std::bad_alloc&) { c.count("skipped for memory"); shm_clean(n); continue; }
        for (auto& u : ledger.units()) if (u.second > (u0.count(u.first) ? u0[u.first] : 0)) c.fail("kept", "after the close of everything on a %s tensor of %dx%d the %s is still open", dtname(dt), R, C, u.first.c_str());
        for (auto& p : ledger.problems()) c.fail("foreign", "%dx%d: %s", R, C, p.c_str());
        std::string r = held(n);
        if (!r.empty()) c.fail("kept", "after the close of everything on a %s tensor of %dx%d the process holds %s", dtname(dt), R, C, r.c_str());
        c.eval(hcomb(hcomb(R, C), hcomb(dt, lay))); c.count("sizes");
        if (big) c.count("objects of more than 2^31 bytes");
        shm_clean(n);
        if (c.nfail > 6) return;
    }
    c.sample("server and client of tensors from one element to more than 2^31 bytes");
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"lifecycle", 10, 24, lifecycle}, {"cycles", 1, 2, cycles}, {"sizes", 1, 4, sizes, 60}});
}
