// C02: safe reads and writes are atomic and linearizable.
#include "remote.hpp"
#include "sched.hpp"
using namespace vf;

// ---- tiles: the tensor is a grid of tiles, one value per tile ---------------------------------
struct Geo {
    int dt, lay, bands, bo, inner, halves;      // bands of bo outer lines; inner split in two halves
    size_t es;
    int outer() const { return bands * bo; }
    int rows() const { return lay == ROW ? outer() : inner; }
    int cols() const { return lay == ROW ? inner : outer(); }
};
static void put(const Geo& g, uint8_t* p, uint32_t id, int k) {
    if (g.dt == DB) *p = (id >> (k % 16)) & 1;
    else if (g.dt == DI) { int32_t v = (int32_t)id; memcpy(p, &v, 4); }
    else if (g.dt == DF) { float v = (float)id; memcpy(p, &v, 4); }
    else { double v = (double)id; memcpy(p, &v, 8); }
}
static uint32_t get(const Geo& g, const uint8_t* p) {       // decodes from a line start
    if (g.dt == DB) { uint32_t id = 0; for (int k = 0; k < 16; k++) id |= (uint32_t)(p[k] & 1) << k; return id; }
    if (g.dt == DI) { int32_t v; memcpy(&v, p, 4); return (uint32_t)v; }
    if (g.dt == DF) { float v; memcpy(&v, p, 4); return v >= 0 && v < 1e7 ? (uint32_t)v : 0xffffffff; }
    double v; memcpy(&v, p, 8); return v >= 0 && v < 1e9 ? (uint32_t)v : 0xffffffff;
}
struct Range { int b0, nb, h0, nh; };                        // bands and halves
struct Rec { bool wr, ok; Range g; uint32_t id; std::vector<uint32_t> tiles; uint64_t call, ret; int th; };

static int line_len(const Geo& g, const Range& r) { return g.inner / g.halves * r.nh; }
static size_t buf_bytes(const Geo& g, const Range& r) { return (size_t)g.bo * r.nb * line_len(g, r) * g.es; }
static void encode(const Geo& g, const Range& r, uint8_t* buf, uint32_t id) {
    int len = line_len(g, r);
    for (int o = 0; o < g.bo * r.nb; o++) for (int k = 0; k < len; k++) put(g, buf + ((size_t)o * len + k) * g.es, id, k);
}
// false if some tile mixes values
static bool decode(const Geo& g, const Range& r, const uint8_t* buf, std::vector<uint32_t>& tiles, std::string& torn) {
    int len = line_len(g, r), hl = g.inner / g.halves;
    tiles.clear();
    std::vector<uint8_t> e(g.es);
    for (int b = 0; b < r.nb; b++) for (int h = 0; h < r.nh; h++) {
        uint32_t id = get(g, buf + ((size_t)b * g.bo * len + h * hl) * g.es);
        for (int o = 0; o < g.bo; o++) for (int k = 0; k < hl; k++) {
            const uint8_t* p = buf + (((size_t)b * g.bo + o) * len + h * hl + k) * g.es;
            put(g, e.data(), id, h * hl + k);
            put(g, e.data(), id, k);
            if (memcmp(e.data(), p, g.es)) { torn = fmt("tile (%d,%d) mixes value %u with another one (line %d, element %d)", r.b0 + b, r.h0 + h, id, o, k); return false; }
        }
        tiles.push_back(id);
    }
    return true;
}

static bool do_op(const Geo& g, Ep& e, bool wr, const Range& r, uint8_t* buf, bool view) {
    int len = line_len(g, r), no = g.bo * r.nb, o0 = r.b0 * g.bo, i0 = r.h0 * (g.inner / g.halves);
    int R = g.lay == ROW ? no : len, C = g.lay == ROW ? len : no, row = g.lay == ROW ? o0 : i0, col = g.lay == ROW ? i0 : o0;
    if (view) return wr ? e.write_view(buf, R, C, len, 1, row, col) : e.read_view(buf, R, C, len, 1, row, col);
    return wr ? e.write_raw(buf, R, C, row, col) : e.read_raw(buf, R, C, row, col);
}

// Wing & Gong search over the successful operations
struct Lin {
    const Geo& g;
    std::vector<Rec*> ops;
    std::unordered_set<uint64_t> seen;
    uint64_t nodes = 0;
    bool apply(std::vector<uint32_t>& st, Rec* o) {
        size_t k = 0;
        for (int b = 0; b < o->g.nb; b++) for (int h = 0; h < o->g.nh; h++, k++) {
            uint32_t& s = st[(o->g.b0 + b) * g.halves + o->g.h0 + h];
            if (o->wr) s = o->id;
            else if (s != o->tiles[k]) return false;
        }
        return true;
    }
    bool search(uint32_t mask, std::vector<uint32_t> st) {
        if (mask == (1u << ops.size()) - 1) return true;
        if (++nodes > 3000000) return true;
        uint64_t h = hcomb(mask, hbytes(st.data(), st.size() * 4));
        if (!seen.insert(h).second) return false;
        uint64_t minret = ~0ull;
        for (size_t i = 0; i < ops.size(); i++) if (!(mask >> i & 1)) minret = std::min(minret, ops[i]->ret);
        for (size_t i = 0; i < ops.size(); i++) {
            if (mask >> i & 1 || ops[i]->call > minret) continue;
            std::vector<uint32_t> s2 = st;
            if (!apply(s2, ops[i])) continue;
            if (search(mask | 1u << i, s2)) return true;
        }
        return false;
    }
};
static std::string show(const Geo& g, const std::vector<Rec*>& ops) {
    std::string s;
    for (auto* o : ops) {
        s += fmt("[%llu-%llu] t%d %s bands %d+%d halves %d+%d", (unsigned long long)o->call, (unsigned long long)o->ret, o->th, o->wr ? "W" : "R", o->g.b0, o->g.nb, o->g.h0, o->g.nh);
        if (o->wr) s += fmt(" id %u", o->id);
        else for (auto t : o->tiles) s += fmt(" %u", t);
        s += "; ";
    }
    (void)g;
    return s;
}

// (a) controlled interleavings, switches at OS calls and in the middle of copies
static void sched(Ctx& c) {
    int cases = c.thorough ? 12000 : 2500;
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        Geo g;
        g.dt = c.rng.in(0, 3); g.lay = c.rng.in(0, 1); g.es = dtsize(g.dt);
        g.bands = c.rng.in(1, 4); g.bo = 8; g.halves = 2; g.inner = 512 / (int)g.es;
        if (c.rng.chance(25)) { g.bo = 1; g.inner = 32; }                // small: switches only at OS calls
        if (c.rng.chance(10)) g.bo = c.rng.in(60, 600);                   // large ones
        bool tiny = g.dt != DB && c.rng.chance(12);                       // single elements
        if (tiny) { g.bo = 1; g.inner = 2; g.bands = c.rng.in(2, 5); }
        int nth = c.rng.in(2, 4), nops = nth == 2 ? c.rng.in(2, 6) : c.rng.in(2, 4);
        int pct = c.rng.pick(*new std::vector<int>{5, 15, 30, 60});
        uint64_t sd = c.rng();
        c.begin("case %d: %s %s %dx%d threads %d ops %d switch %d%% seed %llu", k, dtname(g.dt), layname(g.lay), g.rows(), g.cols(), nth, nops, pct, (unsigned long long)sd);
        std::string n = c.name();
        std::vector<EpP> eps;
        eps.push_back(make_server(g.dt, g.lay, g.rows(), g.cols(), "T", n));
        eps[0]->start();
        for (int i = 1; i <= nth; i++) { eps.push_back(make_client(g.dt, g.lay, "T", n)); eps.back()->start(); }
        // thread 0 uses the server half of the time; the last client observes in the end
        bool use_srv = c.rng.chance(60);
        Sched s(sd, pct);
        s.mem_pct = tiny ? sd % 3 ? 40 : 0 : sd % 30 ? 0 : sd % 4 ? 2 : 30;
        s.on_stuck = [&](const std::string& w) { c.fail("stuck", "%s", w.c_str()); c.flush(); };
        uint64_t clk = 0;
        uint32_t next_id = 1;
        std::vector<std::unique_ptr<Rec>> recs;
        std::vector<std::unique_ptr<GuardBuf>> bufs;
        size_t maxb = (size_t)g.outer() * g.inner * g.es;
        for (int i = 0; i < nth; i++) bufs.push_back(std::make_unique<GuardBuf>(maxb));
        GuardBuf::on_fault() = [&](GuardBuf*, size_t) { s.step("copy"); };
        struct Plan { bool wr, view, guard; Range r; };
        std::vector<std::vector<Plan>> plans(nth);
        for (auto& p : plans) for (int o = 0; o < nops; o++) {
            Plan q;
            q.wr = c.rng.chance(50); q.view = c.rng.chance(50); q.guard = c.rng.chance(80);
            if (c.rng.chance(50)) q.r = {0, g.bands, 0, g.halves};
            else { q.r.b0 = c.rng.in(0, g.bands - 1); q.r.nb = c.rng.in(1, g.bands - q.r.b0); q.r.h0 = c.rng.in(0, 1); q.r.nh = q.r.h0 ? 1 : c.rng.in(1, 2); }
            p.push_back(q);
        }
        for (int i = 0; i < nth; i++)
            s.add(fmt("t%d", i), [&, i] {
                Ep& e = *eps[i == 0 && use_srv ? 0 : i + 1];
                GuardBuf& gb = *bufs[i];
                for (auto& p : plans[i]) {
                    auto rec = std::make_unique<Rec>();
                    rec->wr = p.wr; rec->g = p.r; rec->th = i;
                    size_t nb = buf_bytes(g, p.r);
                    gb.open();
                    std::vector<uint8_t> pre;
                    if (p.wr) { rec->id = next_id++; encode(g, p.r, gb.mem, rec->id); }
                    else { for (size_t x = 0; x < nb; x++) gb.mem[x] = g.dt == DB ? (x % 3 == 1) : 0xA5; pre.assign(gb.mem, gb.mem + nb); }
                    if (p.guard) gb.close();
                    s.step("call");
                    rec->call = clk++;
                    bool thr = false;
                    try { rec->ok = do_op(g, e, p.wr, p.r, gb.mem, p.view); }
                    catch (const std::exception& ex) { thr = true; rec->ok = false; c.fail("raised", "a %s raised: %s", p.wr ? "write" : "read", ex.what()); }
                    rec->ret = clk++;
                    gb.open();
                    s.step("return");
                    if (!p.wr && rec->ok) {
                        std::string torn;
                        if (!decode(g, p.r, gb.mem, rec->tiles, torn)) {
                            std::string lg;
                            for (size_t x = s.log.size() > 40 ? s.log.size() - 40 : 0; x < s.log.size(); x++) lg += s.log[x] + ", ";
                            c.fail("torn-read", "thread %d's read is not of one instant: %s; schedule: %s", i, torn.c_str(), lg.c_str());
                            rec->ok = false;
                        }
                    }
                    if (!p.wr && !rec->ok && !thr && memcmp(pre.data(), gb.mem, nb) && rec->tiles.empty() && c.nfail == 0) c.fail("failed-read-effect", "a read that reported failure changed the destination");
                    recs.push_back(std::move(rec));
                }
            });
        s.run();
        if (s.mem_pct) c.count("switch points at accesses to shared memory", s.n_mem);
        GuardBuf::on_fault() = nullptr;
        for (auto& t : s.ths) if (!t->exc.empty()) c.fail("raised", "%s", t->exc.c_str());
        // everything once more, when nobody else is active
        {
            auto rec = std::make_unique<Rec>();
            rec->wr = false; rec->g = {0, g.bands, 0, g.halves}; rec->th = 9;
            std::vector<uint8_t> b(maxb);
            rec->call = clk++;
            rec->ok = do_op(g, *eps[nth], false, rec->g, b.data(), false);
            rec->ret = clk++;
            std::string torn;
            if (!rec->ok) c.fail("lock-lost", "the tensor cannot be read when all operations have ended");
            else if (!decode(g, rec->g, b.data(), rec->tiles, torn)) { c.fail("torn-write", "final content: %s", torn.c_str()); rec->ok = false; }
            recs.push_back(std::move(rec));
        }
        if (c.nfail == 0) {
            Lin L{g, {}, {}};
            for (auto& r : recs) if (r->ok) L.ops.push_back(r.get());
            if (L.ops.size() <= 26) {
                std::vector<uint32_t> st((size_t)g.bands * g.halves, 0);
                if (!L.search(0, st)) {
                    std::string lg;
                    for (size_t x = s.log.size() > 60 ? s.log.size() - 60 : 0; x < s.log.size(); x++) lg += s.log[x] + ", ";
                    c.fail("not-linearizable", "no order explains: %s failed ops: %d; schedule: %s", show(g, L.ops).c_str(), (int)(recs.size() - L.ops.size()), lg.c_str());
                }
                c.count("histories checked for linearizability");
            }
            int okw = 0, okr = 0, bad = 0;
            for (auto& r : recs) { if (!r->ok) bad++; else if (r->wr) okw++; else okr++; }
            c.count("successful writes", okw); c.count("successful reads", okr); c.count("refused operations", bad); c.count("preemptions", s.preemptions);
        }
        c.eval(s.hash, s.preemptions > 0);
        if (k == 0) { std::string lg; for (size_t x = 0; x < s.log.size() && x < 40; x++) lg += s.log[x] + ","; c.sample(c.cur + " schedule: " + lg); }
        bufs.clear();
        while (eps.size() > 1) eps.pop_back();
        eps[0]->close();
    }
}

// (b) one operation stopped in the middle of its copy: others must fail or see nothing of it
static void midcopy(Ctx& c) {
    int cases = c.thorough ? 1500 : 200;
    auto host = std::make_shared<Host>();
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        Geo g;
        g.dt = k % 4; g.lay = k / 4 % 2; g.es = dtsize(g.dt); g.bands = c.rng.in(2, 3); g.bo = 8; g.halves = 2; g.inner = 512 / (int)g.es;
        bool wr = k / 8 % 2, view = k / 16 % 2, by_srv = k / 32 % 2;
        c.begin("case %d: %s %s stopped %s (%s) by %s", k, dtname(g.dt), layname(g.lay), wr ? "write" : "read", view ? "view" : "ref", by_srv ? "server" : "client");
        std::string n = c.name();
        auto s = make_server(g.dt, g.lay, g.rows(), g.cols(), "T", n); s->start();
        auto a = make_client(g.dt, g.lay, "T", n); a->start();
        auto b = make_client(g.dt, g.lay, "T", n); b->start();
        auto r = remote_client(host, g.dt, g.lay, "T", n); r->start();
        Range all{0, g.bands, 0, g.halves};
        size_t nb = buf_bytes(g, all);
        std::vector<uint8_t> tmp(nb);
        encode(g, all, tmp.data(), 7);
        if (!do_op(g, *s, true, all, tmp.data(), false)) c.fail("in-range-refused", "first write refused");
        GuardBuf gb(nb);
        if (wr) encode(g, all, gb.mem, 9);
        gb.close();
        Ep& act = by_srv ? *s : *a;
        int faults = 0;
        GuardBuf::on_fault() = [&](GuardBuf*, size_t p) {
            if (p == 0) return;
            faults++;
            struct W { Ep* e; const char* n; } ws[] = {{by_srv ? a.get() : s.get(), "local"}, {b.get(), "local client"}, {r.get(), "remote client"}};
            for (auto& w : ws) {
                // reading
                Blk x(g.rows(), g.cols(), g.es);
                OpRes o = w.e->read(x, 0, 0, view ? Form::strided : Form::whole, c.rng);
                if (!o.damage.empty()) c.fail("failed-read-effect", "%s", o.damage.c_str());
                if (o.ok) {
                    std::vector<uint8_t> lin(nb);
                    for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) memcpy(&lin[(g.lay == ROW ? (size_t)i * g.inner + j : (size_t)j * g.inner + i) * g.es], x.at(i, j), g.es);
                    std::vector<uint32_t> t; std::string torn;
                    if (!decode(g, all, lin.data(), t, torn)) c.fail("torn-read", "%s's read during another's write: %s", w.n, torn.c_str());
                    else if (wr && std::set<uint32_t>(t.begin(), t.end()).size() > 1) c.fail("torn-read", "%s's read during another's write mixes old and new", w.n);
                }
                c.count(o.ok ? "concurrent reads that succeeded" : "concurrent reads refused");
                // writing one tile's line
                Blk y(1, 1, g.es); put(g, y.at(0, 0), 1, 0);
                if (!wr) {
                    // during a read: a successful write of everything must not show up in it partially
                    Blk z(g.rows(), g.cols(), g.es);
                    for (int i = 0; i < z.r; i++) for (int j = 0; j < z.c; j++) put(g, z.at(i, j), 13, g.lay == ROW ? j : i);
                    o = w.e->write(z, 0, 0, Form::whole, c.rng);
                    c.count(o.ok ? "concurrent writes that succeeded" : "concurrent writes refused");
                }
            }
        };
        bool ok = do_op(g, act, wr, all, gb.mem, view);
        GuardBuf::on_fault() = nullptr;
        gb.open();
        if (!ok) c.fail("in-range-refused", "the operation failed though the lock was free");
        std::vector<uint32_t> t; std::string torn;
        if (ok && !wr) {
            if (!decode(g, all, gb.mem, t, torn)) c.fail("torn-read", "the interrupted read: %s", torn.c_str());
            else if (std::set<uint32_t>(t.begin(), t.end()).size() > 1) c.fail("torn-read", "the interrupted read mixes values of two writes");
        }
        if (!do_op(g, *b, false, all, tmp.data(), false)) c.fail("lock-lost", "a read after the operation fails");
        else if (!decode(g, all, tmp.data(), t, torn)) c.fail("torn-write", "content afterwards: %s", torn.c_str());
        else if (std::set<uint32_t>(t.begin(), t.end()).size() > 1) c.fail("torn-write", "content afterwards mixes two writes");
        else if (wr && t[0] != 9) c.fail("lost-write", "a successful write is not there afterwards (%u)", t[0]);
        c.count("stops in the middle of a copy", faults);
        c.eval(hcomb(hcomb(g.dt * 2 + g.lay, wr * 4 + view * 2 + by_srv), g.bands), faults > 0);
        if (k == 0) c.sample(c.cur + fmt(", stopped %d times", faults));
        r.reset(); a.reset(); b.reset(); s.reset();
    }
}

// (c) free running processes; unique values, real time from the common clock
struct Ev { double t0, t1; uint32_t id; uint32_t wr; };
struct Logs { std::atomic<uint32_t> n; std::atomic<uint32_t> busy; std::atomic<uint32_t> bad; char msg[400]; Ev ev[200000]; };
static void stress(Ctx& c) {
    int rounds = c.thorough ? 60 : 5;
    for (int k = 0; k < rounds && c.nfail < 5; k++) {
        Geo g;
        g.dt = c.rng.pick(*new std::vector<int>{DI, DD, DF}); g.lay = c.rng.in(0, 1); g.es = dtsize(g.dt);
        g.bands = c.rng.pick(*new std::vector<int>{1, 4, 16, 64}); g.bo = 4; g.halves = 1; g.inner = c.rng.pick(*new std::vector<int>{3, 16, 64, 256});
        int np = c.rng.in(2, 4);
        bool threads = c.rng.chance(30);
        double dur = c.thorough ? 2.0 : 0.8;
        c.begin("round %d: %s %s %dx%d, %d %s", k, dtname(g.dt), layname(g.lay), g.rows(), g.cols(), np, threads ? "threads" : "processes");
        std::string n = c.name();
        Logs* L = shared<Logs>(np);
        auto* go = shared<std::atomic<int>>(1);
        auto* readyn = shared<std::atomic<int>>(1);
        auto srv = make_server(g.dt, g.lay, g.rows(), g.cols(), "T", n); srv->start();
        Range all{0, g.bands, 0, 1};
        auto body = [&](int p, Ep& e) {
            Logs& l = L[p];
            Rng r(hcomb(c.seed, p * 7919 + k));
            std::vector<uint8_t> b(buf_bytes(g, all));
            uint32_t seq = 0;
            (*readyn)++;
            while (!*go) {}
            double end = now() + dur;
            while (now() < end && l.n < 199000) {
                bool wr = r.chance(p == 0 ? 80 : 40), view = r.chance(50);
                uint32_t id = ((uint32_t)(p + 1) << 20 | ++seq) & 0xffffff;
                if (wr) encode(g, all, b.data(), id);
                Ev ev; ev.wr = wr; ev.id = id;
                ev.t0 = now();
                bool ok = do_op(g, e, wr, all, b.data(), view);
                ev.t1 = now();
                if (!ok) { l.busy++; continue; }
                if (!wr) {
                    std::vector<uint32_t> t; std::string torn;
                    bool d = decode(g, all, b.data(), t, torn);
                    if (d) for (auto x : t) if (x != t[0]) { d = false; torn = fmt("bands with %x and %x", t[0], x); }
                    if (!d) { if (!l.bad++) snprintf(l.msg, sizeof l.msg, "%s", torn.c_str()); continue; }
                    ev.id = t[0];
                }
                l.ev[l.n++] = ev;
            }
        };
        if (threads) {
            std::vector<std::thread> ts; std::vector<EpP> es;
            for (int p = 0; p < np; p++) { es.push_back(make_client(g.dt, g.lay, "T", n)); es.back()->start(); }
            for (int p = 0; p < np; p++) ts.emplace_back([&, p] { body(p, p ? *es[p] : *srv); });
            while (*readyn < np) msleep(1);
            *go = 1;
            for (auto& t : ts) t.join();
        } else {
            std::vector<Proc> ps;
            for (int p = 1; p < np; p++) ps.push_back(spawn([&, p] { auto e = make_client(g.dt, g.lay, "T", n); e->start(); body(p, *e); return 0; }));
            std::thread t0([&] { body(0, *srv); });
            while (*readyn < np) { msleep(1); c.tick(); }
            *go = 1;
            t0.join();
            for (auto& p : ps) if (!join(p, 30)) { c.fail("stuck", "a process does not end"); kill9(p); }
        }
        // offline check
        std::map<uint32_t, Ev> writes;
        uint64_t nr = 0, nw = 0, busy = 0;
        for (int p = 0; p < np; p++) {
            busy += L[p].busy;
            if (L[p].bad) c.fail("torn-read", "%u of process %d's reads mix writes: %s", L[p].bad.load(), p, L[p].msg);
            for (uint32_t i = 0; i < L[p].n; i++) if (L[p].ev[i].wr) { writes[L[p].ev[i].id] = L[p].ev[i]; nw++; }
        }
        struct E { double t; int kind; const Ev* e; };
        // a write w2 that lies entirely between the end of w and the start of a read hides w
        std::vector<const Ev*> byend;
        for (auto& w : writes) byend.push_back(&w.second);
        std::sort(byend.begin(), byend.end(), [](auto* a, auto* b) { return a->t1 < b->t1; });
        // prefix maximum of the start time over writes ordered by end
        std::vector<double> mx; double m = -1;
        for (auto* w : byend) { m = std::max(m, w->t0); mx.push_back(m); }
        auto last_started_before_end = [&](double t) {       // latest start among the writes which ended before t
            size_t lo = 0, hi = byend.size();
            while (lo < hi) { size_t md = (lo + hi) / 2; if (byend[md]->t1 < t) lo = md + 1; else hi = md; }
            return lo ? mx[lo - 1] : -1.0;
        };
        std::vector<std::pair<const Ev*, const Ev*>> reads;
        for (int p = 0; p < np; p++) for (uint32_t i = 0; i < L[p].n; i++) {
            const Ev& e = L[p].ev[i];
            if (e.wr) continue;
            nr++;
            double wend = -1, wst = -1;
            const Ev* w = nullptr;
            if (e.id) {
                auto it = writes.find(e.id);
                if (it == writes.end()) { c.fail("ghost-value", "a read returned %x, which no successful write wrote", e.id); break; }
                w = &it->second; wend = w->t1; wst = w->t0;
                if (wst > e.t1) { c.fail("not-linearizable", "a read returned a value written later"); break; }
            }
            if (last_started_before_end(e.t0) > wend) { c.fail("stale-read", "a read returned %x although a later write had ended before it started", e.id); break; }
            reads.push_back({&e, w});
        }
        // read-read: r1 before r2 and w(r2) before w(r1)
        std::sort(reads.begin(), reads.end(), [](auto& a, auto& b) { return a.first->t1 < b.first->t1; });
        std::vector<std::pair<const Ev*, const Ev*>> bystart = reads;
        std::sort(bystart.begin(), bystart.end(), [](auto& a, auto& b) { return a.first->t0 < b.first->t0; });
        double newest = -1; size_t q = 0;
        for (auto& r2 : bystart) {
            while (q < reads.size() && reads[q].first->t1 < r2.first->t0) { if (reads[q].second) newest = std::max(newest, reads[q].second->t0); q++; }
            double we = r2.second ? r2.second->t1 : -1;
            if (newest > we) { c.fail("older-after-newer", "a read returned an older value after another read had returned a newer one"); break; }
        }
        // the final content is a last write
        {
            std::vector<uint8_t> b(buf_bytes(g, all)); std::vector<uint32_t> t; std::string torn;
            auto e = make_client(g.dt, g.lay, "T", n); e->start();
            double t0 = now();
            if (!do_op(g, *e, false, all, b.data(), false)) c.fail("lock-lost", "the tensor cannot be read after the stress");
            else if (!decode(g, all, b.data(), t, torn) || std::set<uint32_t>(t.begin(), t.end()).size() > 1) c.fail("torn-write", "the final content mixes writes %s", torn.c_str());
            else if (writes.count(t[0]) && last_started_before_end(t0) > writes[t[0]].t1) c.fail("lost-write", "the final content %x is not of a last write", t[0]);
        }
        c.count("reads", nr); c.count("writes", nw); c.count("refused as busy", busy);
        for (auto& r : reads) c.eval(r.first->id, r.first->id != 0);
        c.evals += nw;
        if (k == 0) c.sample(c.cur + fmt(": %llu reads, %llu writes, %llu busy", (unsigned long long)nr, (unsigned long long)nw, (unsigned long long)busy));
        unshare_mem(L, np);
        srv.reset();
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"sched", 8, 16, sched}, {"midcopy", 4, 8, midcopy}, {"stress", 2, 4, stress}});
}
