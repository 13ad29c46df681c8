// C11: string tensors deliver every string unchanged, or refuse it.
#include "remote.hpp"
#include "guard.hpp"
#include <EigenIPC/StringTensor.hpp>
using namespace vf;
using namespace EigenIPC;
using StrS = StringTensor<StrServer>;
using StrC = StringTensor<StrClient>;
static const auto V0 = Journal::VLevel::V0;
using VS = std::vector<std::string>;

struct Str {                       // a string endpoint here or elsewhere
    virtual ~Str() {}
    virtual bool writev(const VS&, int) = 0;
    virtual bool write1(const std::string&, int) = 0;
    virtual bool readv(VS&, int) = 0;
    virtual bool read1(std::string&, int) = 0;
    virtual int length() = 0;
    virtual void lock(bool) = 0;
    virtual bool running() = 0;
};
template <class T> struct Local : Str {
    std::unique_ptr<T> t;
    ~Local() { LibScope l; t.reset(); }
    bool writev(const VS& v, int i) override { LibScope l; return t->write(v, i); }
    bool write1(const std::string& s, int i) override { LibScope l; return t->write(s, i); }
    bool readv(VS& v, int i) override { LibScope l; return t->read(v, i); }
    bool read1(std::string& s, int i) override { LibScope l; return t->read(s, i); }
    int length() override { return t->getLength(); }
    void lock(bool on) override { LibScope l; if (on) t->getSharedMem().dataSemAcquire(); else t->getSharedMem().dataSemRelease(); }
    bool running() override { return t->isRunning(); }
};
static std::unique_ptr<Str> serve(int len, const std::string& n, bool safe = true) { LibScope l; auto e = std::make_unique<Local<StrS>>(); e->t.reset(new StrS(len, "T", n, false, V0, false, safe)); return e; }
static std::unique_ptr<Str> client(const std::string& n, bool safe = true) { LibScope l; auto e = std::make_unique<Local<StrC>>(); e->t.reset(new StrC("T", n, false, V0, safe)); return e; }
static void start(Str& s) { LibScope l; if (auto* a = dynamic_cast<Local<StrS>*>(&s)) a->t->run(); else dynamic_cast<Local<StrC>&>(s).t->run(); }
static void shut(Str& s) { LibScope l; if (auto* a = dynamic_cast<Local<StrS>*>(&s)) a->t->close(); else dynamic_cast<Local<StrC>&>(s).t->close(); }

enum Q { Q_CLIENT = 1, Q_WV, Q_W1, Q_RV, Q_R1, Q_LEN, Q_LOCK, Q_DROP, Q_RUN };
static std::map<int, std::unique_ptr<Str>> far_;
static void putv(Buf& b, const VS& v) { b.put((uint32_t)v.size()); for (auto& s : v) b.puts(s); }
static VS getv(Buf& b) { VS v(b.get<uint32_t>()); for (auto& s : v) s = b.gets(); return v; }
static void custom(Buf& q, Buf& a) {
    Q k = q.get<Q>(); int id = q.get<int>();
    if (k == Q_CLIENT) { auto n = q.gets(); far_[id] = client(n); start(*far_[id]); return; }
    if (k == Q_DROP) { far_.erase(id); return; }
    Str& t = *far_.at(id);
    if (k == Q_LEN) a.put(t.length());
    else if (k == Q_RUN) a.put(t.running());
    else if (k == Q_LOCK) t.lock(q.get<bool>());
    else {
        int i = q.get<int>(); VS v = getv(q); bool ok = false;
        if (k == Q_WV) ok = t.writev(v, i);
        if (k == Q_W1) ok = t.write1(v[0], i);
        if (k == Q_RV) ok = t.readv(v, i);
        if (k == Q_R1) ok = t.read1(v[0], i);
        a.put(ok); putv(a, v);
    }
}
struct Far : Str {
    HostP h; int id;
    Far(HostP h_, int id_, const std::string& n) : h(h_), id(id_) { rpc(Q_CLIENT, [&](Buf& q) { q.puts(n); }); }
    ~Far() { try { rpc(Q_DROP, [](Buf&) {}); } catch (...) {} }
    Buf rpc(Q k, const std::function<void(Buf&)>& f) { Buf q; q.put((int)R_CUSTOM); q.put(0); q.put(k); q.put(id); f(q); Buf a = h->call(q); if (a.get<char>()) throw std::runtime_error(a.gets()); return a; }
    bool op(Q k, VS& v, int i) { Buf a = rpc(k, [&](Buf& q) { q.put(i); putv(q, v); }); bool ok = a.get<bool>(); v = getv(a); return ok; }
    bool writev(const VS& v, int i) override { VS w = v; return op(Q_WV, w, i); }
    bool write1(const std::string& s, int i) override { VS w{s}; return op(Q_W1, w, i); }
    bool readv(VS& v, int i) override { return op(Q_RV, v, i); }
    bool read1(std::string& s, int i) override { VS w{s}; bool ok = op(Q_R1, w, i); s = w[0]; return ok; }
    int length() override { return rpc(Q_LEN, [](Buf&) {}).get<int>(); }
    bool running() override { return rpc(Q_RUN, [](Buf&) {}).get<bool>(); }
    void lock(bool on) override { rpc(Q_LOCK, [&](Buf& q) { q.put(on); }); }
};

static std::string rstr(Rng& r, int len) {
    std::string s(len, 0);
    int style = r.in(0, 4);
    for (auto& c : s) c = style == 0 ? (char)r.in(1, 255) : style == 1 ? (char)r.in(0x80, 0xff) : style == 2 ? (char)r.in('a', 'z') : style == 3 ? "\x7f\x80\xff\x01 \n\t/"[r.in(0, 7)] : (char)0xff;
    return s;
}
static int rlen(Rng& r) { static const int e[] = {0, 1, 2, 3, 4, 5, 7, 8, 1020, 1021, 1022, 1023, 1024}; return r.chance(50) ? e[r.in(0, 12)] : r.in(0, 1024); }
static std::string show(const std::string& s) { std::string o; for (unsigned char c : s.substr(0, 40)) o += fmt("%02x", c); return fmt("%zu:%s", s.size(), o.c_str()); }

static void history(Ctx& c) {
    int cases = c.thorough ? 400 : 24;
    GuardMaps g;
    hook = &g;
    HostP h = std::make_shared<Host>(custom);
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        std::string n = c.name();
        bool huge = k % 24 == 11;
        int L = huge ? c.rng.in(200, 1500) : c.rng.chance(20) ? 1 : c.rng.in(1, 12);
        bool safe = c.rng.chance(80);
        c.begin("history %d: %d strings%s", k, L, safe ? "" : " (unsafe server)");
        auto srv = serve(L, n, safe);
        std::vector<std::unique_ptr<Str>> e;
        std::vector<std::string> nm{"server", "client", "far client", "second far client"};
        VS model(L);
        {   // not started
            VS v(1, "x"); std::string s = "x";
            if (srv->writev(v, 0) || srv->write1(s, 0) || srv->readv(v, 0) || srv->read1(s, 0)) c.fail("not-running", "an operation on a server that was not started succeeds");
            auto q = client(n);
            if (q->writev(v, 0) || q->write1(s, 0) || q->readv(v, 0) || q->read1(s, 0)) c.fail("not-running", "an operation on a client that was not started succeeds");
        }
        start(*srv);
        e.push_back(std::move(srv)); e.push_back(client(n)); start(*e[1]);
        e.push_back(std::make_unique<Far>(h, k * 4, n)); e.push_back(std::make_unique<Far>(h, k * 4 + 1, n));
        for (size_t i = 0; i < e.size(); i++) if (e[i]->length() != L) c.fail("length", "the %s reports %d strings instead of %d", nm[i].c_str(), e[i]->length(), L);
        auto all = [&](const char* when) {
            for (size_t i = 0; i < e.size(); i++) {
                if (!c.rng.chance(60)) continue;
                VS v(L, "junk" + std::string(c.rng.in(0, 30), 'q'));
                if (c.rng.chance(50)) { if (!e[i]->readv(v, 0)) { c.fail("read", "the %s cannot read everything %s", nm[i].c_str(), when); return; } }
                else for (int j = 0; j < L; j++) if (!e[i]->read1(v[j], j)) { c.fail("read", "the %s cannot read entry %d %s", nm[i].c_str(), j, when); return; }
                for (int j = 0; j < L; j++) if (v[j] != model[j]) { c.fail("content", "%s the %s reads at %d %s instead of %s", when, nm[i].c_str(), j, show(v[j]).c_str(), show(model[j]).c_str()); return; }
                c.count("strings compared", L);
            }
        };
        all("at the start");
        int steps = huge ? 10 : c.rng.in(20, 60);
        for (int s = 0; s < steps && c.nfail < 10; s++) {
            int w = c.rng.in(0, 3);
            Str& t = *e[w];
            int op = c.rng.in(0, 9);
            uint64_t hs = hcomb(k, s);
            if (op <= 3) {                 // a write that fits
                int m = c.rng.in(1, L), at = c.rng.in(0, L - m);
                VS v(m); for (auto& x : v) x = rstr(c.rng, rlen(c.rng));
                bool one = m == 1 && c.rng.chance(50);
                c.tr("%s writes %d at %d%s", nm[w].c_str(), m, at, one ? " (single)" : "");
                bool ok = one ? t.write1(v[0], at) : t.writev(v, at);
                if (!ok) { c.fail("refused", "the %s is refused writing %d strings at %d of %d", nm[w].c_str(), m, at, L); continue; }
                for (int i = 0; i < m; i++) { model[at + i] = v[i]; hs = hcomb(hs, hstr(v[i])); }
                c.eval(hcomb(hs, w)); all("after a write");
            } else if (op <= 5) {          // a read of a part
                int m = c.rng.in(1, L), at = c.rng.in(0, L - m);
                VS v(m, "old");
                bool one = m == 1 && c.rng.chance(50);
                c.tr("%s reads %d at %d", nm[w].c_str(), m, at);
                bool ok = one ? t.read1(v[0], at) : t.readv(v, at);
                if (!ok) { c.fail("refused", "the %s is refused reading %d strings at %d of %d", nm[w].c_str(), m, at, L); continue; }
                for (int i = 0; i < m; i++) if (v[i] != model[at + i]) c.fail("content", "the %s reads at %d %s instead of %s", nm[w].c_str(), at + i, show(v[i]).c_str(), show(model[at + i]).c_str());
                c.eval(hcomb(hs, w * 100 + at));
            } else if (op <= 8) {          // something that does not fit
                static const int bad[] = {-1, -2, INT32_MIN, INT32_MIN + 1, INT32_MAX, INT32_MAX - 1, 1 << 30, -(1 << 30)};
                int kind = c.rng.in(0, 4), m, at; bool wr = c.rng.chance(60), one = false, longs = false;
                if (kind == 0) { m = c.rng.in(1, L + 3); at = bad[c.rng.in(0, 7)]; }
                else if (kind == 1) { m = c.rng.in(1, L + 3); at = std::max(0, L - m + c.rng.in(1, 3)); if (at + m <= L) at = L; }
                else if (kind == 2) { m = 1; one = true; at = c.rng.chance(50) ? bad[c.rng.in(0, 7)] : L + c.rng.in(0, 2); }
                else if (kind == 3) { m = L + c.rng.in(1, 40); at = c.rng.in(0, L); }
                else { m = c.rng.in(1, L); at = c.rng.in(0, L - m); wr = true; longs = true; one = m == 1 && c.rng.chance(50); }
                VS v(m); for (auto& x : v) x = rstr(c.rng, rlen(c.rng));
                if (longs) { static const int e2[] = {1025, 1026, 1027, 1028, 1029, 2048, 4097, 100000}; v[c.rng.in(0, m - 1)] = rstr(c.rng, e2[c.rng.in(0, 7)]); }
                c.tr("%s %s %d at %d%s, which does not fit", nm[w].c_str(), wr ? "writes" : "reads", m, at, longs ? " (too long a string)" : "");
                ShmSnap::canary(n);
                ShmSnap snap; snap.take(n);
                VS before = v; bool ok;
                if (wr) ok = one ? t.write1(v[0], at) : t.writev(v, at); else ok = one ? t.read1(v[0], at) : t.readv(v, at);
                if (ok) c.fail("accepted", "the %s %s %d strings at %d of %d%s: success is reported", nm[w].c_str(), wr ? "writes" : "reads", m, at, L, longs ? ", one of them too long" : "");
                std::string d = snap.diff(n);
                if (!d.empty()) c.fail("effect", "the refused %s of %d strings at %d by the %s: %s", wr ? "write" : "read", m, at, nm[w].c_str(), d.c_str());
                if (v != before) c.fail("effect", "the refused read of %d strings at %d by the %s changed the destination", m, at, nm[w].c_str());
                c.eval(hcomb(hcomb(hs, kind * 2 + wr), at)); c.count("refusals");
                all("after a refusal");
            } else if (safe || w != 0) {   // the lock is somebody else's
                int o = (w + 1) % 4;
                if (o == 0 && !safe) continue;
                c.tr("%s holds the lock, %s tries", nm[o].c_str(), nm[w].c_str());
                e[o]->lock(true);
                ShmSnap snap; snap.take(n);
                VS v(1, "no"); std::string one = "no"; bool a = t.writev(v, 0), b = t.write1(one, 0), r1 = t.readv(v, 0), r2 = t.read1(one, 0);
                std::string d = snap.diff(n);
                e[o]->lock(false);
                if (a || b || r1 || r2) c.fail("lock", "the %s works while the %s holds the lock", nm[w].c_str(), nm[o].c_str());
                if (!d.empty()) c.fail("effect", "operations refused for the lock: %s", d.c_str());
                if (v[0] != "no" || one != "no") c.fail("effect", "reads refused for the lock changed the destination");
                c.count("lock refusals"); all("after a lock refusal");
            }
            if (c.rng.chance(4)) {         // a client goes and comes back
                int q = c.rng.in(1, 3);
                c.tr("the %s restarts", nm[q].c_str());
                if (q == 1) { shut(*e[1]); VS v(1); if (e[1]->readv(v, 0) || e[1]->running()) c.fail("closed", "a closed client works"); if (c.rng.chance(50)) e[1] = client(n); start(*e[1]); }
                else { e[q].reset(); e[q] = std::make_unique<Far>(h, k * 4 + q - 2, n); }
                all("after a restart");
            }
        }
        if (k < 2) { std::string t; for (size_t i = 0; i < c.trace.size() && i < 20; i++) t += c.trace[i] + "; "; c.sample(t); }
        // the name is reused with another length; the client of the old one may come back on the new one
        std::unique_ptr<Str> back; if (c.rng.chance(70)) back = std::move(e[1]);
        if (back) { if (c.rng.chance(30)) { VS v(1, "before"); back->writev(v, 0); } shut(*back); }
        e.clear();
        int L2 = L + c.rng.in(-L + 1, 5);
        srv = serve(L2, n); start(*srv);
        auto q = client(n); start(*q);
        VS v(L2, "?");
        if (q->length() != L2 || !q->readv(v, 0)) c.fail("reuse", "a string tensor of %d after one of %d does not work", L2, L);
        for (auto& x : v) if (!x.empty()) { c.fail("reuse", "a new string tensor is not empty"); break; }
        if (back) {
            start(*back);
            if (back->length() != L2) c.fail("reuse", "a client run again tells %d strings instead of %d", (int)back->length(), L2);
            VS all1(L2), got(L2, "?"); for (auto& x : all1) x = rstr(c.rng, rlen(c.rng));
            std::string last = rstr(c.rng, rlen(c.rng)), one = "?";
            if (!back->writev(all1, 0) || !q->readv(got, 0) || got != all1) c.fail("reuse", "%d strings written by a client run again after %d do not arrive", L2, L);
            got.assign(L2, "?");
            if (!q->write1(last, L2 - 1) || !back->read1(one, L2 - 1) || one != last) c.fail("reuse", "the last of %d strings does not arrive at a client run again after %d", L2, L);
            all1[L2 - 1] = last;
            if (!back->readv(got, 0) || got != all1) c.fail("reuse", "%d strings read by a client run again after %d differ", L2, L);
            one = "?";
            if (back->write1("x", L2) || back->read1(one, L2)) c.fail("reuse", "a client run again after %d strings works beyond the %d there are", L, L2);
            c.count("clients run again on another length");
            back.reset();
        }
        q.reset(); srv.reset();
        shm_clean(n);
    }
    hook = nullptr;
}

// every length, every byte value at every place of a word, every position
static void exhaustive(Ctx& c) {
    std::string n = c.name();
    c.begin("all lengths and bytes");
    const int L = 9;
    auto s = serve(L, n); start(*s);
    auto q = client(n); start(*q);
    VS model(L);
    auto put = [&](Str& a, Str& b, const std::string& x, int at, bool list) {
        bool ok = list ? a.writev(VS{x}, at) : a.write1(x, at);
        model[at] = x;
        std::string y = "zzzzzzzzzzzzzzzz";
        if (!ok || !b.read1(y, at)) { c.fail("refused", "a string of %zu bytes at %d is refused", x.size(), at); return; }
        if (y != x) c.fail("content", "at %d %s arrives as %s", at, show(x).c_str(), show(y).c_str());
        c.eval(hcomb(hstr(x), at * 2 + list)); c.tick(); c.count("strings compared");
    };
    for (int len = 0; len <= 1024; len++) {
        if (len % c.nshards != c.shard) continue;
        std::string x(len, 0);
        for (int i = 0; i < len; i++) x[i] = (char)(1 + (i * 7 + len) % 255);
        put(*s, *q, x, len % L, len & 1);
        put(*q, *s, std::string(len, (char)0xff), (len + 3) % L, !(len & 1));
        put(*s, *q, std::string(len / 2, 'b'), len % L, true);        // a shorter one leaves no tail
        if (c.nfail > 5) return;
    }
    for (int b = 1; b < 256; b++)
        for (int at = 0; at < 9; at++)
            for (int len = at + 1; len <= 9; len += 1 + (at & 1)) {
                if ((b + at) % c.nshards != c.shard) continue;
                std::string x(len, 'k'); x[at] = (char)b;
                put(b & 1 ? *s : *q, b & 1 ? *q : *s, x, (b + at) % L, len & 1);
                std::string y(1024, 'k'); y[1015 + at] = (char)b;
                put(b & 1 ? *q : *s, b & 1 ? *s : *q, y, (b + at + 1) % L, len & 1);
                if (c.nfail > 5) return;
            }
    VS v(L);
    if (!q->readv(v, 0) || v != model) c.fail("content", "in the end the whole list differs");
    c.sample("every length 0..1024, every byte value 1..255 at every place of a word, at the start and at the end of a string");
    shm_clean(n);
}

// lists written whole are read whole while several processes write
static void together(Ctx& c) {
    int rounds = c.thorough ? 12 : 2;
    for (int k = 0; k < rounds && c.nfail < 5; k++) {
        std::string n = c.name();
        const int L = 8;
        c.begin("stress %d", k);
        auto s = serve(L, n); start(*s);
        struct Sh { std::atomic<int> stop; std::atomic<uint64_t> writes, reads, bad, refused; char msg[300]; };
        Sh* sh = shared<Sh>();
        auto make = [](uint64_t v, int i) { return fmt("w%llu-%d-", (unsigned long long)v, i) + std::string((v * 37 + i * 101) % 900, (char)('a' + v % 26)); };
        std::vector<Proc> ps;
        for (int w = 0; w < 3; w++) ps.push_back(spawn([&] {
            auto q = client(n); start(*q);
            for (uint64_t v = w; !sh->stop; v += 3) { VS x(L); for (int i = 0; i < L; i++) x[i] = make(v, i); if (q->writev(x, 0)) sh->writes++; else sh->refused++; }
            return 0;
        }));
        for (int r = 0; r < 2; r++) ps.push_back(spawn([&] {
            auto q = client(n); start(*q);
            VS x(L);
            while (!sh->stop) {
                if (!q->readv(x, 0)) { sh->refused++; continue; }
                sh->reads++;
                if (x[0].empty()) continue;
                unsigned long long v = 0; sscanf(x[0].c_str(), "w%llu-", &v);
                for (int i = 0; i < L; i++) if (x[i] != make(v, i)) { if (!sh->bad++) snprintf(sh->msg, sizeof sh->msg, "entry %d is %.60s with the list of version %llu", i, x[i].c_str(), v); break; }
            }
            return 0;
        }));
        double t0 = now();
        while (now() - t0 < (c.thorough ? 4 : 1.5)) { msleep(50); c.tick(); }
        sh->stop = 1;
        for (auto& p : ps) { if (!join(p, 20)) { c.fail("hang", "a process does not end"); kill9(p); } else if (p.status) c.fail("crash", "a process ended with status %d", p.status); }
        if (sh->bad) c.fail("mixed", "%llu of %llu lists read are not lists written: %s", (unsigned long long)sh->bad, (unsigned long long)sh->reads, sh->msg);
        if (!sh->reads || !sh->writes) c.fail("monitor", "nothing happened");
        c.count("lists written", sh->writes); c.count("lists read", sh->reads); c.count("refused", sh->refused);
        c.eval(hcomb(k, sh->reads));
        unshare_mem(sh);
        s.reset();
        shm_clean(n);
    }
    c.sample("3 processes write whole lists, 2 read them");
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"history", 8, 24, history}, {"exhaustive", 4, 4, exhaustive}, {"together", 1, 2, together}});
}
