// C18: diagnostics report exactly what happened and stay silent when off.
#include "ep.hpp"
#include <EigenIPC/CondVar.hpp>
#include <EigenIPC/Consumer.hpp>
#include <EigenIPC/Journal.hpp>
#include <EigenIPC/Producer.hpp>
#include <EigenIPC/ReturnCodes.hpp>
#include <EigenIPC/StringTensor.hpp>
using namespace vf;
using namespace EigenIPC;
using StrS = StringTensor<StrServer>;
using StrC = StringTensor<StrClient>;
using V = Journal::VLevel;
using LT = Journal::LogType;
using RC = ReturnCode;

// ---- return codes ---------------------------------------------------------------------------------
struct Code { RC c; const char* name; };
#define K(x) {RC::x, #x}
static const Code codes[] = {
    K(RESET), K(MEMOPEN), K(MEMOPENFAIL), K(MEMCREAT), K(MEMCREATFAIL), K(MEMSET), K(MEMSETFAIL), K(MEMEXISTS), K(MEMCLEAN), K(MEMFDCLOSED), K(MEMUNLINK),
    K(MEMMAP), K(MEMMAPFAIL), K(INDXOUT), K(NOFIT), K(SEMACQTIMEOUT), K(SEMACQ), K(SEMACQFAIL), K(SEMACQTRY), K(SEMACQSIGINT), K(SEMOPEN), K(SEMOPENFAIL),
    K(SEMREL), K(SEMRELFAIL), K(SEMCLOSE), K(SEMUNLINK), K(WRITEFAIL), K(READFAIL), K(SEMACQRETRY), K(OTHER), K(UNKNOWN)};
static const int NC = sizeof codes / sizeof *codes;

static std::multiset<std::string> words(const std::string& s, bool* shape) {
    std::multiset<std::string> w;
    *shape = s.size() >= 2 && s.front() == '[' && s.back() == ']';
    std::string cur;
    for (char ch : s) { if (isalnum((unsigned char)ch) || ch == '_') cur += ch; else if (!cur.empty()) { w.insert(cur); cur.clear(); } }
    if (!cur.empty()) w.insert(cur);
    return w;
}
static void codesets(Ctx& c) {
    int cases = c.thorough ? 40000 : 4000;
    auto verify = [&](RC v, const std::set<int>& m, const std::string& how) {
        for (int i = 1; i < NC; i++) if (isin(codes[i].c, v) != (m.count(i) > 0)) { c.fail("contained", "after %s: %s is%s contained", how.c_str(), codes[i].name, m.count(i) ? " not" : ""); return; }
        bool shape; auto w = words(getDescriptions(v), &shape);
        std::multiset<std::string> e; for (int i : m) e.insert(codes[i].name);
        if (w != e || !shape) c.fail("description", "after %s the description is %s", how.c_str(), getDescriptions(v).c_str());
        if (c.rng.chance(30)) {            // containment of combinations
            std::set<int> sub; RC x = RC::NONE;
            for (int i : m) if (c.rng.chance(50)) { sub.insert(i); x = x + codes[i].c; }
            if (sub.size() && !isin(x, v)) c.fail("contained", "after %s a part of it is not contained", how.c_str());
            int o = c.rng.in(1, NC - 1);
            if (!m.count(o)) { x = x + codes[o].c; if (isin(x, v)) c.fail("contained", "after %s a combination with %s is contained", how.c_str(), codes[o].name); }
        }
        std::string t = toString(v); char* end; unsigned long long n = strtoull(t.c_str(), &end, 10);
        if (t.empty() || *end || n != (unsigned long long)v) c.fail("number", "after %s the number is %s instead of %llu", how.c_str(), t.c_str(), (unsigned long long)v);
    };
    c.begin("every code");
    std::set<unsigned long long> vals; std::set<std::string> nm;
    for (int i = 0; i < NC; i++) {
        vals.insert((unsigned long long)codes[i].c);
        if (getDescription(codes[i].c) != codes[i].name) c.fail("description", "%s is described as %s", codes[i].name, getDescription(codes[i].c).c_str());
        if (i) verify(RC::NONE + codes[i].c, {i}, fmt("adding %s", codes[i].name));
        for (int j = 1; j < NC && i; j++) {
            std::set<int> m{i, j};
            verify(codes[i].c + codes[j].c, m, fmt("%s + %s", codes[i].name, codes[j].name));
            m.erase(j);
            verify(codes[i].c + codes[j].c - codes[j].c, m, fmt("%s + %s - %s", codes[i].name, codes[j].name, codes[j].name));
            c.eval(hcomb(i, j));
        }
    }
    if ((int)vals.size() != NC) c.fail("distinct", "two codes are the same");
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        RC v = RC::NONE; std::set<int> m; std::string how = "NONE";
        int n = c.rng.in(1, 40);
        uint64_t h = 1;
        for (int s = 0; s < n; s++) {
            int x = c.rng.in(0, 99), i = c.rng.in(1, NC - 1);
            if (x < 55) { v = c.rng.chance(50) || s == 0 ? v + codes[i].c : codes[i].c + v; m.insert(i); how += fmt(" + %s", codes[i].name); }
            else if (x < 75) { if (m.size() && c.rng.chance(70)) i = *std::next(m.begin(), c.rng() % m.size()); v = v - codes[i].c; m.erase(i); how += fmt(" - %s", codes[i].name); }
            else if (x < 82) { v = v + RC::RESET; m.clear(); how = "RESET"; }
            else if (x < 85) { v = v - RC::NONE; v = v + RC::NONE; }
            else {                          // combinations of combinations
                RC o = RC::NONE; std::set<int> om; int q = c.rng.in(2, 6);
                for (int t = 0; t < q; t++) { int j = c.rng.in(1, NC - 1); o = o + codes[j].c; om.insert(j); }
                if (x < 93) { v = v + o; m.insert(om.begin(), om.end()); how += " + a combination"; } else { v = v - o; for (int j : om) m.erase(j); how += " - a combination"; }
            }
            h = hcomb(h, (uint64_t)v);
        }
        verify(v, m, how);
        c.eval(h);
    }
    c.count("codes", NC);
}

// ---- what gets printed ----------------------------------------------------------------------------
struct Capture {                          // everything written to standard output and error
    off_t at = 0;
    static std::string& path() { static std::string p; return p; }
    static void open_(Ctx& c) {
        path() = c.outbase + ".cap";
        int f = open(path().c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0600);
        fflush(nullptr); setvbuf(stdout, nullptr, _IONBF, 0); setvbuf(stderr, nullptr, _IONBF, 0);
        saved()[0] = dup(1); saved()[1] = dup(2);
        dup2(f, 1); dup2(f, 2); close(f);
    }
    static int* saved() { static int s[2]; return s; }
    static void close_() { fflush(nullptr); dup2(saved()[0], 1); dup2(saved()[1], 2); unlink(path().c_str()); }
    Capture() { struct stat st; stat(path().c_str(), &st); at = st.st_size; }
    std::string got() {
        std::string s; int f = open(path().c_str(), O_RDONLY | O_CLOEXEC); lseek(f, at, SEEK_SET);
        char b[65536]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) s.append(b, n);
        close(f); return s;
    }
};
static std::string nocolor(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') { size_t j = i + 2; while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == ';')) j++; if (j < s.size() && s[j] == 'm') { i = j; continue; } }
        o += s[i];
    }
    return o;
}
static std::string text(Rng& r) {
    static const char* f[] = {"", "x", "%s", "%n", "%d%s%n%x", "two\nlines", "tab\t", "\xff\xfe", "é", "[WARN]", "\\", "\"", "100%", "a b c", "\r", "::"};
    std::string s; int n = r.in(0, 4);
    for (int i = 0; i < n; i++) s += f[r() % (sizeof f / sizeof *f)];
    if (r.chance(5)) s += std::string(r.in(1000, 100000), 'y');
    return s;
}
static void journal(Ctx& c) {
    int cases = c.thorough ? 6000 : 700;
    Capture::open_(c);
    static const char* sev[] = {"WARN", "EXCEP", "INFO", "STAT"};
    static const LT lts[] = {LT::WARN, LT::EXCEP, LT::INFO, LT::STAT};
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        std::string cl = text(c.rng), me = text(c.rng), ms = text(c.rng);
        int t = c.rng.in(0, 3); bool thr = c.rng.chance(50), stat = c.rng.chance(50);
        c.begin("journal %d: %s %s%s", k, stat ? "static" : "member", sev[t], thr ? " throwing" : "");
        if (k < 16) { t = k & 3; thr = k & 4; stat = k & 8; cl = "Class"; me = "method"; ms = "message"; }
        Capture cap;
        bool threw = false; std::string what;
        try {
            if (stat) Journal::log(cl, me, ms, lts[t], thr);
            else { Journal j(cl); if (c.rng.chance(30)) { Journal j2 = j; j2.log(me, ms, lts[t], thr); } else j.log(me, ms, lts[t], thr); }
        } catch (const std::exception& e) { threw = true; what = e.what(); }
        std::string out = cap.got();
        bool want = lts[t] == LT::EXCEP && thr;
        if (threw != want) { c.fail("raise", "%s", want ? "an error asked to be raised raises nothing" : "a message not asked to be raised raises"); continue; }
        std::string got = nocolor(want ? what : out);
        std::string e = nocolor("[" + cl + "][" + me + "][" + sev[t] + "]");
        // severity, origin and text, in whatever frame
        size_t p = got.find(cl.empty() ? "" : nocolor(cl)), q = p == std::string::npos ? p : got.find(me, p + cl.size()), s = q == std::string::npos ? q : got.find(sev[t], q + me.size()), m = s == std::string::npos ? s : got.find(ms, s + strlen(sev[t]));
        if (m == std::string::npos) c.fail("message", "the %s does not carry origin, severity and text: %s", want ? "exception" : "output", got.substr(0, 300).c_str());
        if (got.size() > cl.size() + me.size() + ms.size() + 60) c.fail("message", "the message comes with something else: %s", got.substr(0, 300).c_str());
        if (want && !out.empty()) c.fail("both", "a raised error is printed as well");
        if (!want) { if (out.empty() || out.back() != '\n') c.fail("message", "a message does not end its line"); c.count("messages printed"); } else c.count("errors raised");
        for (int o = 0; o < 4; o++) if (o != t && k < 16 && got.find(sev[o]) != std::string::npos) c.fail("severity", "a message of severity %s is shown as %s", sev[t], sev[o]);
        c.eval(hcomb(hcomb(hstr(cl + "/" + me), hstr(ms)), t * 4 + thr * 2 + stat));
    }
    Capture::close_();
}

// ---- lives of endpoints, quiet and loud -----------------------------------------------------------
struct Faults : Hook {                     // refuses the nth request to the system
    int at = -1, n = 0; int err = ENOMEM; bool hit = false, locks = false;
    void before(Call& c) override {
        if (locks) {
            int e = 0;
            if (c.op == Op::sem_wait || c.op == Op::sem_trywait || c.op == Op::sem_timedwait) e = err == ENOMEM ? EINTR : err == EACCES && c.op == Op::sem_timedwait ? ETIMEDOUT : EINVAL;
            else if (c.op == Op::sem_post) e = EOVERFLOW;
            else if (c.op == Op::close) e = EIO;
            if (e && n++ == at) { c.inject = true; c.err = e; hit = true; }
            return;
        }
        switch (c.op) { case Op::shm_open: case Op::ftruncate: case Op::mmap: case Op::sem_open: case Op::fchmod: case Op::shm_unlink: case Op::sem_unlink: case Op::munmap: case Op::sem_close: case Op::fallocate: break; default: return; }
        if (n++ == at) { c.inject = true; c.err = err; hit = true; }
    }
};
struct Life { Rng& r; std::string n; bool verbose; V vl; std::vector<std::string> raised; };
template <class F> static void go(Life& l, F f) { LibScope s; try { f(); } catch (const std::exception& e) { l.raised.push_back(e.what()); } }
static const char* sname[] = {"server", "client", "challenger", "strings", "triggers", "condition variable", "crash"};
static void live(Life& l, int sc) {
    Rng& r = l.r; std::string n = l.n; bool vb = l.verbose; V vl = l.vl; int iv = (int)vl;
    int dt = r.in(0, 3), lay = r.in(0, 1), R = r.in(1, 4), C = r.in(1, 4);
    Blk b(R, C, dtsize(dt)); fill_random(b, dt, r);
    Blk big(R + 1, C, dtsize(dt));
    auto ops = [&](Ep& e) {
        go(l, [&] { e.write(b, 0, 0, (Form)r.in(0, 5), r); }); go(l, [&] { e.read(b, 0, 0, (Form)r.in(0, 5), r); });
        go(l, [&] { e.write(big, 0, 0, Form::whole, r); }); go(l, [&] { e.read(big, r.in(-2, 2), r.in(-1, 5), Form::whole, r); });
        go(l, [&] { e.write(b, -1, 0, Form::block, r); }); go(l, [&] { e.read(b, R, C, Form::strided, r); });
    };
    switch (sc) {
        case 0: {
            EpP s; go(l, [&] { s = make_server(dt, lay, R, C, "T", n, r.chance(30), r.chance(80), vb, iv); });
            if (!s) return;
            ops(*s);
            go(l, [&] { s->start(); }); ops(*s); go(l, [&] { s->start(); });
            if (r.chance(50)) { go(l, [&] { s->stop(); }); ops(*s); go(l, [&] { s->stop(); }); go(l, [&] { s->start(); }); }
            go(l, [&] { s->acquire(); }); ops(*s); go(l, [&] { s->release(); });
            if (r.chance(70)) { go(l, [&] { s->close(); }); ops(*s); go(l, [&] { s->close(); }); go(l, [&] { s->start(); }); go(l, [&] { s->nclients(); }); }
            go(l, [&] { s.reset(); });
            break;
        }
        case 1: {
            EpP s, q, w; go(l, [&] { s = make_server(dt, lay, R, C, "T", n, false, true, vb, iv); s->start(); });
            if (!s || !s->started()) return;
            go(l, [&] { q = make_client(dt, lay, "T", n, true, vb, iv); }); if (!q) return;
            ops(*q); go(l, [&] { q->start(); }); ops(*q); go(l, [&] { q->start(); });
            if (q->started()) { go(l, [&] { s->acquire(); }); ops(*q); go(l, [&] { s->release(); }); }
            go(l, [&] { q->stop(); }); ops(*q); go(l, [&] { q->stop(); });
            go(l, [&] { w = make_client((dt + 1) % 4, lay, "T", n, true, vb, iv); w->start(); });
            go(l, [&] { w = make_client(dt, 1 - lay, "T", n, true, vb, iv); w->start(); });
            if (r.chance(50)) { go(l, [&] { q->start(); }); go(l, [&] { s->close(); }); ops(*q); }
            go(l, [&] { q->close(); }); ops(*q); go(l, [&] { q->close(); }); go(l, [&] { q->stop(); });
            go(l, [&] { w.reset(); }); go(l, [&] { q.reset(); }); go(l, [&] { s.reset(); });
            break;
        }
        case 2: {
            EpP s, t; go(l, [&] { s = make_server(dt, lay, R, C, "T", n, false, true, vb, iv); s->start(); });
            go(l, [&] { t = make_server(dt, lay, R, C, "T", n, false, true, vb, iv); }); if (t) { go(l, [&] { t->start(); }); go(l, [&] { t.reset(); }); }
            go(l, [&] { t = make_server(dt, lay, R + 1, C, "T", n, true, true, vb, iv); }); if (t) { go(l, [&] { t->start(); }); ops(*t); if (s) go(l, [&] { s->stop(); }); go(l, [&] { t->close(); }); }
            if (s) { ops(*s); go(l, [&] { s->close(); }); }
            go(l, [&] { t.reset(); }); go(l, [&] { s.reset(); });
            break;
        }
        case 3: {
            std::unique_ptr<StrS> s; std::unique_ptr<StrC> q, w; std::vector<std::string> v(3, "abc"); std::string t;
            go(l, [&] { s = std::make_unique<StrS>(3, "S", n, vb, vl, r.chance(30)); }); if (!s) return;
            go(l, [&] { s->write(v, 0); }); go(l, [&] { s->run(); }); if (!s->isRunning()) return;
            go(l, [&] { q = std::make_unique<StrC>("S", n, vb, vl); q->run(); });
            go(l, [&] { s->write(v, 0); }); go(l, [&] { s->write(v, 1); }); go(l, [&] { s->write(std::string(2000, 'x'), 1); }); go(l, [&] { s->read(v, -1); }); go(l, [&] { s->read(t, 7); });
            if (q && q->isRunning()) { go(l, [&] { q->read(v, 0); }); go(l, [&] { q->write(v, 2); }); go(l, [&] { q->read(t, 3); }); go(l, [&] { q->close(); }); go(l, [&] { q->read(t, 0); }); }
            go(l, [&] { auto x = make_client(DF, ROW, "S", n, true, vb, iv); x->start(); });
            go(l, [&] { s->close(); }); go(l, [&] { s->read(t, 0); }); go(l, [&] { q.reset(); }); go(l, [&] { s.reset(); });
            break;
        }
        case 4: {
            std::unique_ptr<Producer> p; std::unique_ptr<Consumer> q;
            go(l, [&] { p = std::make_unique<Producer>("P", n, vb, vl, r.chance(30)); }); if (!p) return;
            go(l, [&] { p->trigger(); }); go(l, [&] { p->wait_ack_from(1, 1); });
            bool ok = false; go(l, [&] { p->run(); ok = true; }); if (!ok) return;
            go(l, [&] { q = std::make_unique<Consumer>("P", n, vb, vl); }); if (!q) return;
            go(l, [&] { q->wait(1); }); go(l, [&] { q->ack(); });
            ok = false; go(l, [&] { q->run(); ok = true; }); if (!ok) return;
            go(l, [&] { q->wait(1); }); go(l, [&] { p->trigger(); q->wait(100); q->ack(); p->wait_ack_from(1, 100); });
            go(l, [&] { p->wait_ack_from(1, 1); });
            go(l, [&] { p->trigger(); q->wait_and_ack([] { return false; }, 100); }); go(l, [&] { q->wait_and_ack([]() -> bool { throw std::runtime_error("x"); }, 1); });
            go(l, [&] { p->trigger(); p->trigger(); q->wait(10); });
            go(l, [&] { Producer o("P", n, vb, vl, false); o.run(); });
            if (r.chance(50)) { go(l, [&] { q->close(); }); go(l, [&] { q->wait(1); }); go(l, [&] { q->ack(); }); go(l, [&] { p->close(); }); go(l, [&] { p->trigger(); }); go(l, [&] { p->run(); }); }
            else { go(l, [&] { p->close(); }); go(l, [&] { q->ack(); }); go(l, [&] { q->wait(1); }); go(l, [&] { q->close(); }); }
            go(l, [&] { q.reset(); }); go(l, [&] { p.reset(); });
            break;
        }
        case 5: {
            std::unique_ptr<ConditionVariable> s, q;
            go(l, [&] { ConditionVariable x(false, "V", n, vb, vl); });
            go(l, [&] { s = std::make_unique<ConditionVariable>(true, "V", n, vb, vl, r.chance(50)); }); if (!s) return;
            go(l, [&] { ConditionVariable x(true, "V", n, vb, vl, false); });
            go(l, [&] { q = std::make_unique<ConditionVariable>(false, "V", n, vb, vl); }); if (!q) return;
            go(l, [&] { auto k = q->lock(); q->timedwait(k, 1); q->timedwait_for(k, 1, [] { return false; }); q->timedwait_for(k, 1, [] { return true; }); });
            go(l, [&] { s->notify_all(); q->notify_one(); });
            if (r.chance(50)) go(l, [&] { q->close(); }); go(l, [&] { s->close(); }); go(l, [&] { q->close(); }); go(l, [&] { q->notify_all(); });
            go(l, [&] { q.reset(); }); go(l, [&] { s.reset(); });
            break;
        }
        case 6: {
            int at = r.in(0, 2);
            Proc p = spawn([&]() -> int {
                hook = nullptr;
                auto s = make_server(dt, lay, R, C, "T", n, false, true, vb, iv); if (at == 0) raise(SIGKILL);
                s->start(); if (at == 1) raise(SIGKILL);
                LibScope x; s->acquire(); raise(SIGKILL); return 0;
            });
            join(p, 20);
            EpP s, q; go(l, [&] { s = make_server(dt, lay, R, C, "T", n, false, true, vb, iv); s->start(); });
            if (s && s->started()) { ops(*s); } else { go(l, [&] { s.reset(); }); go(l, [&] { s = make_server(dt, lay, R, C, "T", n, true, true, vb, iv); s->start(); }); }
            if (s && s->started()) { ops(*s); go(l, [&] { q = make_client(dt, lay, "T", n, true, vb, iv); q->start(); }); if (q) ops(*q); }
            go(l, [&] { q.reset(); }); go(l, [&] { s.reset(); });
            break;
        }
    }
}
// the text of an exception of the library's own says what the numeric code says
static void coherent(Ctx& c, const std::string& w) {
    size_t p = w.find("error code: ");
    if (p == std::string::npos) return;
    char* end; unsigned long long v = strtoull(w.c_str() + p + 12, &end, 10);
    size_t a = w.find('[', end - w.c_str()), b = w.find(']', a == std::string::npos ? 0 : a);
    if (a == std::string::npos || b == std::string::npos) { c.fail("exception", "an exception does not describe its code: %s", w.c_str()); return; }
    bool shape; auto ws = words(w.substr(a, b - a + 1), &shape);
    std::multiset<std::string> e;
    for (int i = 0; i < NC; i++) if (v & (unsigned long long)codes[i].c) e.insert(codes[i].name);
    if (ws != e) c.fail("exception", "an exception describes the code %llu as %s", v, w.substr(a, b - a + 1).c_str());
    if (w.find("EigenIPC") == std::string::npos || w.find("EXCEP") == std::string::npos) c.fail("exception", "an exception carries no origin or severity: %s", w.c_str());
    c.count("codes of exceptions checked");
}
static void quiet(Ctx& c) {
    int cases = c.thorough ? 3000 : 260;
    Capture::open_(c);
    { Capture cap; printf("probe"); fprintf(stderr, "probe"); if (cap.got() != "probeprobe") c.fail("monitor", "the monitor does not see what is printed"); }
    for (int k = 0; k < cases && c.nfail < 8; k++) {
        int sc = k % 7; V vl = (V)c.rng.in(0, 3); bool faults = c.rng.chance(60);
        c.begin("quiet %d: %s at level %d%s", k, sname[sc], (int)vl, faults ? " with a refusal" : "");
        std::string n = c.name(); Rng r(c.rng());
        bool locks = c.rng.chance(40);
        int at = faults ? c.rng.in(0, 60) : -1, err = c.rng.chance(50) ? ENOMEM : c.rng.chance(50) ? EACCES : EMFILE;
        Capture cap;
        struct Out { int raised, hit, n; char w[6][600]; }; Out* o = shared<Out>();
        Proc p = spawn([&]() -> int {
            Faults f; f.at = at; f.err = err; f.locks = locks; hook = &f;
            Life l{r, n, false, vl, {}};
            live(l, sc);
            hook = nullptr;
            o->raised = l.raised.size(); o->hit = f.hit;
            for (auto& w : l.raised) if (o->n < 6) { strncpy(o->w[o->n], w.c_str(), 599); o->n++; }
            return 0;
        });
        if (!join(p, locks && faults ? 2 : 15)) { kill9(p); c.count("lives cut short"); }
        std::string s = cap.got();
        if (locks && p.done && WIFSIGNALED(p.status)) { c.count("lives ended by a failing release"); s.clear(); }   // not a matter of diagnostics
        if (!s.empty()) c.fail("noise", "with verbosity off something is printed: %s", s.substr(0, 400).c_str());
        for (int i = 0; i < o->n; i++) coherent(c, o->w[i]);
        c.count("lives watched"); c.count("exceptions raised", o->raised); c.count("refusals", o->hit);
        c.eval(hcomb(hcomb(sc, (int)vl), hcomb(at, r.s)));
        unshare_mem(o);
        shm_clean(n);
    }
    Capture::close_();
}
static void loud(Ctx& c) {
    int cases = c.thorough ? 1200 : 140;
    Capture::open_(c);
    for (int k = 0; k < cases && c.nfail < 8; k++) {
        int sc = k % 7; int vl = (k / 7) % 4;
        c.begin("loud %d: %s at level %d", k, sname[sc], vl);
        std::string n = c.name(); Rng r(c.rng());
        Capture cap;
        Proc p = spawn([&]() -> int { Life l{r, n, true, (V)vl, {}}; live(l, sc); return 0; });
        if (!join(p, 15)) { kill9(p); c.count("lives cut short"); }
        std::string s = cap.got();
        // a sequence of messages, each with its origin, severity and text
        size_t i = 0; std::map<std::string, int> per; std::string endc = "\033[0m\n";
        while (i < s.size()) {
            size_t e = s.find(endc, i);
            std::string m = s.substr(i, e == std::string::npos ? e : e - i);
            i = e == std::string::npos ? s.size() : e + endc.size();
            std::string x = nocolor(m), sev;
            size_t a = x.find("]["), b = a == std::string::npos ? a : x.find("][", a + 2), d = b == std::string::npos ? b : x.find("]", b + 2);
            if (x.empty() || x[0] != '[' || d == std::string::npos) { c.fail("format", "something else than a message is printed: %s", x.substr(0, 200).c_str()); break; }
            sev = x.substr(b + 2, d - b - 2);
            if (sev != "WARN" && sev != "EXCEP" && sev != "INFO" && sev != "STAT") { c.fail("format", "a message without severity: %s", x.substr(0, 200).c_str()); break; }
            if (x.compare(0, 9, "[EigenIPC") != 0) c.fail("format", "a message without origin: %s", x.substr(0, 200).c_str());
            if (x.size() < d + 4) c.fail("format", "a message without text: %s", x.substr(0, 200).c_str());
            per[sev]++;
            coherent(c, m);
            if (getenv("VFTRACE")) c.tr("%s", x.c_str());
        }
        if (vl < 3 && per["INFO"]) c.fail("level", "information is printed at level V%d", vl);
        if (vl < 2 && per["STAT"]) c.fail("level", "statistics are printed at level V%d", vl);
        for (auto& kv : per) c.count(fmt("level %d %s", vl, kv.first.c_str()), kv.second);
        c.eval(hcomb(hcomb(sc, vl), r.s));
        shm_clean(n);
    }
    Capture::close_();
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"codes", 1, 4, codesets, 30}, {"journal", 1, 4, journal, 30}, {"quiet", 4, 12, quiet, 60}, {"loud", 2, 6, loud, 60}});
}
