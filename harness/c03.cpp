// C03: out-of-range and not-ready operations are refused without any effect.
#include "remote.hpp"
#include "guard.hpp"
#include <EigenIPC/Helpers.hpp>
#include <climits>
using namespace vf;

static GuardMaps guard;

static bool inside(long row, long col, long r, long q, long R, long C) { return row >= 0 && col >= 0 && r >= 0 && q >= 0 && row + r <= R && col + q <= C && row < R && col < C; }

static void lock_free(Ctx& c, Ep& probe, const char* after) {
    Blk b(1, 1, dtsize(probe.dtype()));
    if (!probe.read(b, 0, 0, Form::whole, c.rng).ok) c.fail("lock-kept", "after %s the data lock is not free", after);
}

static void range(Ctx& c) {
    hook = &guard;
    int cases = c.thorough ? 800 : 90;
    for (int k = 0; k < cases && c.nfail < 15; k++) {
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), R = c.rng.in(1, 7), C = c.rng.in(1, 7);
        if (c.rng.chance(15)) { R = c.rng.in(1, 200); C = c.rng.in(1, 200); }
        if (c.rng.chance(10)) { R = 64; C = 64; }          // whole pages: no slack, guard page right behind
        bool ssafe = c.rng.chance(70), csafe = c.rng.chance(70);
        c.begin("case %d: %s %s %dx%d safe %d/%d", k, dtname(dt), layname(lay), R, C, ssafe, csafe);
        std::string n = c.name();
        auto s = make_server(dt, lay, R, C, "T", n, false, ssafe), cl = make_client(dt, lay, "T", n, csafe), pr = make_client(dt, lay, "T", n);
        s->start(); cl->start(); pr->start();
        Blk sh(R, C, dtsize(dt)); fill_random(sh, dt, c.rng);
        if (!pr->write(sh, 0, 0, Form::whole, c.rng).ok) c.fail("refused-valid", "the initial write is refused");
        ShmSnap::canary(n);
        ShmSnap snap; snap.take(n);
        auto pos = [&](int N) {
            int v[] = {INT_MIN, INT_MIN + 1, -65536, -N, -2, -1, 0, 0, 1, N / 2, N - 2, N - 1, N - 1, N, N + 1, 2 * N, 65536, INT_MAX - N, INT_MAX - 1, INT_MAX};
            return v[c.rng() % (sizeof v / sizeof *v)];
        };
        int ops = c.thorough ? 120 : 70;
        for (int o = 0; o < ops && c.nfail < 15; o++) {
            bool wr = c.rng.chance(55), srv = c.rng.chance(50);
            Ep& e = srv ? *s : *cl;
            int i = pos(R), j = pos(C);
            bool big = c.rng.chance(25);
            OpRes res;
            long r, q;
            Form f = (Form)c.rng.in(0, (int)Form::N - 1);
            if (big) {        // extreme extents, with views over a single element
                long ext[] = {INT_MAX, INT_MAX - 1L, 1L << 30, 1L << 31, (1L << 32) + 1, (1L << 32), 1L << 40, LONG_MAX / 2, 1, 1, (long)R, (long)C};
                r = ext[c.rng() % 12]; q = ext[c.rng() % 12];
                if (inside(i, j, r, q, R, C)) continue;
                c.tr("%s %s of a view of %ldx%ld at (%d,%d)", srv ? "server" : "client", wr ? "write" : "read", r, q, i, j);
                alignas(16) uint8_t el[32];
                memset(el, 1, sizeof el);
                try { res.ok = wr ? e.write_view(el + 8, r, q, 0, 0, i, j) : e.read_view(el + 8, r, q, 0, 0, i, j); }
                catch (const std::exception& ex) { res.threw = true; }
                for (auto x : el) if (x != 1) { res.damage = "the destination changed"; break; }
            } else {
                r = c.rng.in(1, std::min(R + 2, 12)); q = c.rng.in(1, std::min(C + 2, 12));
                if (c.rng.chance(30)) r = c.rng.chance(50) ? R : R + 1;
                if (c.rng.chance(30)) q = c.rng.chance(50) ? C : C + 1;
                c.tr("%s %s %s %ldx%ld at (%d,%d)", srv ? "server" : "client", wr ? "write" : "read", formname(f), r, q, i, j);
                Blk b((int)r, (int)q, dtsize(dt)); fill_random(b, dt, c.rng);
                res = wr ? e.write(b, i, j, f, c.rng) : e.read(b, i, j, f, c.rng);
                if (inside(i, j, r, q, R, C)) {
                    if (!res.ok) c.fail("refused-valid", "an in-range operation was refused");
                    if (wr) {
                        for (int x = 0; x < r; x++) memcpy(sh.at(i + x, j), b.at(x, 0), (size_t)q * sh.es);
                        Blk g(R, C, sh.es);
                        if (!pr->read(g, 0, 0, Form::whole, c.rng).ok || !(g == sh)) c.fail("wrong-effect", "an in-range write changed something else");
                        snap.take(n);
                    }
                    c.count("in-range operations");
                    if (!res.damage.empty()) c.fail("caller-memory", "%s", res.damage.c_str());
                    continue;
                }
            }
            c.count("out-of-range operations");
            if (res.ok) c.fail("accepted", "an out-of-range %s (%ldx%ld at (%d,%d) of %dx%d) reported success", wr ? "write" : "read", r, q, i, j, R, C);
            if (!res.damage.empty()) c.fail("caller-memory", "%s", res.damage.c_str());
            std::string df = snap.diff(n);
            if (!df.empty()) { c.fail("effect", "a refused %s had an effect: %s", wr ? "write" : "read", df.c_str()); snap.take(n); }
            lock_free(c, *pr, "a refused operation");
            if (o % 10 == 0) {
                Blk g(R, C, sh.es);
                if (!pr->read(g, 0, 0, Form::whole, c.rng).ok || !(g == sh)) c.fail("effect", "the tensor changed");
                if (s->nclients() != 2) c.fail("effect", "the client count is %d", s->nclients());
            }
            c.eval(hcomb(hcomb(hcomb(dt * 2 + lay, R * 300 + C), hcomb((uint64_t)i, (uint64_t)j)), hcomb(hcomb(r, q), (int)f * 8 + wr * 4 + srv * 2 + big)));
        }
        if (k == 0) c.sample(c.cur + ": " + c.trace[c.trace.size() / 2] + "; " + c.trace.back());
        { auto late = make_client(dt, lay, "T", n); late->start(); if (late->rows() != R || late->cols() != C) c.fail("effect", "the dimensions changed"); }
        cl.reset(); pr.reset(); s.reset();
    }
    c.count("library mappings between guard pages", guard.n);
    hook = nullptr;
}

static void notready(Ctx& c) {
    hook = &guard;
    int cases = c.thorough ? 1500 : 160;
    const char* states[] = {"constructed server", "stopped server", "closed server", "closed running server", "fresh client", "detached client", "closed client", "closed detached client", "refused client", "never attached, closed client"};
    for (int k = 0; k < cases && c.nfail < 15; k++) {
        int st = k % 10, dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), R = c.rng.in(1, 6), C = c.rng.in(1, 6);
        c.begin("case %d: %s %s %s %dx%d", k, states[st], dtname(dt), layname(lay), R, C);
        std::string n = c.name();
        EpP s = make_server(dt, lay, R, C, "T", n, false, c.rng.chance(70)), e, pr;
        Ep* x = nullptr;
        Blk sh(R, C, dtsize(dt));
        auto go = [&] { s->start(); pr = make_client(dt, lay, "T", n); pr->start(); fill_random(sh, dt, c.rng); if (!pr->write(sh, 0, 0, Form::whole, c.rng).ok) c.fail("refused-valid", "initial write"); };
        if (st == 0) x = s.get();
        else if (st == 1) { go(); s->stop(); x = s.get(); }
        else if (st == 2) { s->close(); x = s.get(); }
        else if (st == 3) { go(); s->close(); x = s.get(); }
        else {
            go();
            int d2 = st == 8 ? (dt + 1) % 4 : dt;
            e = make_client(d2, lay, "T", n, c.rng.chance(70));
            if (st == 5) { e->start(); e->stop(); }
            if (st == 6) { e->start(); e->close(); }
            if (st == 7) { e->start(); e->stop(); e->close(); }
            if (st == 8) { if (!throws([&] { e->start(); })) { e.reset(); continue; } }
            if (st == 9) e->close();
            x = e.get();
        }
        int dx = x->dtype();
        ShmSnap::canary(n);
        ShmSnap snap; snap.take(n);
        for (int o = 0; o < 12 && c.nfail < 15; o++) {
            bool wr = c.rng.chance(50);
            int r = c.rng.in(1, R + 1), q = c.rng.in(1, C + 1), i = c.rng.in(-1, R), j = c.rng.in(-1, C);
            if (c.rng.chance(60)) { r = std::min(r, R); q = std::min(q, C); i = c.rng.in(0, R - r); j = c.rng.in(0, C - q); }
            Form f = (Form)c.rng.in(0, (int)Form::N - 1);
            c.tr("%s %s %dx%d at (%d,%d)", wr ? "write" : "read", formname(f), r, q, i, j);
            Blk b(r, q, dtsize(dx)); fill_random(b, dx, c.rng);
            OpRes res = wr ? x->write(b, i, j, f, c.rng) : x->read(b, i, j, f, c.rng);
            if (res.ok) c.fail("accepted", "a %s on a %s reported success", wr ? "write" : "read", states[st]);
            if (!res.damage.empty()) c.fail("caller-memory", "%s", res.damage.c_str());
            std::string df = snap.diff(n);
            if (!df.empty()) { c.fail("effect", "a %s on a %s had an effect: %s", wr ? "write" : "read", states[st], df.c_str()); snap.take(n); }
            if (pr && st != 3) lock_free(c, *pr, "a refused operation");
            c.count("not-ready operations");
            c.eval(hcomb(hcomb(st, dt * 2 + lay), hcomb(hcomb(r, q), hcomb(i, j)) + (int)f * 2 + wr));
        }
        if (st == 0) {       // nothing was written, the start works
            s->start();
            Blk g(R, C, sh.es);
            if (!s->read(g, 0, 0, Form::whole, c.rng).ok) c.fail("lock-kept", "after operations before run() the server cannot read");
            else for (auto v : g.d) if (v) { c.fail("effect", "a write before run() took effect"); break; }
        }
        if (st == 1) {
            Blk g(R, C, sh.es);
            if (!pr->read(g, 0, 0, Form::whole, c.rng).ok || !(g == sh)) c.fail("effect", "a write on a stopped server took effect");
            s->start();
            if (!s->read(g, 0, 0, Form::whole, c.rng).ok || !(g == sh)) c.fail("effect", "the tensor changed while stopped");
        }
        if (st >= 4) {
            Blk g(R, C, sh.es);
            if (!pr->read(g, 0, 0, Form::whole, c.rng).ok || !(g == sh)) c.fail("effect", "the tensor changed");
            if (s->nclients() != 1) c.fail("effect", "the client count is %d", s->nclients());
        }
        if (k == 0) c.sample(c.cur + ": " + c.trace.back());
        e.reset(); pr.reset(); s.reset();
    }
    hook = nullptr;
}

template <class S, int L> static void views_t(Ctx& c, const char* name) {
    using namespace EigenIPC;
    int edge[] = {INT_MIN, INT_MIN + 1, -3, -1, 0, 1, 2, 3, 4, 5, INT_MAX - 1, INT_MAX};
    for (int R = 1; R <= 4; R++) for (int C = 1; C <= 4; C++) {
        c.begin("views of %s %dx%d", name, R, C);
        Tensor<S, L> t(R, C);
        for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) t(i, j) = (S)(i * 10 + j);
        Tensor<S, L> t0 = t;
        for (int i : edge) for (int j : edge) for (int r : edge) for (int q : edge) {
            bool in = inside(i, j, r, q, R, C);
            if (!in && !c.thorough && !c.rng.chance(25)) continue;
            c.evals++;
            if ((r == 0 || q == 0) && !in) continue;
            bool thr = false;
            try {
                auto v = helpers::createViewFrom<S, L>(t, i, j, r, q);
                if (in) {
                    if (v.rows() != r || v.cols() != q) c.fail("view", "the view has the wrong shape");
                    for (int a = 0; a < r; a++) for (int b = 0; b < q; b++) if (&v.coeffRef(a, b) != &t.coeffRef(i + a, j + b)) { c.fail("view", "view (%d,%d,%d,%d) of %dx%d: element (%d,%d) is not the source's", i, j, r, q, R, C, a, b); a = r; break; }
                }
            } catch (const std::exception&) { thr = true; }
            if (in && thr) c.fail("refused-valid", "a view inside its source raised (%d,%d,%d,%d of %dx%d)", i, j, r, q, R, C);
            if (!in && !thr) c.fail("accepted", "a view outside its source (%d,%d) %dx%d of %dx%d did not raise", i, j, r, q, R, C);
            if (c.nfail > 15) return;
            c.hashes.insert(hcomb(hcomb(hcomb(i, j), hcomb(r, q)), hcomb(R * 8 + C, hstr(name))));
            c.count(in ? "views inside" : "views refused");
        }
        if (!(t == t0)) c.fail("effect", "creating views changed the tensor");
    }
}
static void views(Ctx& c) {
    using namespace EigenIPC;
    switch (c.shard % 6) {
        case 0: views_t<float, ColMajor>(c, "float col"); break;
        case 1: views_t<float, RowMajor>(c, "float row"); break;
        case 2: views_t<double, ColMajor>(c, "double col"); break;
        case 3: views_t<int, RowMajor>(c, "int row"); break;
        case 4: views_t<bool, RowMajor>(c, "bool row"); break;
        case 5: views_t<bool, ColMajor>(c, "bool col"); break;
    }
    c.sample("combinations of positions and extents from {INT_MIN..INT_MAX edges} on tensors up to 4x4");
}

int main(int argc, char** argv) { return run_main(argc, argv, {{"range", 12, 24, range}, {"notready", 4, 8, notready}, {"views", 6, 6, views}}); }
