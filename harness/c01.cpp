// C01: block reads and writes move exactly the addressed elements.
#include "remote.hpp"
#include <EigenIPC/Server.hpp>
#include <EigenIPC/Helpers.hpp>
using namespace vf;

static void run_op(Ctx& c, Ep& e, bool wr, Blk& shadow, int dt, int row, int col, int r, int cc, Form f, const char* who) {
    Blk b(r, cc, shadow.es);
    std::string d = fmt("%s %s %s %dx%d at (%d,%d)", who, wr ? "write" : "read", formname(f), r, cc, row, col);
    if (c.trace_on) c.tr("%s", d.c_str()); else c.tick();
    if (wr) {
        fill_random(b, dt, c.rng);
        OpRes o = e.write(b, row, col, f, c.rng);
        if (o.threw) c.fail("in-range-raised", "%s raised: %s", d.c_str(), o.what.c_str());
        else if (!o.ok) c.fail("in-range-refused", "%s was refused though the lock was free", d.c_str());
        else for (int i = 0; i < r; i++) memcpy(shadow.at(row + i, col), b.at(i, 0), (size_t)cc * b.es);
        if (!o.damage.empty()) c.fail("caller-memory", "%s: %s", d.c_str(), o.damage.c_str());
    } else {
        OpRes o = e.read(b, row, col, f, c.rng);
        if (o.threw) c.fail("in-range-raised", "%s raised: %s", d.c_str(), o.what.c_str());
        else if (!o.ok) c.fail("in-range-refused", "%s was refused though the lock was free", d.c_str());
        else for (int i = 0; i < r; i++)
            if (memcmp(shadow.at(row + i, col), b.at(i, 0), (size_t)cc * b.es)) {
                int j = 0;
                while (!memcmp(shadow.at(row + i, col + j), b.at(i, j), b.es)) j++;
                uint64_t x = 0, y = 0; memcpy(&x, shadow.at(row + i, col + j), b.es); memcpy(&y, b.at(i, j), b.es);
                c.fail("wrong-element", "%s: element (%d,%d) is %llx, expected %llx", d.c_str(), row + i, col + j, (unsigned long long)y, (unsigned long long)x);
                break;
            }
        if (!o.damage.empty()) c.fail("caller-memory", "%s: %s", d.c_str(), o.damage.c_str());
    }
    c.count(wr ? "writes" : "reads");
}

static void check_whole(Ctx& c, Ep& e, Blk& shadow, const char* who) {
    Blk b(shadow.r, shadow.c, shadow.es);
    OpRes o = e.read(b, 0, 0, Form::whole, c.rng);
    c.count("whole-tensor comparisons");
    if (!o.ok) { c.fail("in-range-refused", "%s whole read was refused %s", who, o.what.c_str()); return; }
    if (!(b == shadow))
        for (int i = 0; i < b.r; i++) for (int j = 0; j < b.c; j++)
            if (memcmp(b.at(i, j), shadow.at(i, j), b.es)) {
                uint64_t x = 0, y = 0; memcpy(&x, shadow.at(i, j), b.es); memcpy(&y, b.at(i, j), b.es);
                c.fail("wrong-element", "after the operation %s sees %llx at (%d,%d), expected %llx", who, (unsigned long long)y, i, j, (unsigned long long)x);
                return;
            }
}

// every position and shape of every small tensor, every type, layout and argument form
static void exhaustive(Ctx& c) {
    c.trace_on = false;
    int id = 0, maxdim = c.thorough ? 5 : 4;
    for (int dt = 0; dt < 4; dt++) for (int lay = 0; lay < 2; lay++) for (int R = 1; R <= maxdim; R++) for (int C = 1; C <= maxdim; C++) {
        if (id++ % c.nshards != c.shard) continue;
        c.begin("exhaustive %s %s %dx%d", dtname(dt), layname(lay), R, C);
        std::string n = c.name();
        auto s = make_server(dt, lay, R, C, "T", n);
        s->start();
        auto k = make_client(dt, lay, "T", n);
        k->start();
        Blk sh(R, C, dtsize(dt));
        fill_random(sh, dt, c.rng);
        if (!write_all(*s, sh, c.rng)) c.fail("in-range-refused", "initial write refused");
        for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int r = 1; i + r <= R; r++) for (int q = 1; j + q <= C; q++)
            for (int f = 0; f < (int)Form::N; f++) {
                Form F = (Form)f;
                bool a = c.rng.chance(50);
                run_op(c, a ? *s : *k, true, sh, dt, i, j, r, q, F, a ? "server" : "client");
                check_whole(c, a ? *k : *s, sh, a ? "client" : "server");
                run_op(c, a ? *s : *k, false, sh, dt, i, j, r, q, F, a ? "server" : "client");
                c.eval(hcomb(hcomb(hcomb(dt * 2 + lay, R * 16 + C), (i * 16 + j) * 256 + r * 16 + q), f));
                if (c.nfail > 20) return;
            }
        c.sample(fmt("%s %s %dx%d, all blocks and forms", dtname(dt), layname(lay), R, C));
        k->close(); s->close();
    }
}

static void history(Ctx& c) {
    auto host = std::make_shared<Host>();
    int cases = c.thorough ? 1500 : 250;
    for (int k = 0; k < cases; k++) {
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1);
        int z = c.rng.in(0, 9), R, C;
        if (z < 5) { R = c.rng.in(1, 9); C = c.rng.in(1, 9); }
        else if (z < 7) { R = c.rng.in(1, 70); C = c.rng.in(1, 70); }
        else if (z == 7) { R = c.rng.in(1, 3); C = c.rng.in(100, 3000); }
        else if (z == 8) { R = c.rng.in(100, 3000); C = c.rng.in(1, 3); }
        else { R = c.rng.in(150, 420); C = c.rng.in(150, 420); }
        c.begin("case %d: %s %s %dx%d", k, dtname(dt), layname(lay), R, C);
        std::string n = c.name();
        std::vector<EpP> eps;
        std::vector<std::string> names;
        bool rsrv = c.rng.chance(30);
        if (rsrv) eps.push_back(remote_server(host, dt, lay, R, C, "T", n)); else eps.push_back(make_server(dt, lay, R, C, "T", n));
        names.push_back(rsrv ? "remote server" : "server");
        eps[0]->start();
        int nc = c.rng.in(1, 3);
        for (int i = 0; i < nc; i++) {
            bool rem = c.rng.chance(40), safe = c.rng.chance(75);
            if (rem) eps.push_back(remote_client(host, dt, lay, "T", n, safe)); else eps.push_back(make_client(dt, lay, "T", n, safe));
            eps.back()->start();
            names.push_back(fmt("%sclient %d", rem ? "remote " : "", i));
        }
        Blk sh(R, C, dtsize(dt));      // a new tensor is zero
        int ops = (size_t)R * C > 20000 ? 12 : c.rng.in(20, 60);
        Blk last; int lr = 0, lc = 0;
        for (int o = 0; o < ops && c.nfail < 20; o++) {
            int w = c.rng.in(0, (int)eps.size() - 1);
            int r, q, i, j, m = c.rng.in(0, 9);
            if (m == 0) { r = R; q = C; }
            else if (m == 1) { r = 1; q = C; }
            else if (m == 2) { r = R; q = 1; }
            else if (m == 3) { r = 1; q = 1; }
            else { r = c.rng.in(1, std::min(R, c.rng.chance(50) ? 6 : R)); q = c.rng.in(1, std::min(C, c.rng.chance(50) ? 6 : C)); }
            i = c.rng.chance(25) ? R - r : c.rng.in(0, R - r);
            j = c.rng.chance(25) ? C - q : c.rng.in(0, C - q);
            Form f = (Form)c.rng.in(0, (int)Form::N - 1);
            bool wr = c.rng.chance(55);
            run_op(c, *eps[w], wr, sh, dt, i, j, r, q, f, names[w].c_str());
            int v = c.rng.in(0, (int)eps.size() - 1);
            if (wr && (c.rng.chance(60) || o == ops - 1)) check_whole(c, *eps[v], sh, names[v].c_str());
            if (wr && c.rng.chance(15) && o + 1 < ops) {       // the same bits up to signs of zero and NaN payloads
                Blk b(r, q, sh.es);
                for (int x = 0; x < r; x++) for (int y = 0; y < q; y++) {
                    memcpy(b.at(x, y), sh.at(i + x, j + y), sh.es);
                    if (dt == DF) { uint32_t u; memcpy(&u, b.at(x, y), 4); if ((u & 0x7fffffff) == 0 || (u & 0x7fffffff) > 0x7f800000) { u ^= 0x80000000u; memcpy(b.at(x, y), &u, 4); } }
                    if (dt == DD) { uint64_t u; memcpy(&u, b.at(x, y), 8); if ((u & ~(1ull << 63)) == 0 || (u & ~(1ull << 63)) > 0x7ff0000000000000ull) { u ^= 1ull << 63; memcpy(b.at(x, y), &u, 8); } }
                }
                c.tr("%s rewrites the block with flipped signs of zeros and NaNs", names[w].c_str());
                OpRes x = eps[w]->write(b, i, j, f, c.rng);
                if (!x.ok) c.fail("in-range-refused", "rewrite refused");
                for (int y = 0; y < r; y++) memcpy(sh.at(i + y, j), b.at(y, 0), (size_t)q * b.es);
                check_whole(c, *eps[v], sh, names[v].c_str());
            }
            c.eval(hcomb(hcomb(hcomb(dt * 2 + lay, (uint64_t)R * 5000 + C), ((uint64_t)i * 5000 + j) * 25000000ull + (uint64_t)r * 5000 + q), (int)f * 4 + wr * 2 + eps[w]->is_server()), r > 0);
            if (c.rng.chance(3)) {      // a client leaves and another one joins; a server pauses
                int x = c.rng.in(0, (int)eps.size() - 1);
                c.tr("%s stops and starts", names[x].c_str());
                eps[x]->stop(); eps[x]->start();
                check_whole(c, *eps[x], sh, names[x].c_str());
            }
            (void)last; (void)lr; (void)lc;
        }
        if (k == 0) c.sample(fmt("%s %s %dx%d, %d endpoints (remote server %d), %d operations, forms whole/block/strided/view/vector/map", dtname(dt), layname(lay), R, C, (int)eps.size(), rsrv, ops));
        while (eps.size() > 1) eps.pop_back();
        eps[0]->close();
    }
}

// a tensor of more than 2^31 elements: sparse shadow, blocks near the far corner
static void huge(Ctx& c) {
    int lay = (c.shard + c.seed) % 2, R = 46500, C = 46600;
    c.begin("huge bool %s %dx%d", layname(lay), R, C);
    std::string n = c.name();
    EpP s, k;
    try {
        s = make_server(DB, lay, R, C, "T", n); s->start();
        c.tick();
        k = make_client(DB, lay, "T", n); k->start();
    } catch (const std::bad_alloc&) { c.count("skipped for memory"); return; }
    std::map<std::pair<int, int>, uint8_t> sh;
    for (int o = 0; o < 60 && c.nfail < 10; o++) {
        int r = c.rng.in(1, 5), q = c.rng.in(1, 5);
        auto where = [&](int N, int len) { int z = c.rng.in(0, 3); return z == 0 ? 0 : z == 1 ? N - len : z == 2 ? N / 2 + c.rng.in(-3, 3) : c.rng.in(0, N - len); };
        int i = where(R, r), j = where(C, q);
        bool a = c.rng.chance(50);
        Ep& w = a ? *s : *k; Ep& v = a ? *k : *s;
        Blk b(r, q, 1); fill_random(b, DB, c.rng);
        Form f = (Form)c.rng.in(0, (int)Form::N - 1);
        c.tr("%s writes %dx%d at (%d,%d) %s", a ? "server" : "client", r, q, i, j, formname(f));
        OpRes x = w.write(b, i, j, f, c.rng);
        if (!x.ok) c.fail("in-range-refused", "write at (%d,%d) refused %s", i, j, x.what.c_str());
        for (int y = 0; y < r; y++) for (int z = 0; z < q; z++) sh[{i + y, j + z}] = *b.at(y, z);
        int li = std::max(0, i - 3), lj = std::max(0, j - 3), hi = std::min(R, i + r + 3), hj = std::min(C, j + q + 3);
        Blk g(hi - li, hj - lj, 1);
        x = v.read(g, li, lj, Form::block, c.rng);
        if (!x.ok) c.fail("in-range-refused", "read at (%d,%d) refused %s", li, lj, x.what.c_str());
        else for (int y = 0; y < g.r; y++) for (int z = 0; z < g.c; z++) {
            auto it = sh.find({li + y, lj + z});
            uint8_t e = it == sh.end() ? 0 : it->second;
            if (*g.at(y, z) != e) { c.fail("wrong-element", "element (%d,%d) of the huge tensor is %d, expected %d", li + y, lj + z, *g.at(y, z), e); y = g.r; break; }
        }
        c.eval(hcomb(hcomb(i, j), hcomb(r * 8 + q, (int)f * 2 + a)));
        c.count("blocks with index beyond 2^31", (lay ? (uint64_t)i * C + j : (uint64_t)j * R + i) > (1ull << 31));
    }
    c.sample(fmt("bool %s %dx%d, blocks at corners and middle", layname(lay), R, C));
    k->close(); s->close();
}

// blocks whose rows or columns lie up to gigabytes apart in memory that is never filled
static void far(Ctx& c) {
    size_t bytes = 14ull << 30;
    char* mem = (char*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (mem == MAP_FAILED) { c.count("skipped for memory"); return; }
    int cases = c.thorough ? 800 : 80;
    for (int k = 0; k < cases && c.nfail < 10; k++) {
        int dt = c.rng.in(0, 3), lay = c.rng.in(0, 1), R = c.rng.in(2, 4), C = c.rng.in(2, 4);
        size_t es = dtsize(dt);
        c.begin("far %s %s %dx%d", dtname(dt), layname(lay), R, C);
        std::string n = c.name();
        auto s = make_server(dt, lay, R, C, "T", n); s->start();
        auto q = make_client(dt, lay, "T", n); q->start();
        Blk sh(R, C, es); fill_random(sh, dt, c.rng);
        if (!s->write(sh, 0, 0, Form::whole, c.rng).ok) c.fail("in-range-refused", "initial write refused");
        for (int o = 0; o < 24 && c.nfail < 10; o++) {
            int r = c.rng.in(1, R), w = c.rng.in(1, C), i = c.rng.in(0, R - r), j = c.rng.in(0, C - w);
            const long top = (3L << 30) / es;
            std::vector<long> in{1, 1, 1, 2, 129, 32767, 32768, 40000, 65536, 65537, (long)(c.rng() % (top / 16)) + 1};
            long inner = c.rng.pick(in);
            std::vector<long> ou{32767, 32768, 65535, 65536, 70001, 1L << 17, (1L << 31) / (long)es, (1L << 31) / (long)es + 3, (1L << 31) - 1, 1L << 31, (1L << 31) + 1, (1L << 32) / (long)es, (long)(c.rng() % top) + 1};
            long outer = c.rng.pick(ou);
            if (outer < 4 * inner) outer += 4 * inner;
            if (outer > top) outer = std::max(4 * inner, outer % top);
            long rs = lay ? outer : inner, cs = lay ? inner : outer, off = c.rng.in(0, 7);
            if ((size_t)(off + rs * (R - 1) + cs * (C - 1) + 1) * es > bytes) continue;
            auto at = [&](int y, int x) { return mem + (off + y * rs + x * cs) * es; };
            Ep& e = c.rng.chance(50) ? *s : *q; Ep& v = c.rng.chance(50) ? *s : *q;
            bool wr = c.rng.chance(50);
            Blk b(r, w, es); fill_random(b, dt, c.rng);
            for (int y = 0; y < r; y++) for (int x = 0; x < w; x++) memcpy(at(y, x), b.at(y, x), es);
            c.tr("%s %dx%d strides (%ld,%ld) at (%d,%d)", wr ? "write" : "read", r, w, outer, inner, i, j);
            bool ok = wr ? e.write_view(at(0, 0), r, w, outer, inner, i, j) : e.read_view(at(0, 0), r, w, outer, inner, i, j);
            if (!ok) { c.fail("in-range-refused", "a %s at (%d,%d) with strides (%ld,%ld) is refused", wr ? "write" : "read", i, j, outer, inner); continue; }
            for (int y = 0; y < r; y++) for (int x = 0; x < w; x++) {
                if (wr) memcpy(sh.at(i + y, j + x), b.at(y, x), es);
                if (memcmp(at(y, x), sh.at(i + y, j + x), es)) { c.fail("wrong-element", "element (%d,%d) of the memory is wrong after a %s with strides (%ld,%ld)", y, x, wr ? "write" : "read", outer, inner); y = r; break; }
            }
            for (int y = 0; y < r; y++) for (int x = 0; x < w; x++) memset(at(y, x), 0, es);
            for (int y = 0; y < r; y++) for (int x = 0; x < w; x++) for (int d = -1; d < 2; d += 2) {
                char* z = at(y, x) + d * (long)es;
                if (z < mem || z + es > mem + bytes) continue;
                for (size_t u = 0; u < es; u++) if (z[u]) { c.fail("outside-touched", "memory outside the block changed"); memset(z, 0, es); }
            }
            Blk g(R, C, es);
            if (!v.read(g, 0, 0, Form::whole, c.rng).ok) c.fail("in-range-refused", "a read is refused");
            else if (g.d != sh.d) { c.fail("wrong-element", "the tensor is not what it should be after a %s with strides (%ld,%ld)", wr ? "write" : "read", outer, inner); sh.d = g.d; }
            c.eval(hcomb(hcomb(outer, inner), hcomb(r * 8 + w, wr * 4 + dt)));
            c.count("far blocks"); c.count("strides beyond 2^31 bytes", outer * (long)es >= 1L << 31);
        }
        q->close(); s->close();
    }
    munmap(mem, bytes);
}

// ---- views of very large tensors -------------------------------------------------------------------
template <class T, int L> static void bigview(Ctx& c, long R, long C) {
    c.begin("a view of %ldx%ld of %zu bytes, %s", R, C, sizeof(T), layname(L == EigenIPC::RowMajor ? 0 : 1));
    std::unique_ptr<EigenIPC::Tensor<T, L>> big;
    try { big.reset(new EigenIPC::Tensor<T, L>(R, C)); } catch (const std::bad_alloc&) { c.count("skipped for memory"); return; }
    std::string n = c.name();
    EigenIPC::Server<T, L> s(3, 4, n, "T", false, EigenIPC::Journal::VLevel::V0, false);
    s.run();
    int cases = c.thorough ? 400 : 60;
    for (int k = 0; k < cases && c.nfail < 5; k++) {
        int r = c.rng.in(1, 3), w = c.rng.in(1, 4), i = c.rng.in(0, 3 - r), j = c.rng.in(0, 4 - w);
        long y0 = c.rng.chance(40) ? R - r : (long)(c.rng() % (R - r + 1)), x0 = c.rng.chance(40) ? C - w : (long)(c.rng() % (C - w + 1));
        auto at = [&](long y, long x) -> T& { return big->data()[L == EigenIPC::RowMajor ? y * C + x : x * R + y]; };
        EigenIPC::Tensor<T, L> back(r, w);
        auto v = EigenIPC::helpers::createViewFrom<T, L>(*big, (int)y0, (int)x0, r, w);
        if (v.rows() != r || v.cols() != w || v.data() != &at(y0, x0)) { c.fail("wrong-element", "the view at (%ld,%ld) is elsewhere: by %ld elements", y0, x0, (long)(v.data() - &at(y0, x0))); continue; }
        for (int y = 0; y < r; y++) for (int x = 0; x < w; x++) at(y0 + y, x0 + x) = (T)(c.rng() & 1);
        if (!s.write(v, i, j)) { c.fail("in-range-refused", "a write from a view at (%ld,%ld) is refused", y0, x0); continue; }
        if (!s.read(EigenIPC::TRef<T, L>(back), i, j)) { c.fail("in-range-refused", "a read is refused"); continue; }
        for (int y = 0; y < r; y++) for (int x = 0; x < w; x++) if (back(y, x) != at(y0 + y, x0 + x)) { c.fail("wrong-element", "(%d,%d) of a view at (%ld,%ld) is not written", y, x, y0, x0); y = r; break; }
        for (int y = 0; y < r; y++) for (int x = 0; x < w; x++) at(y0 + y, x0 + x) = (T)0;
        if (!s.read(v, i, j)) { c.fail("in-range-refused", "a read into a view at (%ld,%ld) is refused", y0, x0); continue; }
        for (int y = 0; y < r; y++) for (int x = 0; x < w; x++) if (back(y, x) != at(y0 + y, x0 + x)) { c.fail("wrong-element", "(%d,%d) of a view at (%ld,%ld) is not read", y, x, y0, x0); y = r; break; }
        c.eval(hcomb(hcomb(y0, x0), hcomb(r * 8 + w, sizeof(T) * 2 + L)));
        c.count("views of very large tensors"); c.count("beyond 2^31 elements", (&at(y0, x0) - big->data()) >> 31 > 0);
        c.tick();
    }
    s.close();
}
static void bigviews(Ctx& c) {
    switch (c.shard % 4) {
        case 0: bigview<bool, EigenIPC::RowMajor>(c, 46400, 46400); break;
        case 1: bigview<bool, EigenIPC::ColMajor>(c, 46400, 46400); break;
        case 2: bigview<float, EigenIPC::ColMajor>(c, 3, 200000000); break;
        default: bigview<int, EigenIPC::RowMajor>(c, 40000, 17000); break;
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, {{"exhaustive", 8, 8, exhaustive}, {"history", 16, 32, history}, {"huge", 1, 2, huge}, {"far", 2, 4, far}, {"bigviews", 4, 4, bigviews}});
}
