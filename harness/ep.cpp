#include "ep.hpp"
#include <EigenIPC/Client.hpp>
#include <EigenIPC/Helpers.hpp>
#include <EigenIPC/Server.hpp>

namespace vf {
using namespace EigenIPC;
using VL = Journal::VLevel;

const char* formname(Form f) {
    static const char* n[] = {"whole", "block", "strided", "viewfrom", "vec", "map"};
    return n[(int)f];
}

void fill_random(Blk& b, int dt, Rng& r) {
    size_t n = (size_t)b.r * b.c;
    for (size_t i = 0; i < n; i++) {
        uint8_t* p = &b.d[i * b.es];
        if (dt == DB) { *p = r() & 1; continue; }
        uint64_t v = r();
        int k = r.in(0, 19);
        if (dt == DF || dt == DI) {
            uint32_t w = (uint32_t)v;
            if (dt == DF) {
                static const uint32_t sp[] = {0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00001u, 0x7f800001u, 0xffc12345u, 1u, 0x80000001u, 0u};
                if (k < 9) w = sp[k];
            } else {
                static const uint32_t sp[] = {0x80000000u, 0x7fffffffu, 0u, 0xffffffffu, 1u};
                if (k < 5) w = sp[k];
            }
            memcpy(p, &w, 4);
        } else {
            static const uint64_t sp[] = {0x8000000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000001ull,
                                          0x7ff0000000000001ull, 0xfff8123456789abcull, 1ull, 0x8000000000000001ull, 0ull};
            if (k < 9) v = sp[k];
            memcpy(p, &v, 8);
        }
    }
}

void fill_version(Blk& b, int dt, uint64_t v) {
    size_t n = (size_t)b.r * b.c;
    for (size_t i = 0; i < n; i++) {
        uint8_t* p = &b.d[i * b.es];
        if (dt == DB) *p = (v ^ (i & 1)) & 1;
        else if (dt == DI) { int32_t w = (int32_t)(v * 131 + i); memcpy(p, &w, 4); }
        else if (dt == DF) { float w = (float)((v * 131 + i) % 16000000); memcpy(p, &w, 4); }
        else { double w = (double)(v * 131 + i); memcpy(p, &w, 8); }
    }
}

namespace {

template <class S> S get(const uint8_t* p) { S s; memcpy(&s, p, sizeof(S)); return s; }
template <> bool get<bool>(const uint8_t* p) { return *p != 0; }

// the caller's memory: an exactly sized heap block with a known content in the elements the call
// must not touch
template <class S, int L> struct Arena {
    S* mem = nullptr;
    size_t n = 0;
    std::vector<uint8_t> before;
    explicit Arena(size_t n_) : n(n_) { mem = (S*)malloc(n * sizeof(S) ? n * sizeof(S) : 1); }
    ~Arena() { free(mem); }
    Arena(const Arena&) = delete;
    void prefill(Rng& r) {
        Blk b(1, (int)n, sizeof(S));
        fill_random(b, std::is_same<S, bool>::value ? DB : sizeof(S) == 8 ? DD : DI, r);
        memcpy((void*)mem, b.d.data(), n * sizeof(S));
    }
    void snap() { before.assign((uint8_t*)mem, (uint8_t*)mem + n * sizeof(S)); }
};

template <class S, int L, class E> struct Impl : Ep {
    E* e = nullptr;
    bool server;
    using T = Tensor<S, L>;
    using V = TensorView<S, L>;

    ~Impl() override { LibScope l; delete e; }
    static constexpr bool rm = (L == RowMajor);

    // positions of the element (i,j) in an arena with the given strides
    static size_t pos(int i, int j, size_t off, size_t outer, size_t inner) { return off + (rm ? i * outer + j * inner : j * outer + i * inner); }

    struct Plan { size_t n, off, outer, inner; int R, C, oi, oj; };
    Plan plan(Form f, int r, int c, Rng& rng) {
        Plan p{};
        size_t no = rm ? r : c, ni = rm ? c : r;
        p.inner = 1; p.outer = ni; p.off = 0; p.R = r; p.C = c;
        if (f == Form::block || f == Form::viewfrom) {
            p.oi = rng.in(0, 3); p.oj = rng.in(0, 3);
            p.R = r + p.oi + rng.in(0, 3); p.C = c + p.oj + rng.in(0, 3);
            p.outer = rm ? p.C : p.R;
            p.off = rm ? p.oi * p.outer + p.oj : p.oj * p.outer + p.oi;
            p.n = (size_t)p.R * p.C;
        } else if (f == Form::strided) {
            p.inner = rng.in(1, 4);
            p.off = rng.in(0, 3);
            if (rng.chance(20)) {            // inner runs over the outer one (a transposed view)
                p.outer = rng.in(1, 3);
                p.inner = no * p.outer + rng.in(0, 2);
            } else p.outer = ni * p.inner + rng.in(0, 4);
            p.n = p.off + (no ? no - 1 : 0) * p.outer + (ni ? ni - 1 : 0) * p.inner + 1;
        } else {
            p.off = f == Form::map ? (size_t)rng.in(0, 3) : 0;
            p.n = p.off + (size_t)r * c;
        }
        return p;
    }

    template <class F> OpRes guarded(F f) {
        OpRes o;
        LibScope l;
        try { o.ok = f(); }
        catch (const std::exception& ex) { o.threw = true; o.what = ex.what(); }
        catch (...) { o.threw = true; o.what = "?"; }
        return o;
    }

    OpRes op(bool wr, Blk& b, int row, int col, Form f, Rng& rng) {
        int r = b.r, c = b.c;
        if (f == Form::vec && !((rm && r == 1) || (!rm && c == 1))) f = Form::whole;
        Plan p = plan(f, r, c, rng);
        OpRes o;
        if (f == Form::whole || f == Form::block || f == Form::viewfrom || f == Form::vec) {
            // memory owned by Eigen
            int R = f == Form::whole || f == Form::vec ? r : p.R, C = f == Form::whole || f == Form::vec ? c : p.C;
            T t(R, C);
            Arena<S, L> a((size_t)R * C);
            a.prefill(rng);
            if (R * C) memcpy((void*)t.data(), a.mem, sizeof(S) * R * C);
            if (wr) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) t.data()[pos(i, j, p.off, p.outer, 1)] = get<S>(b.at(i, j));
            std::vector<uint8_t> before((uint8_t*)t.data(), (uint8_t*)t.data() + sizeof(S) * R * C);
            if (f == Form::whole) o = guarded([&] { return wr ? e->write(t, row, col) : e->read(t, row, col); });
            else if (f == Form::block) o = guarded([&] { return wr ? e->write(t.block(p.oi, p.oj, r, c), row, col) : e->read(t.block(p.oi, p.oj, r, c), row, col); });
            else if (f == Form::vec) {
                if constexpr (rm) {
                    Eigen::Matrix<S, 1, Eigen::Dynamic, Eigen::RowMajor> v = Eigen::Map<Eigen::Matrix<S, 1, Eigen::Dynamic, Eigen::RowMajor>>(t.data(), C);
                    o = guarded([&] { return wr ? e->write(TRef<S, L>(v), row, col) : e->read(TRef<S, L>(v), row, col); });
                    memcpy((void*)t.data(), v.data(), sizeof(S) * C);
                } else {
                    Eigen::Matrix<S, Eigen::Dynamic, 1> v = Eigen::Map<Eigen::Matrix<S, Eigen::Dynamic, 1>>(t.data(), R);
                    o = guarded([&] { return wr ? e->write(TRef<S, L>(v), row, col) : e->read(TRef<S, L>(v), row, col); });
                    memcpy((void*)t.data(), v.data(), sizeof(S) * R);
                }
            } else {
                V v = helpers::createViewFrom<S, L>(t, p.oi, p.oj, r, c);
                o = guarded([&] { return wr ? e->write(v, row, col) : e->read(v, row, col); });
            }
            finish(wr, o, b, (uint8_t*)t.data(), before, p);
        } else {
            Arena<S, L> a(p.n);
            a.prefill(rng);
            if (wr) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) a.mem[pos(i, j, p.off, p.outer, p.inner)] = get<S>(b.at(i, j));
            a.snap();
            if (f == Form::strided) {
                V v(a.mem + p.off, r, c, DStrides(p.outer, p.inner));
                o = guarded([&] { return wr ? e->write(v, row, col) : e->read(v, row, col); });
            } else {
                Eigen::Map<T> m(a.mem + p.off, r, c);
                o = guarded([&] { return wr ? e->write(TRef<S, L>(m), row, col) : e->read(TRef<S, L>(m), row, col); });
            }
            finish(wr, o, b, (uint8_t*)a.mem, a.before, p);
        }
        return o;
    }

    void finish(bool wr, OpRes& o, Blk& b, const uint8_t* mem, const std::vector<uint8_t>& before, const Plan& p) {
        std::vector<uint8_t> expect = before;
        size_t es = sizeof(S);
        if (!wr && o.ok) {
            for (int i = 0; i < b.r; i++)
                for (int j = 0; j < b.c; j++) {
                    size_t k = pos(i, j, p.off, p.outer, p.inner) * es;
                    memcpy(b.at(i, j), mem + k, es);
                    memcpy(&expect[k], mem + k, es);
                }
        }
        if (memcmp(mem, expect.data(), expect.size()) != 0) {
            size_t k = 0;
            while (mem[k] == expect[k]) k++;
            o.damage = fmt("%s changed the caller's memory outside the addressed elements (element %zu of the buffer)", wr ? "a write" : o.ok ? "a read" : "a failed read", k / es);
        }
    }

    OpRes write(const Blk& b, int row, int col, Form f, Rng& r) override { Blk t = b; return op(true, t, row, col, f, r); }
    OpRes read(Blk& b, int row, int col, Form f, Rng& r) override { return op(false, b, row, col, f, r); }

    bool write_raw(void* d, int r, int c, int row, int col) override { LibScope l; Eigen::Map<T> m((S*)d, r, c); return e->write(TRef<S, L>(m), row, col); }
    bool read_raw(void* d, int r, int c, int row, int col) override { LibScope l; Eigen::Map<T> m((S*)d, r, c); return e->read(TRef<S, L>(m), row, col); }
    bool write_view(void* d, long r, long c, long outer, long inner, int row, int col) override { LibScope l; V v((S*)d, r, c, DStrides(outer, inner)); return e->write(v, row, col); }
    bool read_view(void* d, long r, long c, long outer, long inner, int row, int col) override { LibScope l; V v((S*)d, r, c, DStrides(outer, inner)); return e->read(v, row, col); }

    void start() override { LibScope l; if constexpr (std::is_same<E, Server<S, L>>::value) e->run(); else e->attach(); }
    void stop() override { LibScope l; if constexpr (std::is_same<E, Server<S, L>>::value) e->stop(); else e->detach(); }
    void close() override { LibScope l; e->close(); }
    bool started() override { LibScope l; if constexpr (std::is_same<E, Server<S, L>>::value) return e->isRunning(); else return e->isAttached(); }
    int nclients() override { LibScope l; if constexpr (std::is_same<E, Server<S, L>>::value) return e->getNClients(); else return -1; }
    int rows() override { LibScope l; return e->getNRows(); }
    int cols() override { LibScope l; return e->getNCols(); }
    int dtype() override { LibScope l; return (int)e->getScalarType(); }
    int layout() override { LibScope l; return e->getMemLayout(); }
    std::string ns() override { LibScope l; return e->getNamespace(); }
    std::string base() override { LibScope l; return e->getBasename(); }
    void acquire() override { LibScope l; e->dataSemAcquire(); }
    void release() override { LibScope l; e->dataSemRelease(); }
    bool is_server() override { return std::is_same<E, Server<S, L>>::value; }
};

VL vl(int v) { return v <= 0 ? VL::V0 : v == 1 ? VL::V1 : v == 2 ? VL::V2 : VL::V3; }

template <class S, int L> EpP mk_s(int rows, int cols, const std::string& base, const std::string& ns, bool force, bool safe, bool verbose, int vlevel) {
    auto i = std::make_unique<Impl<S, L, Server<S, L>>>();
    LibScope l;
    i->e = new Server<S, L>(rows, cols, base, ns, verbose, vl(vlevel), force, safe);
    return i;
}
template <class S, int L> EpP mk_c(const std::string& base, const std::string& ns, bool safe, bool verbose, int vlevel) {
    auto i = std::make_unique<Impl<S, L, Client<S, L>>>();
    LibScope l;
    i->e = new Client<S, L>(base, ns, verbose, vl(vlevel), safe);
    return i;
}

}  // namespace

#define DISPATCH(fn, ...)                                                                                       \
    switch (dt * 2 + lay) {                                                                                     \
        case 0: return fn<float, ColMajor>(__VA_ARGS__);                                                        \
        case 1: return fn<float, RowMajor>(__VA_ARGS__);                                                        \
        case 2: return fn<double, ColMajor>(__VA_ARGS__);                                                       \
        case 3: return fn<double, RowMajor>(__VA_ARGS__);                                                       \
        case 4: return fn<int, ColMajor>(__VA_ARGS__);                                                          \
        case 5: return fn<int, RowMajor>(__VA_ARGS__);                                                          \
        case 6: return fn<bool, ColMajor>(__VA_ARGS__);                                                         \
        default: return fn<bool, RowMajor>(__VA_ARGS__);                                                        \
    }

EpP make_server(int dt, int lay, int rows, int cols, const std::string& base, const std::string& ns, bool force, bool safe, bool verbose, int vlevel) {
    DISPATCH(mk_s, rows, cols, base, ns, force, safe, verbose, vlevel)
}
EpP make_client(int dt, int lay, const std::string& base, const std::string& ns, bool safe, bool verbose, int vlevel) {
    DISPATCH(mk_c, base, ns, safe, verbose, vlevel)
}

}  // namespace vf
