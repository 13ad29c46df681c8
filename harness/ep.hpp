// Type-erased endpoints (servers and clients of every element type and layout), with argument
// forms and canaries around the caller's data.
#pragma once
#include "vf.hpp"
#include "wrap.hpp"
#include <memory>

namespace vf {

enum DT { DF = 0, DD = 1, DI = 2, DB = 3 };
inline const char* dtname(int d) { static const char* n[] = {"float", "double", "int", "bool"}; return n[d]; }
inline size_t dtsize(int d) { static size_t n[] = {4, 8, 4, 1}; return n[d]; }
enum Lay { COL = 0, ROW = 1 };
inline const char* layname(int l) { return l ? "row" : "col"; }

struct Blk {                       // dense block, row by row
    int r = 0, c = 0;
    size_t es = 4;
    std::vector<uint8_t> d;
    Blk() {}
    Blk(int r_, int c_, size_t es_) : r(r_), c(c_), es(es_), d((size_t)r_ * c_ * es_) {}
    uint8_t* at(int i, int j) { return &d[((size_t)i * c + j) * es]; }
    const uint8_t* at(int i, int j) const { return &d[((size_t)i * c + j) * es]; }
    bool operator==(const Blk& o) const { return r == o.r && c == o.c && d == o.d; }
    uint64_t h() const { return hbytes(d.data(), d.size()); }
};

// random elements: extremes, NaN payloads, negative zeros, denormals; 0/1 for bool
void fill_random(Blk& b, int dt, Rng& r);
// elements which encode a number (distinct versions differ in every element; bool: parity of v and index)
void fill_version(Blk& b, int dt, uint64_t v);

enum class Form { whole = 0, block, strided, viewfrom, vec, map, N };
const char* formname(Form);

struct OpRes {
    bool ok = false, threw = false;
    std::string what, damage;
};

struct Ep {
    virtual ~Ep() {}
    virtual OpRes write(const Blk&, int row, int col, Form, Rng&) = 0;
    virtual OpRes read(Blk&, int row, int col, Form, Rng&) = 0;   // r, c of the block given
    virtual void start() = 0;      // run / attach
    virtual void stop() = 0;       // stop / detach
    virtual void close() = 0;
    virtual bool started() = 0;
    virtual int nclients() = 0;    // servers
    virtual int rows() = 0;
    virtual int cols() = 0;
    virtual int dtype() = 0;
    virtual int layout() = 0;
    virtual std::string ns() = 0;
    virtual std::string base() = 0;
    virtual void acquire() = 0;
    virtual void release() = 0;
    virtual bool is_server() = 0;
    // raw transfers for stress: column/row-major raw buffers without allocation or checks
    virtual bool write_raw(void* data, int r, int c, int row, int col) = 0;  // dense, in the endpoint's layout
    virtual bool read_raw(void* data, int r, int c, int row, int col) = 0;
    virtual bool write_view(void* data, long r, long c, long outer, long inner, int row, int col) = 0;
    virtual bool read_view(void* data, long r, long c, long outer, long inner, int row, int col) = 0;
};
using EpP = std::unique_ptr<Ep>;

EpP make_server(int dt, int lay, int rows, int cols, const std::string& base, const std::string& ns,
                bool force = false, bool safe = true, bool verbose = false, int vlevel = 0);
EpP make_client(int dt, int lay, const std::string& base, const std::string& ns,
                bool safe = true, bool verbose = false, int vlevel = 0);

// helpers on top
inline bool write_all(Ep& e, const Blk& b, Rng& r) { return e.write(b, 0, 0, Form::whole, r).ok; }
inline bool read_all(Ep& e, Blk& b, Rng& r) { return e.read(b, 0, 0, Form::whole, r).ok; }
template <class F> bool throws(F f, std::string* what = nullptr) {
    try { f(); } catch (const std::exception& e) { if (what) *what = e.what(); return true; }
    return false;
}

}  // namespace vf
