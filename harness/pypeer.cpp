// C++ endpoints for the Python harnesses (loaded with ctypes).
#include "ep.hpp"
namespace vf { thread_local int in_lib = 0, in_hook = 0; }
using namespace vf;
static thread_local std::string g_err;
static Rng g_rng(7);
struct P { EpP e; size_t es; };
extern "C" {
const char* vp_err() { return g_err.c_str(); }
void* vp_new(int server, int dt, int row, int rows, int cols, const char* base, const char* ns, int force, int safe) {
    try {
        EpP e = server ? make_server(dt, row ? ROW : COL, rows, cols, base, ns, force, safe) : make_client(dt, row ? ROW : COL, base, ns, safe);
        return new P{std::move(e), dtsize(dt)};
    } catch (const std::exception& x) { g_err = x.what(); return nullptr; }
}
void vp_free(void* p) { delete (P*)p; }
int vp_call(void* v, int op) {
    Ep& e = *((P*)v)->e;
    try {
        switch (op) {
            case 0: e.start(); return 0;
            case 1: e.stop(); return 0;
            case 2: e.close(); return 0;
            case 3: return e.started();
            case 4: return e.nclients();
            case 5: return e.rows();
            case 6: return e.cols();
            case 7: e.acquire(); return 0;
            case 8: e.release(); return 0;
        }
    } catch (const std::exception& x) { g_err = x.what(); }
    return -12345;
}
int vp_xfer(void* v, int write, void* data, int r, int c, int row, int col) {
    P* p = (P*)v;
    Blk b(r, c, p->es);
    if (write) memcpy(b.d.data(), data, b.d.size());
    try {
        OpRes o = write ? p->e->write(b, row, col, Form::whole, g_rng) : p->e->read(b, row, col, Form::whole, g_rng);
        if (!o.ok || o.threw) return 0;
    } catch (const std::exception& x) { g_err = x.what(); return 0; }
    if (!write) memcpy(data, b.d.data(), b.d.size());
    return 1;
}
}
