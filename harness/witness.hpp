#pragma once
#include "ep.hpp"
namespace vf {
// everything the incumbent offers, checked through it, its client and a client that comes new
struct Witness {
    Ctx& c; Ep& srv; Ep* cl; Blk sh; int nclients; int dt, lay; std::string n;
    void check(const char* after, Rng& r, bool fresh = true) {
        Blk g(sh.r, sh.c, sh.es);
        if (!srv.started()) { c.fail("incumbent", "the incumbent is not running any more after %s", after); return; }
        if (!srv.read(g, 0, 0, Form::whole, r).ok) { c.fail("incumbent-lock", "the incumbent cannot read after %s", after); return; }
        if (!(g == sh)) { c.fail("incumbent-data", "the incumbent's data changed after %s", after); return; }
        if (cl) {
            Blk h(sh.r, sh.c, sh.es);
            if (!cl->read(h, 0, 0, Form::whole, r).ok) { c.fail("incumbent-client", "an attached client cannot read after %s", after); return; }
            if (!(h == sh)) { c.fail("incumbent-data", "an attached client reads something else after %s", after); return; }
            Blk w(sh.r, sh.c, sh.es); fill_random(w, dt, r);
            Ep& wr = r.chance(50) ? *cl : srv;
            if (!wr.write(w, 0, 0, Form::whole, r).ok) { c.fail("incumbent-lock", "a write fails after %s", after); return; }
            sh = w;
            if (!srv.read(g, 0, 0, Form::whole, r).ok || !(g == sh) || !cl->read(h, 0, 0, Form::whole, r).ok || !(h == sh)) { c.fail("incumbent-client", "server and client are not connected any more after %s", after); return; }
        }
        int nc = srv.nclients();
        if (nc != nclients) { c.fail("incumbent-count", "the client count is %d instead of %d after %s", nc, nclients, after); return; }
        if (fresh) {
            auto e = make_client(dt, lay, "T", n);
            std::string w;
            if (throws([&] { e->start(); }, &w)) { c.fail("incumbent-attach", "a new client is refused after %s: %s", after, w.c_str()); return; }
            if (e->rows() != sh.r || e->cols() != sh.c) { c.fail("incumbent-attach", "a new client sees %dx%d instead of %dx%d after %s", e->rows(), e->cols(), sh.r, sh.c, after); return; }
            if (!e->read(g, 0, 0, Form::whole, r).ok || !(g == sh)) { c.fail("incumbent-attach", "a new client reads something else after %s", after); return; }
            if ((nc = srv.nclients()) != nclients + 1) c.fail("incumbent-count", "the client count is %d instead of %d after a new client", nc, nclients + 1);
        }
        c.count("incumbent checks");
    }
};

}  // namespace vf
