// Endpoints hosted in another process, driven over a socket: the same Ep interface.
#pragma once
#include "ep.hpp"
#include <memory>
#include <poll.h>
#include <sys/socket.h>

namespace vf {

struct HostDied : std::runtime_error { using runtime_error::runtime_error; };

struct Buf {
    std::vector<uint8_t> d; size_t k = 0;
    template <class T> void put(const T& t) { d.insert(d.end(), (uint8_t*)&t, (uint8_t*)&t + sizeof(T)); }
    void puts(const std::string& s) { put((uint32_t)s.size()); d.insert(d.end(), s.begin(), s.end()); }
    template <class T> T get() { if (k + sizeof(T) > d.size()) throw HostDied("short message"); T t; memcpy(&t, &d[k], sizeof(T)); k += sizeof(T); return t; }
    std::string gets() { auto n = get<uint32_t>(); if (k + n > d.size()) throw HostDied("short message"); std::string s((char*)d.data() + k, n); k += n; return s; }
    void putb(const Blk& b) { put(b.r); put(b.c); put((uint32_t)b.es); d.insert(d.end(), b.d.begin(), b.d.end()); }
    Blk getb() { int r = get<int>(), c = get<int>(); auto es = get<uint32_t>(); Blk b(r, c, es); if (k + b.d.size() > d.size()) throw HostDied("short"); memcpy(b.d.data(), d.data() + k, b.d.size()); k += b.d.size(); return b; }
};

inline void send_all(int fd, const Buf& b) {
    uint32_t n = b.d.size();
    if (::send(fd, &n, 4, MSG_NOSIGNAL) != 4) throw HostDied("host process died");
    size_t o = 0;
    while (o < n) { ssize_t w = ::send(fd, b.d.data() + o, n - o, MSG_NOSIGNAL); if (w <= 0) throw HostDied("host process died"); o += w; }
}
inline bool recv_all(int fd, Buf& b) {
    uint32_t n; size_t o = 0;
    while (o < 4) { ssize_t r = ::recv(fd, (char*)&n + o, 4 - o, 0); if (r <= 0) return false; o += r; }
    b.d.resize(n); b.k = 0; o = 0;
    while (o < n) { ssize_t r = ::recv(fd, b.d.data() + o, n - o, 0); if (r <= 0) return false; o += r; }
    return true;
}

enum Rpc : int { R_SERVER = 1, R_CLIENT, R_START, R_STOP, R_CLOSE, R_STARTED, R_NCLI, R_ROWS, R_COLS, R_ACQ, R_REL, R_WRITE, R_READ, R_DESTROY, R_DTYPE, R_LAYOUT, R_CUSTOM };

struct Host : std::enable_shared_from_this<Host> {
    pid_t pid = -1;
    int fd = -1;
    bool dead = false, busy = false;
    double limit = 0;              // seconds a call may take (0: any)
    std::function<void(Buf&, Buf&)> custom;
    explicit Host(std::function<void(Buf&, Buf&)> custom_ = nullptr, std::function<void()> init = nullptr) : custom(custom_) {
        int sp[2];
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sp)) throw std::runtime_error("socketpair");
        fflush(nullptr);
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            ::close(sp[0]);
            hook = nullptr; in_lib = 0; in_hook = 0;
            if (init) init();
            serve(sp[1]);
            _exit(0);
        }
        ::close(sp[1]);
        fd = fcntl(sp[0], F_DUPFD_CLOEXEC, 500);
        ::close(sp[0]);
    }
    ~Host() { kill_now(); if (fd >= 0) ::close(fd); }
    void kill_now() { if (!dead && pid > 0) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); dead = true; } }
    void begin(Buf& q) { if (dead) throw HostDied("host is dead"); send_all(fd, q); busy = true; }
    bool ready(double timeout_s) {
        double t0 = now();
        for (;;) {
            pollfd p{fd, POLLIN, 0};
            int ms = (int)((timeout_s - (now() - t0)) * 1000);
            if (poll(&p, 1, std::max(0, std::min(ms, 1000))) > 0) return true;
            if (now() - t0 >= timeout_s) return false;
        }
    }
    Buf end() { Buf r; if (!recv_all(fd, r)) { busy = false; throw HostDied("host process died"); } busy = false; return r; }
    Buf call(Buf& q) { begin(q); if (limit > 0 && !ready(limit)) { kill_now(); throw HostDied("the call hangs"); } return end(); }

    void serve(int s) {
        std::map<int, EpP> eps;
        int next = 1;
        Buf q;
        while (recv_all(s, q)) {
            Buf a;
            int op = q.get<int>(), id = q.get<int>();
            a.put((char)0);
            try {
                if (op == R_SERVER) {
                    int dt = q.get<int>(), lay = q.get<int>(), r = q.get<int>(), c = q.get<int>(); auto b = q.gets(), n = q.gets(); bool force = q.get<bool>(), safe = q.get<bool>();
                    auto e = make_server(dt, lay, r, c, b, n, force, safe);
                    eps[next] = std::move(e); a.put(next++);
                } else if (op == R_CLIENT) {
                    int dt = q.get<int>(), lay = q.get<int>(); auto b = q.gets(), n = q.gets(); bool safe = q.get<bool>();
                    auto e = make_client(dt, lay, b, n, safe);
                    eps[next] = std::move(e); a.put(next++);
                } else if (op == R_CUSTOM) {
                    custom(q, a);
                } else {
                    Ep& e = *eps.at(id);
                    switch (op) {
                        case R_START: e.start(); break;
                        case R_STOP: e.stop(); break;
                        case R_CLOSE: e.close(); break;
                        case R_STARTED: a.put(e.started()); break;
                        case R_NCLI: a.put(e.nclients()); break;
                        case R_ROWS: a.put(e.rows()); break;
                        case R_COLS: a.put(e.cols()); break;
                        case R_DTYPE: a.put(e.dtype()); break;
                        case R_LAYOUT: a.put(e.layout()); break;
                        case R_ACQ: e.acquire(); break;
                        case R_REL: e.release(); break;
                        case R_DESTROY: eps.erase(id); break;
                        case R_WRITE: case R_READ: {
                            int row = q.get<int>(), col = q.get<int>(); Form f = (Form)q.get<int>(); Rng r(q.get<uint64_t>()); Blk b = q.getb();
                            OpRes o = op == R_WRITE ? e.write(b, row, col, f, r) : e.read(b, row, col, f, r);
                            a.put(o.ok); a.put(o.threw); a.puts(o.what); a.puts(o.damage);
                            if (op == R_READ) a.putb(b);
                        }
                    }
                }
            } catch (const std::exception& ex) {
                a.d.assign(1, (uint8_t)1);
                a.puts(ex.what());
            }
            try { send_all(s, a); } catch (...) { break; }
        }
        _exit(0);
    }
};
using HostP = std::shared_ptr<Host>;

struct RemoteEp : Ep {
    HostP h; int id = 0; bool srv; std::string ns_, base_;
    Buf req(int op) { Buf q; q.put(op); q.put(id); return q; }
    Buf done(Buf a) { if (a.get<char>()) throw std::runtime_error(a.gets()); return a; }
    Buf rpc(Buf q) { return done(h->call(q)); }
    ~RemoteEp() override { try { if (!h->dead && !h->busy) rpc(req(R_DESTROY)); } catch (...) {} }
    OpRes rw(int op, Blk& b, int row, int col, Form f, Rng& r) {
        Buf q = req(op); q.put(row); q.put(col); q.put((int)f); q.put(r.next()); q.putb(b);
        Buf a = rpc(q);
        OpRes o; o.ok = a.get<bool>(); o.threw = a.get<bool>(); o.what = a.gets(); o.damage = a.gets();
        if (op == R_READ) b = a.getb();
        return o;
    }
    OpRes write(const Blk& b, int row, int col, Form f, Rng& r) override { Blk t = b; return rw(R_WRITE, t, row, col, f, r); }
    OpRes read(Blk& b, int row, int col, Form f, Rng& r) override { return rw(R_READ, b, row, col, f, r); }
    void start() override { rpc(req(R_START)); }
    void stop() override { rpc(req(R_STOP)); }
    void close() override { rpc(req(R_CLOSE)); }
    bool started() override { return rpc(req(R_STARTED)).get<bool>(); }
    int nclients() override { return rpc(req(R_NCLI)).get<int>(); }
    int rows() override { return rpc(req(R_ROWS)).get<int>(); }
    int cols() override { return rpc(req(R_COLS)).get<int>(); }
    int dtype() override { return rpc(req(R_DTYPE)).get<int>(); }
    int layout() override { return rpc(req(R_LAYOUT)).get<int>(); }
    std::string ns() override { return ns_; }
    std::string base() override { return base_; }
    void acquire() override { rpc(req(R_ACQ)); }
    void release() override { rpc(req(R_REL)); }
    bool is_server() override { return srv; }
    bool write_raw(void*, int, int, int, int) override { return false; }
    bool read_raw(void*, int, int, int, int) override { return false; }
    bool write_view(void*, long, long, long, long, int, int) override { return false; }
    bool read_view(void*, long, long, long, long, int, int) override { return false; }
    // asynchronous form of the blocking calls
    void begin(int op) { Buf q = req(op); h->begin(q); }
    bool ready(double t) { return h->ready(t); }
    Buf end() { return done(h->end()); }
};

inline std::unique_ptr<RemoteEp> remote_server(HostP h, int dt, int lay, int r, int c, const std::string& b, const std::string& n, bool force = false, bool safe = true) {
    auto e = std::make_unique<RemoteEp>();
    e->h = h; e->srv = true; e->ns_ = n; e->base_ = b;
    Buf q = e->req(R_SERVER); q.put(dt); q.put(lay); q.put(r); q.put(c); q.puts(b); q.puts(n); q.put(force); q.put(safe);
    e->id = -1;
    try { e->id = e->rpc(q).get<int>(); } catch (...) { h->busy = true; e.reset(); h->busy = false; throw; }
    return e;
}
inline std::unique_ptr<RemoteEp> remote_client(HostP h, int dt, int lay, const std::string& b, const std::string& n, bool safe = true) {
    auto e = std::make_unique<RemoteEp>();
    e->h = h; e->srv = false; e->ns_ = n; e->base_ = b;
    Buf q = e->req(R_CLIENT); q.put(dt); q.put(lay); q.puts(b); q.puts(n); q.put(safe);
    try { e->id = e->rpc(q).get<int>(); } catch (...) { h->busy = true; e.reset(); h->busy = false; throw; }
    return e;
}

}  // namespace vf
