"""C19: what the ROS bridge publishes and rebuilds is the source tensor (over a stand-in middleware)."""
import mmap, os, signal, sys, threading, time, warnings
import numpy as np
import vfpy
from vfpy import Peer
warnings.simplefilter("ignore")
sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"))
import rosstub, rclpy
from EigenIPC.PyEigenIPC import (ServerFactory, ClientFactory, StringTensorServer, StringTensorClient, VLevel, RowMajor, ColMajor, dtype)
from EigenIPC.PyEigenIPCExt.extensions.ros_bridge.to_ros import ToRos
from EigenIPC.PyEigenIPCExt.extensions.ros_bridge.from_ros import FromRos
from EigenIPC.PyEigenIPCExt.wrappers.shared_data_view import SharedTWrapper
from c15 import rnd, eq, attempt, NP, PD, NAME, rname

def same(a, b):
    """the same values: NaN for NaN, zeros with their sign"""
    if a is None or a.shape != b.shape or a.dtype != b.dtype: return False
    if a.dtype.kind != "f": return bool((a == b).all())
    n = np.isnan(a)
    return bool((n == np.isnan(b)).all() and (a[~n] == b[~n]).all() and (np.signbit(a[~n]) == np.signbit(b[~n])).all())

def setup(c, be):
    rosstub.reset()
    rosstub.mode = be
    src, dst = c.prefix + "A", c.prefix + "B"
    rosstub.bus.remap = lambda t: dst + t[len(src):] if t.startswith(src + "/") else t
    return src, dst, rclpy.node.Node("n") if be == "ros2" else None

def bring_up(c, r, f, strict=True):
    """metadata trickles in; the receiving side runs once it has it all"""
    for k in range(200):
        ok = f.run()
        if ok: return True
        if rosstub.spin_some(r, 1) == 0: break
    return f.run()

def tensors(c):
    r = c.rng
    for it in range(c.scale(40, 400)):
        be, dt = r.choice(["ros1", "ros2"]), r.randrange(4)
        R, C = r.choice([(1, 1), (1, r.randint(2, 9)), (r.randint(2, 9), 1), (r.randint(2, 9), r.randint(2, 9)), (r.randint(2, 30), r.randint(2, 30))])
        src, dst, node = setup(c, be)
        base, q, safe = c.name(), r.choice([1, 1, 2, 5]), r.random() < 0.7
        c.case(f"{be} {NAME[dt]} {R}x{C} queue {q} safe={safe}")
        srv = ServerFactory(n_rows=R, n_cols=C, basename=base, namespace=src, safe=True, dtype=PD[dt], layout=RowMajor)
        srv.run()
        peer = Peer(False, dt, True, base, src, safe=True)
        peer.start()
        S = rnd(r, dt, R, C)
        peer.write(S)
        k = ClientFactory(basename=base, namespace=src, safe=safe, dtype=PD[dt], layout=RowMajor)
        if r.random() < 0.5: k.attach()
        to = ToRos(client=k, queue_size=q, ros_backend=be, **({"node": node} if node else {}))
        mk = lambda: FromRos(basename=base, namespace=dst, queue_size=q, ros_backend=be, vlevel=VLevel.V0, verbose=False, force_reconnection=False, **({"node": node} if node else {}))
        early = r.random() < 0.5
        fr = mk() if early else None
        if fr and (fr.run() or fr.update() is not False): c.fail("early", "the receiving side runs before anything was published")
        to.run()
        if not early: fr = mk()
        if fr.run(): c.fail("early", "the receiving side runs before any message was delivered")
        if not bring_up(c, r, fr):
            c.fail("start", "all metadata delivered, but the receiving side does not run")
            return
        if fr.run() is not True: c.fail("start", "running again does not report success")
        # what was rebuilt is described like the source
        bad = Peer(False, (dt + 1) % 4, True, base, dst)
        if attempt(bad.start)[1] is None: c.fail("described", "the rebuilt tensor has another element type")
        bad.free()
        if R > 1 and C > 1:
            bad = Peer(False, dt, False, base, dst)
            if attempt(bad.start)[1] is None: c.fail("described", "the rebuilt tensor has another layout")
            bad.free()
        far = ClientFactory(basename=base, namespace=dst, safe=True, dtype=PD[dt], layout=RowMajor)
        c.patience(8)                                          # attaching waits for a tensor of this name
        far.attach()
        c.patience(30)
        got = (far.getNRows(), far.getNCols(), far.getScalarType(), far.getBasename(), far.getNamespace())
        if got != (R, C, PD[dt], base, dst): c.fail("described", f"the rebuilt tensor is {got}, the source {(R, C, PD[dt], base)}")
        look = Peer(False, dt, True, base, dst, safe=False)
        look.start()
        cyc = 0
        lk, lf = Peer(False, dt, True, base, src, safe=True), Peer(False, dt, True, base, dst, safe=True)
        lk.start(); lf.start()
        pub = None                                             # what was last published
        for step in range(c.scale(30, 50)):
            op = r.choice(["change", "change", "cycle", "cycle", "cycle", "pub", "pub", "spin", "recv", "waitsrc", "waitdst", "restart"])
            c.note(op)
            h, w = r.randint(1, R), r.randint(1, C)
            if op == "change":
                y, x = r.randint(0, R - h), r.randint(0, C - w)
                b = rnd(r, dt, h, w)
                if not peer.write(b, y, x): c.fail("harness", "source write refused")
                S[y:y + h, x:x + w] = b
            elif op in ("pub", "cycle", "waitsrc"):
                tm = None
                if op == "waitsrc" and safe:
                    lk.acquire()
                    tm = threading.Timer(0.004, lk.release)
                    tm.start()
                ok, ex = attempt(to.update)
                if tm: tm.join()
                if ok is not True: c.fail("update", f"ToRos.update gave {ok} {ex!r}")
                pub = S.copy()
            if op == "spin": rosstub.spin_some(r, r.randint(1, 3))
            if op == "restart":                               # the publishing side starts anew with the same tensor
                if r.random() < 0.5: to._publisher.close() if hasattr(to, "_publisher") else None
                to = ToRos(client=k, queue_size=q, ros_backend=be, **({"node": node} if node else {}))
                to.run()
                ok, ex = attempt(to.update)
                if ok is not True: c.fail("update", f"after a restart ToRos.update gave {ok} {ex!r}")
                pub = S.copy()
            if op in ("cycle", "waitdst", "recv"):
                if op != "recv": _, ex = attempt(lambda: rosstub.spin_some(r))
                else: ex = None
                if ex is not None: c.fail("callback", f"delivering a message failed: {ex!r}")
                tm = None
                if op == "waitdst":
                    lf.acquire()
                    tm = threading.Timer(0.004, lf.release)
                    tm.start()
                ok, ex = attempt(fr.update)
                if tm: tm.join()
                if ok is not True: c.fail("update", f"FromRos.update gave {ok} {ex!r}")
                if op != "recv" and pub is not None:
                    now = look.read((R, C), NP[dt])
                    if not same(now, pub):
                        c.fail("values", f"after a cycle the rebuilt tensor is\n{now}\nthe source was\n{pub}")
                    a = np.zeros((R, C), NP[dt])
                    if far.read(a, 0, 0) is not True or not same(a, pub): c.fail("values", "a client of the rebuilt tensor sees other values")
                    cyc += 1
            c.eval((be, dt, R, C, q, op, early, safe), True)
            c.count(op)
            if c.nfail > 10: return
        now = peer.read((R, C), NP[dt])
        if now is None or not eq(now, S): c.fail("source", "the source tensor was changed by the bridge")
        c.count("cycles judged", cyc)
        c.count("messages", rosstub.bus.delivered)
        for p in (look, lk, lf, peer): p.stop()
        far.close()
        to.close(); fr.close(); srv.close()
        for p in (look, lk, lf, peer): p.free()
    c.sample("server -> ToRos -> messages -> FromRos -> client, metadata and data in any order, slow receivers, restarts")

def strings(c):
    r = c.rng
    for it in range(c.scale(12, 90)):
        be, n = r.choice(["ros1", "ros2"]), r.choice([1, 2, 3, 6])
        src, dst, node = setup(c, be)
        base = c.name()
        c.case(f"{be} strings {n}")
        s = StringTensorServer(length=n, basename=base, name_space=src)
        s.run()
        used = set()
        M = [rname(r, used) for _ in range(n)]
        s.write_vec(M, 0)
        k = StringTensorClient(basename=base, name_space=src)
        if r.random() < 0.5: k.run()
        to = ToRos(client=k, queue_size=1, ros_backend=be, **({"node": node} if node else {}))
        to.run()
        fr = FromRos(basename=base, namespace=dst, queue_size=1, ros_backend=be, vlevel=VLevel.V0, verbose=False, **({"node": node} if node else {}))
        if not bring_up(c, r, fr): c.fail("start", "the receiving side does not run"); return
        far = StringTensorClient(basename=base, name_space=dst)
        c.patience(8)
        far.run()
        c.patience(30)
        if far.length() != n: c.fail("described", f"rebuilt with {far.length()} entries of {n}")
        for step in range(c.scale(10, 20)):
            j = r.randrange(n)
            M[j] = rname(r, used)
            if not s.write_str(M[j], j): c.fail("harness", "source write refused")
            ok, ex = attempt(to.update)
            if ok is not True: c.fail("update", f"ToRos.update gave {ok} {ex!r}")
            rosstub.spin_some(r)
            ok, ex = attempt(fr.update)
            if ok is not True: c.fail("update", f"FromRos.update gave {ok} {ex!r}")
            l = [""] * n
            if far.read_vec(l, 0) is not True or l != M: c.fail("values", f"rebuilt strings {l!r:.300}, source {M!r:.300}")
            c.eval((be, n, step, j, len(M[j])), True)
            c.count("cycles judged")
            c.tick()
        far.close(); to.close(); fr.close(); s.close()
        if c.nfail > 5: return
    c.sample("string tensors through the bridge, read back as strings")

def threads(c):
    """callbacks in a thread of their own, as ROS 1 makes them"""
    r = c.rng
    for it in range(c.scale(3, 20)):
        big = it % 3 == 2                                          # copies of large arrays let other threads run
        dt, R, C = r.choice([0, 1, 2]), r.randint(5, 60), r.randint(5, 60)
        if big: R, C = r.randint(300, 900), r.randint(300, 900)
        src, dst, node = setup(c, "ros1")
        base, n = c.name(), 60 if big else c.scale(150, 400)
        c.case(f"threads {NAME[dt]} {R}x{C}")
        srv = ServerFactory(n_rows=R, n_cols=C, basename=base, namespace=src, dtype=PD[dt], layout=RowMajor)
        srv.run()
        k = ClientFactory(basename=base, namespace=src, dtype=PD[dt], layout=RowMajor)
        to = ToRos(client=k, queue_size=1, ros_backend="ros1")
        to.run()
        fr = FromRos(basename=base, namespace=dst, queue_size=1, ros_backend="ros1", vlevel=VLevel.V0, verbose=False)
        bring_up(c, r, fr)
        look = Peer(False, dt, True, base, dst, safe=True)
        look.start()
        stop = []
        def pump():
            while not stop:
                for x in rosstub.pending():
                    try: b = x.queue.popleft()
                    except IndexError: continue
                    x.cb(x.cls.deserialize(b))
        th = threading.Thread(target=pump)
        # somebody who keeps taking the lock of the rebuilt tensor
        rival, flag, held = -1, mmap.mmap(-1, 4096), r.random() < 0.6 if not big else it % 2 == 0
        if held:
            rival = os.fork()
            if rival == 0:
                try:
                    vfpy.die_with_parent()
                    q = Peer(False, dt, True, base, dst, safe=True)
                    q.start()
                    while not flag[0]:
                        q.acquire(); time.sleep(0.004 if big else 0.0005); q.release(); time.sleep(0.0005)
                finally: os._exit(0)
            c.count("runs with a rival for the lock")
        th.start()
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        last, seen, t0, v = 0, set(), time.time(), 0
        while (v < n or last < n) and time.time() - t0 < 20:
            if v < n:
                v += 1
                srv.write(np.full((R, C), v, NP[dt]), 0, 0)
            to.update()
            fr.update()
            a = look.read((R, C), NP[dt])
            if a is None: continue
            x = a.flat[0]
            if not same(a, np.full((R, C), x, NP[dt])): c.fail("torn", f"the rebuilt tensor mixes versions {np.unique(a)[:5]}")
            if x == x:
                if x < last: c.fail("stale", f"version {x} after {last}")
                last = int(x)
                if last not in seen:
                    seen.add(last)
                    c.eval((it, R, C, last), True)
            c.tick()
            if c.nfail > 5: break
        stop.append(1)
        th.join()
        sys.setswitchinterval(old)
        if not c.nfail and last != n: c.fail("lost", f"the last version rebuilt is {last} of {n}")
        c.count("versions seen", len(seen))
        if rival > 0: flag[0] = 1; os.waitpid(rival, 0)
        look.stop(); to.close(); fr.close(); srv.close(); look.free()
        if c.nfail: return
    c.sample("versions through the bridge with callbacks on another thread")

class _Late(Exception): pass
def colmajor(c):
    """a column-major source"""
    def late(*a): raise _Late()
    signal.signal(signal.SIGALRM, late)
    r = c.rng
    for be in ("ros1", "ros2"):
        src, dst, node = setup(c, be)
        base = c.name()
        c.case(f"{be} column-major source")
        srv = ServerFactory(n_rows=2, n_cols=3, basename=base, namespace=src, dtype=dtype.Int, layout=ColMajor)
        srv.run()
        S = np.asfortranarray(np.arange(6, dtype=np.int32).reshape(2, 3))
        srv.write(S, 0, 0)
        k = ClientFactory(basename=base, namespace=src, dtype=dtype.Int, layout=ColMajor)
        k.attach()
        to = ToRos(client=k, ros_backend=be, **({"node": node} if node else {}))
        signal.alarm(2)
        try:
            to.run()
            to.update()
            fr = FromRos(basename=base, namespace=dst, ros_backend=be, vlevel=VLevel.V0, verbose=False, **({"node": node} if node else {}))
            bring_up(c, r, fr)
            rosstub.spin_some(r)
            fr.update()
            got = None
            for rm in (False, True):
                p = Peer(False, 2, rm, base, dst, safe=False)
                if attempt(p.start)[1] is None: got = p.read((2, 3), np.int32); p.stop(); break
            if not same(got, S): c.fail("colmajor-values", f"rebuilt {got}, source {S}")
            fr.close()
        except _Late:
            c.fail("colmajor-update", "update() of a column-major tensor does not return: its reads into a row-major array are refused for ever")
        finally:
            signal.alarm(0)
        c.eval(("colmajor", be), True)
        to.close(); srv.close()

def patience(c):
    """an update goes on for as long as the tensors are refused to it"""
    r = c.rng
    for it in range(c.shard, c.scale(8, 32), c.nshards):
        be, kind, n = ["ros1", "ros2"][it % 2], ["tensor source", "tensor destination", "strings source", "strings destination"][it // 2 % 4], r.randint(60000, c.scale(200000, 1500000))
        c.case(f"{be}: {kind} refused {n} times")
        src, dst, node = setup(c, be)
        base, kw = c.name(), ({"node": node} if node else {})
        dt, R, C = r.choice([0, 1, 2]), r.randint(1, 5), r.randint(1, 5)
        if kind.startswith("tensor"):
            srv = ServerFactory(n_rows=R, n_cols=C, basename=base, namespace=src, safe=True, dtype=PD[dt], layout=RowMajor)
            srv.run()
            k = ClientFactory(basename=base, namespace=src, safe=True, dtype=PD[dt], layout=RowMajor)
            S = np.full((R, C), 7, NP[dt])
            put = lambda: srv.write(S, 0, 0)
        else:
            srv = StringTensorServer(length=R, basename=base, name_space=src)
            srv.run()
            k = StringTensorClient(basename=base, name_space=src)
            S = [rname(r, set()) for _ in range(R)]
            put = lambda: srv.write_vec(S, 0)
        to = ToRos(client=k, ros_backend=be, **kw)
        to.run()
        fr = FromRos(basename=base, namespace=dst, ros_backend=be, vlevel=VLevel.V0, verbose=False, **kw)
        if not bring_up(c, r, fr): c.fail("start", "the receiving side does not run"); return
        put()
        if kind == "tensor source": f = vfpy.Refuse(type(k), "read", n, c)
        elif kind == "strings source": f = vfpy.Refuse(type(k), "read_vec", n, c)
        else: f = vfpy.Refuse(type(srv) if kind[0] == "t" else type(ServerFactory(n_rows=1, n_cols=1, basename=c.name(), namespace=src, safe=True, dtype=dtype.Int, layout=RowMajor)), "write", n, c)
        source = kind.endswith("source")
        if source:
            with f: ok, ex = attempt(to.update)
        else:
            to.update()
        rosstub.spin_some(r)
        if source: fr.update()
        else:
            with f: ok, ex = attempt(fr.update)
        if ok is not True or f.calls <= n: c.fail("gave-up", f"an update refused {n} times: {ok} {ex!r} after {f.calls} attempts")
        if kind[0] == "t":
            p = Peer(False, dt, True, base, dst, safe=False)
            p.start()
            now = p.read((R, C), NP[dt])
            if not same(now, S): c.fail("values", f"after refusals the rebuilt tensor is\n{now}\nthe source\n{S}")
            p.stop(); p.free()
        else:
            far = StringTensorClient(basename=base, name_space=dst)
            far.run()
            l = [""] * R
            if far.read_vec(l, 0) is not True or l != S: c.fail("values", f"after refusals the rebuilt strings are {l!r:.300}, the source {S!r:.300}")
            far.close()
        c.count("refusals survived", n)
        c.eval((be, kind, dt, R, C), True)
        to.close(); fr.close(); srv.close()
        if c.nfail > 3: return
    c.sample("updates refused tens of thousands of times, over hours of the clock")

if __name__ == "__main__":
    vfpy.run_main([("tensors", 8, 16, tensors, 30), ("strings", 4, 8, strings, 30), ("threads", 2, 6, threads, 40), ("colmajor", 1, 1, colmajor, 30), ("patience", 2, 8, patience, 60)])
