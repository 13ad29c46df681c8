"""C15: mirrored tensors and shared dictionaries of the Python package."""
import mmap, os, pickle, random, sys, threading, time
import numpy as np
import vfpy
from vfpy import Peer
sys.path.append(os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"))
import torch
from EigenIPC.PyEigenIPC import VLevel, dtype
from EigenIPC.PyEigenIPCExt.wrappers.shared_data_view import SharedTWrapper
from EigenIPC.PyEigenIPCExt.wrappers.shared_tensor_dict import SharedTensorDict

NP = {0: np.dtype(np.float32), 1: np.dtype(np.float64), 2: np.dtype(np.int32), 3: np.dtype(np.bool_)}
PD = {0: dtype.Float, 1: dtype.Double, 2: dtype.Int, 3: dtype.Bool}
NAME = {0: "float", 1: "double", 2: "int", 3: "bool"}

def rnd(r, dt, h, w):
    if dt == 3:
        return np.frombuffer(bytes(r.randrange(2) for _ in range(h * w)), np.bool_).reshape(h, w).copy()
    a = np.frombuffer(r.randbytes(h * w * NP[dt].itemsize), NP[dt]).reshape(h, w).copy()
    for _ in range(h * w // 4):
        a[r.randrange(h), r.randrange(w)] = r.choice([0, 1, -1] if dt == 2 else [0.0, -0.0, np.nan, np.inf, -np.inf, 1e-42])
    return a

def eq(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()

def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e

def veq(a, b):
    return a == b or (a != a and b != b)

def mirror(c, gpu=False):
    r = c.rng
    for it in range(c.scale(120, 900)):
        dt = r.randrange(4)
        R, C = r.choice([(1, 1), (1, r.randint(2, 8)), (r.randint(2, 8), 1), (r.randint(2, 8), r.randint(2, 8)), (r.randint(2, 8), r.randint(2, 8))])
        large = it % 12 == 5
        if large: R, C = r.choice([(r.randint(40, 160), r.randint(40, 160)), (1, r.randint(200, 70000)), (r.randint(200, 70000), 1)])
        base, ns, safe = c.name(), c.prefix + "m", r.random() < 0.8
        fill = r.choice([None, None, 0, 1, r.choice([-3, 7, 2**31 - 1])] + ([np.nan, 0.25] if dt < 2 else []))
        c.case(f"{NAME[dt]} {R}x{C} safe={safe} fill={fill} torch={gpu}")
        torch.cuda.available = True
        kw = dict(namespace=ns, basename=base, verbose=False, vlevel=VLevel.V0, dtype=PD[dt], safe=safe, with_torch_view=gpu, with_gpu_mirror=gpu)
        E = [SharedTWrapper(is_server=True, n_rows=R, n_cols=C, fill_value=fill, **kw)]
        E[0].run()
        L = [np.full((R, C), fill, NP[dt]) if fill is not None else np.zeros((R, C), NP[dt])]
        S = L[0].copy()
        peer = Peer(False, dt, True, base, ns, safe=False)
        peer.start()
        locker = Peer(False, dt, True, base, ns, safe=True)
        locker.start()
        for _ in range(r.randint(1, 2)):
            f2 = r.choice([None, None, 1, fill])
            E.append(SharedTWrapper(is_server=False, fill_value=f2, **kw))
            E[-1].run()
            L.append(np.full((R, C), f2, NP[dt]) if f2 is not None else np.zeros((R, C), NP[dt]))
        G = [l.copy() for l in L]
        held = False
        def verify(i, desc):
            nonlocal S
            now = peer.read((R, C), NP[dt])
            if now is None or not eq(now, S):
                c.fail("shared", f"{desc}: the shared tensor is\n{now}\nand should be\n{S}")
                S = now
            for k, e in enumerate(E):
                m = e.get_numpy_mirror()
                if not eq(m, L[k]):
                    c.fail("local", f"{desc}: the local copy of endpoint {k} is\n{m}\nand should be\n{L[k]}")
                    L[k] = m.copy()
                if gpu:
                    t, g = e.get_torch_mirror(), e.get_torch_mirror(gpu=True)
                    if not eq(t.numpy(), L[k]):
                        c.fail("torch", f"{desc}: the torch view of endpoint {k} is not the local copy")
                    if not eq(g.numpy(), G[k]):
                        c.fail("gpu", f"{desc}: the GPU copy of endpoint {k} changed or was not updated:\n{g.numpy()}\nshould be\n{G[k]}")
                        G[k] = g.numpy().copy()
        verify(0, "after start")
        for k, e in enumerate(E):
            if not e.is_running() or (e.n_rows, e.n_cols) != (R, C):
                c.fail("state", f"endpoint {k}: running={e.is_running()} {e.n_rows}x{e.n_cols}")
        n = E[0].get_n_clients()
        if n != len(E) - 1 + 2:
            c.fail("clients", f"{n} clients counted, {len(E) + 1} attached")
        if attempt(lambda: E[1].get_n_clients())[1] is None:
            c.fail("clients", "a client's get_n_clients raised no error")
        for step in range(20 if large else c.scale(40, 60)):
            i = r.randrange(len(E))
            e, l = E[i], L[i]
            free = not held or not safe
            h, w = r.randint(1, R), r.randint(1, C)
            y, x = r.randint(0, R - h), r.randint(0, C - w)
            op = r.choice(["lock", "wscalar", "wblock", "wblock", "wcast", "walias", "rscalar", "rblock", "rblock", "rcast", "synch", "synch", "synchall", "touch", "touch",
                           "zero", "peer", "peer", "sem", "badwrite", "badread", "badsynch"] + (["togpu", "fromgpu", "tgpu"] if gpu else []))
            desc = f"endpoint {i} {op} {h}x{w} at ({y},{x}) held={held}"
            c.note(desc)
            blk = (slice(y, y + h), slice(x, x + w))
            res = None
            if op == "lock":
                (locker.release if held else locker.acquire)()
                held = not held
            elif op == "touch":                                # the user works on the local copy
                b = rnd(r, dt, h, w)
                e.get_numpy_mirror()[blk] = b
                l[blk] = b
            elif op == "peer":
                b = rnd(r, dt, h, w)
                if peer.write(b, y, x): S[blk] = b
            elif op == "wscalar":
                v = r.choice([0, 1, -1, True, False, 3.75, np.float32(1.5), np.float64(-2.25), float("nan"), 2**31 - 1, 2**40, float("inf")])
                t = l.copy()
                _, mex = attempt(lambda: t.__setitem__((y, x), v))
                ok, ex = attempt(lambda: e.write(v, y, x))
                if mex is None:
                    L[i] = l = t
                    if ok is True: S[y, x] = t[y, x]
                    if ok is not free: c.fail("report", f"{desc} of {v!r}: {ok} {ex!r}")
                elif ex is None: c.fail("report", f"{desc} of {v!r}: no error")
                res = ok
            elif op in ("wblock", "wcast", "walias"):
                if op == "wblock": d = rnd(r, dt, h, w)
                elif op == "wcast": d = rnd(r, r.choice([k for k in range(4) if k != dt]), h, w)
                else:
                    p, q = r.randint(0, R - h), r.randint(0, C - w)
                    d = e.get_numpy_mirror()[p:p + h, q:q + w]
                if r.random() < 0.3 and op == "wblock": d = np.asfortranarray(d)
                if r.random() < 0.2 and op == "wblock": d = np.ascontiguousarray(d.T).T
                t = l.copy()
                with np.errstate(all="ignore"):
                    t[blk] = np.array(d)
                    ok, ex = attempt(lambda: e.write(d, y, x))
                L[i] = l = t
                if ok is True: S[blk] = t[blk]
                if ok is not free: c.fail("report", f"{desc}: {ok} {ex!r}")
                res = ok
            elif op == "rscalar":
                out, ex = attempt(lambda: e.read(y, x))
                if ex is not None or out[1] is not free: c.fail("report", f"{desc}: {out} {ex!r}")
                if free: l[y, x] = S[y, x]
                if ex is None and not veq(out[0], l[y, x].item()):
                    c.fail("value", f"{desc}: returned {out[0]!r}, the element is {l[y, x].item()!r}")
                res = free
            elif op in ("rblock", "rcast"):
                d = rnd(r, dt if op == "rblock" else r.choice([0, 1, 2, 3]), h, w)
                if r.random() < 0.3: d = np.asfortranarray(d)
                t = d.copy()
                with np.errstate(all="ignore"):
                    out, ex = attempt(lambda: e.read(y, x, d))
                    if free:
                        l[blk] = S[blk]
                        t[:, :] = S[blk]
                if ex is not None or out[1] is not free: c.fail("report", f"{desc}: {out} {ex!r}")
                if not eq(d, t): c.fail("value", f"{desc}: the array read into is\n{d}\nand should be\n{t}")
                res = free
            elif op in ("synch", "synchall"):
                rd = r.random() < 0.5
                if op == "synchall": blk = (slice(0, R), slice(0, C))
                ok, ex = attempt(lambda: e.synch(y, x, h, w, rd) if op == "synch" else e.synch_all(read=rd, retry=free and r.random() < 0.5))
                if ok is not free: c.fail("report", f"{desc} read={rd}: {ok} {ex!r}")
                if ok is True:
                    if rd: l[blk] = S[blk]
                    else: S[blk] = l[blk]
                res = ok
            elif op == "zero" and free:
                e.to_zero()
                l[:, :] = 0
                S[:, :] = 0
                G[i][:, :] = 0
            elif op == "sem" and not held:
                e.data_sem_acquire()
                if locker.write(S, 0, 0): c.fail("sem", f"{desc}: another endpoint writes while the lock is held")
                e.data_sem_release()
                if not locker.write(S, 0, 0): c.fail("sem", f"{desc}: the lock was not given back")
            elif op == "badwrite":
                k = r.choice(["1d", "3d", "list", "none", "str", "big", "off", "neg", "scalaroff", "scalarneg", "int64"])
                d = {"1d": np.zeros(1, NP[dt]), "3d": np.zeros((1, 1, 1), NP[dt]), "list": [[0]], "none": None, "str": "a", "big": rnd(r, dt, R + 1, 1),
                     "off": rnd(r, dt, h, w), "neg": rnd(r, dt, h, w), "scalaroff": 1, "scalarneg": 1, "int64": np.zeros(2)[0:0]}[k]
                py, px = {"off": r.choice([(R - h + 1, 0), (0, C - w + 1), (R + 5, C + 5)]), "neg": r.choice([(-1, 0), (0, -1), (-h, 0), (0, -w), (-R, -C)]),
                          "scalaroff": r.choice([(R, 0), (0, C)]), "scalarneg": r.choice([(-1, 0), (0, -1)])}.get(k, (0, 0))
                ok, ex = attempt(lambda: e.write(d, py, px))
                if ok is True: c.fail("bad", f"{desc} {k} at ({py},{px}): reported success")
                if k in ("neg", "scalarneg"): L[i] = l = e.get_numpy_mirror().copy()     # (where a negative index lands in the local copy is not specified)
                desc += " " + k
            elif op == "badread":
                k = r.choice(["1d", "list", "big", "off", "neg", "scalaroff", "scalarneg"])
                d = {"1d": np.zeros(1, NP[dt]), "list": [[0]], "big": rnd(r, dt, R + 1, 1), "off": rnd(r, dt, h, w), "neg": rnd(r, dt, h, w)}.get(k)
                py, px = {"off": r.choice([(R - h + 1, 0), (0, C - w + 1)]), "neg": r.choice([(-1, 0), (0, -1), (-h, 0), (0, -w), (-R, -C)]),
                          "scalaroff": r.choice([(R, 0), (0, C)]), "scalarneg": r.choice([(-1, 0), (0, -1)])}.get(k, (0, 0))
                snap = d.tobytes() if isinstance(d, np.ndarray) else None
                out, ex = attempt(lambda: e.read(py, px, d))
                if ex is None and out[1]: c.fail("bad", f"{desc} {k} at ({py},{px}): reported success")
                if snap is not None and d.tobytes() != snap: c.fail("bad", f"{desc} {k}: the array changed")
                desc += " " + k
            elif op == "badsynch":
                py, px = r.choice([(-1, 0), (0, -1), (-h, 0), (0, -w), (R - h + 1, 0), (0, C - w + 1), (R, C)])
                ok, ex = attempt(lambda: e.synch(py, px, h, w, r.random() < 0.5))
                if ok is True: c.fail("bad", f"{desc} at ({py},{px}): reported success")
            elif op == "togpu":
                e.synch_mirror(from_gpu=False)
                G[i] = l.copy()
            elif op == "fromgpu":
                e.synch_mirror(from_gpu=True)
                L[i] = G[i].copy()
            elif op == "tgpu":
                b = rnd(r, dt, h, w)
                e.get_torch_mirror(gpu=True)[blk] = b
                G[i][blk] = b
            verify(i, desc)
            c.eval((dt, R, C, op, i > 0, held, safe, h, w, y, x, res, fill is None), True)
            c.count(op + ("" if res is None else ".ok" if res else ".no"))
            if c.nfail > 20: return
        if held: locker.release()
        locker.stop(); peer.stop()
        for e in r.sample(E, len(E)): e.close()
        for e in E: e.close()
        del E, e
        locker.free(); peer.free()
    if gpu:
        torch.cuda.available = False
        t = SharedTWrapper(namespace=c.prefix, basename=c.name(), is_server=True, n_rows=1, n_cols=1, with_torch_view=True, with_gpu_mirror=True)
        if attempt(t.run)[1] is None: c.fail("gpu", "a GPU mirror without a GPU raised no error")
        t.close()
    c.sample("server and clients with a local copy each: scalars, blocks, casts, overlapping sources, direct changes, synchronisation both ways, refusals")

def child(fn):
    pid = os.fork()
    if pid == 0:
        st = 60
        try:
            vfpy.die_with_parent()
            st = fn() or 0
        except BaseException as e:
            sys.stderr.write(f"child: {e!r}\n")
        os._exit(st)
    return pid

def reap(c, pid, sec, what, kill=False):
    t0 = time.time()
    if kill: os.kill(pid, 9)
    while time.time() - t0 < sec:
        w, st = os.waitpid(pid, os.WNOHANG)
        if w:
            if not kill and st != 0: c.fail("child", f"{what} ended with {os.waitstatus_to_exitcode(st)}")
            return
        time.sleep(0.002)
        c.tick()
    c.fail("child", f"{what} does not end")
    os.kill(pid, 9)
    os.waitpid(pid, 0)

def retry(c):
    r = c.rng
    for it in range(c.scale(8, 60)):
        dt = r.choice([0, 1, 2])
        R, C = r.randint(1, 6), r.randint(1, 6)
        base, ns = c.name(), c.prefix + "r"
        c.case(f"retry {NAME[dt]} {R}x{C}")
        s = SharedTWrapper(namespace=ns, basename=base, is_server=True, n_rows=R, n_cols=C, dtype=PD[dt])
        s.run()
        k = SharedTWrapper(namespace=ns, basename=base, dtype=PD[dt])
        k.run()
        peer = Peer(False, dt, True, base, ns, safe=False)
        peer.start()
        seed = r.getrandbits(32)
        rd, wr = os.pipe()
        flag = mmap.mmap(-1, 4096)
        def churn():                                           # takes the lock and gives it back, all the time
            q = random.Random(seed)
            p = Peer(False, dt, True, base, ns, safe=True)
            p.start()
            os.write(wr, b"x")
            while flag[0] == 0:
                p.acquire()
                time.sleep(q.random() * q.choice([0.0005, 0.002, 0.01]))
                p.release()
                time.sleep(q.random() * q.choice([0, 0.0002, 0.001]))
            p.stop()
        pid = child(churn)
        os.read(rd, 1)
        S = np.zeros((R, C), NP[dt])
        for step in range(c.scale(60, 120)):
            e = r.choice([s, k])
            h, w = r.randint(1, R), r.randint(1, C)
            y, x = r.randint(0, R - h), r.randint(0, C - w)
            blk = (slice(y, y + h), slice(x, x + w))
            op = r.choice(["write_retry", "scalar_retry", "read_retry", "value_retry", "synch_retry_r", "synch_retry_w", "synch_all_r", "synch_all_w", "write", "read", "synch_r", "synch_w", "value"])
            c.note(f"{op} {h}x{w} at ({y},{x})")
            v = step + 1
            if op in ("write_retry", "write"):
                b = np.full((h, w), v, NP[dt])
                ok = e.write_retry(b, y, x) if op == "write_retry" else e.write(b, y, x)
                if op == "write_retry" or ok is True: S[blk] = b
            elif op == "scalar_retry":
                e.write_retry(v, y, x); S[y, x] = v
                ok = None
            elif op in ("value_retry", "value"):
                out = e.read_retry(y, x) if op == "value_retry" else e.read(y, x)
                ok = out[1] if out is not None else None
                if op == "value_retry" and (out is None or out[1] is not True): c.fail("retry", f"read_retry returned {out}")
                elif ok and out[0] != S[y, x].item(): c.fail("retry-value", f"{op} returned {out}, the element is {S[y, x]}")
            elif op in ("read_retry", "read"):
                d = np.full((h, w), -9, NP[dt])
                out = e.read_retry(y, x, d) if op == "read_retry" else e.read(y, x, d)
                ok = out[1] if out is not None else None
                if op == "read_retry" and ok is not True: c.fail("retry", f"read_retry returned {out}")
                if not eq(d, S[blk] if ok else np.full((h, w), -9, NP[dt])): c.fail("retry-value", f"{op} -> {ok}: got\n{d}\nthe block is\n{S[blk]}")
            else:
                rdm = op.endswith("_r")
                m = e.get_numpy_mirror()
                if not rdm: m[blk] = v
                if op.startswith("synch_all"):
                    blk = (slice(0, R), slice(0, C))
                    ok = e.synch_all(read=rdm, retry=True)
                elif op.startswith("synch_retry"):
                    ok = e.synch_retry(y, x, h, w, rdm)
                    ok = True
                else: ok = e.synch(y, x, h, w, rdm)
                if op.startswith("synch_all") and ok is not True: c.fail("retry", f"synch_all(retry) returned {ok}")
                if ok and rdm and not eq(np.array(m[blk]), S[blk]): c.fail("retry-value", f"{op}: the local copy has\n{m[blk]}\nthe shared tensor\n{S[blk]}")
                if ok and not rdm: S[blk] = m[blk]
            now = peer.read((R, C), NP[dt])
            if now is None or not eq(now, S):
                c.fail("retry-shared", f"{op} -> {ok}: the shared tensor is\n{now}\nand should be\n{S}")
                S = now
            c.eval((dt, R, C, op, h, w, e is s, ok), True)
            c.count(op + ("" if ok is None else ".ok" if ok else ".no"))
            if c.nfail > 10: break
        flag[0] = 1
        reap(c, pid, 10, "lock churner")
        peer.stop(); peer.free()
        os.close(rd); os.close(wr)
        k.close(); s.close()
        if c.nfail > 10: return
    c.sample("every call, retrying or not, while another process keeps taking the lock")

def torn(c):
    r = c.rng
    for it in range(c.scale(4, 30)):
        dt, R, C = r.choice([0, 1, 2]), r.randint(2, 30), r.randint(2, 30)
        base, ns, n = c.name(), c.prefix + "w", c.scale(400, 1500)
        c.case(f"versions {NAME[dt]} {R}x{C}")
        s = SharedTWrapper(namespace=ns, basename=base, is_server=True, n_rows=R, n_cols=C, dtype=PD[dt])
        s.run()
        def writer():
            k = SharedTWrapper(namespace=ns, basename=base, dtype=PD[dt])
            k.run()
            for v in range(1, n + 1):
                k.get_numpy_mirror()[:, :] = v
                if v % 3: k.synch_all(read=False, retry=True)
                else: k.write_retry(np.full((R, C), v, NP[dt]), 0, 0)
            k.close()
        pid, last, seen, t0 = child(writer), 0, set(), time.time()
        while last < n and time.time() - t0 < 30:
            s.synch_all(read=True, retry=True)
            m = s.get_numpy_mirror()
            v = m.flat[0].item()
            if not (m == v).all():
                c.fail("torn", f"a synchronised copy mixes versions {sorted(set(m.flatten().tolist()))[:5]}")
            if v < last: c.fail("stale", f"version {v} seen after {last}")
            last = v
            if v not in seen:
                seen.add(v)
                c.eval((it, v), True)
            c.tick()
            if c.nfail > 5: break
        if not c.nfail and last != n: c.fail("lost", f"the last version seen is {last} of {n}")
        c.count("versions seen", len(seen))
        reap(c, pid, 20, "writer")
        s.close()
        if c.nfail: return
    c.sample("a writer's versions through a reader's local copy, across processes")

# ---- dictionaries -------------------------------------------------------------------------------
class Remote:
    """a client of a dictionary in another process"""
    def __init__(s, ns):
        a, b = os.pipe(), os.pipe()
        def serve():
            os.close(a[1]); os.close(b[0])
            i, o = os.fdopen(a[0], "rb"), os.fdopen(b[1], "wb")
            k = SharedTensorDict(namespace=ns, is_server=False)
            k.run()
            pickle.dump((k.names, k.dimensions, k.n_dims, k.n_nodes), o); o.flush()
            while True:
                m, args = pickle.load(i)
                if m == "end":
                    k.close()
                    return 0
                pickle.dump(attempt(lambda: getattr(k, m)(*args))[0:1] + (None,), o); o.flush()
        s.pid = child(serve)
        os.close(a[0]); os.close(b[1])
        s.i, s.o = os.fdopen(b[0], "rb"), os.fdopen(a[1], "wb")
    def hello(s): return pickle.load(s.i)
    def call(s, m, *args):
        pickle.dump((m, args), s.o); s.o.flush()
        return None if m == "end" else pickle.load(s.i)[0]

def rname(r, used):
    while True:
        k = r.random()
        if k < 0.3: n = r.choice(["a", "ab", "abc", "", "b", "q_dot", "joint_1", "joint_10", "joint_1 ", "A"])
        elif k < 0.9: n = "".join(r.choice("abcXYZ_019 ./é中") for _ in range(r.randint(1, 30)))
        else: n = "k" * r.randint(1000, 1024)
        if n not in used:
            used.add(n)
            return n

def dicts(c):
    r = c.rng
    for it in range(c.scale(30, 250)):
        ns = c.name()
        for life in range(r.randint(1, 3)):
            n = r.choice([1, 2, 3, 5, 8])
            many = it % 10 == 7
            if many: n = r.randint(20, 150)
            used = set()
            names = [rname(r, used) for _ in range(n)]
            dims = [r.choice([1, 1, 2, 3, 7] + ([300, 1000] if many and r.random() < 0.1 else [])) for _ in range(n)]
            nodes = r.choice([1, 2, 5])
            c.case(f"dictionary {list(zip([x[:30] for x in names], dims))} nodes {nodes} life {life}")
            early = [Remote(ns) for _ in range(r.randint(0, 2))]
            if early and r.random() < 0.7: time.sleep(r.choice([0.001, 0.01, 0.05]))
            if r.random() < 0.15:                                  # names which cannot be stored
                long, bn = list(names), c.name()
                long.insert(r.randint(0, n), r.choice(["z" * 1025, "z" * 5000, "é" * 513]))
                bad = SharedTensorDict(names=long, dimensions=[1] * (n + 1), n_nodes=1, namespace=bn, is_server=True)
                if attempt(bad.run)[1] is None: c.fail("long-names", "a server whose names do not fit ran")
                attempt(bad.close)
                c.count("names refused")
            s = SharedTensorDict(names=list(names), dimensions=list(dims), n_nodes=nodes, namespace=ns, is_server=True)
            if r.random() < 0.3: time.sleep(0.005)
            # somebody who takes the lock of the dimensions as soon as there is one
            rival = -1
            if r.random() < 0.4:
                hold, times = r.choice([0.002, 0.02]), r.randint(1, 4)
                def takes():
                    q = Peer(False, 2, True, "debug_data_dims", ns, safe=True)
                    q.start()
                    for _ in range(times):
                        q.acquire(); time.sleep(hold); q.release(); time.sleep(0.0005)
                    q.stop()
                rival = child(takes)
                c.count("rivals for the dimensions")
            s.run()
            K = early + [Remote(ns) for _ in range(r.randint(1 if not early else 0, 2))]
            tot = sum(dims)
            for k in K:
                h, ex = attempt(k.hello)
                if h != (names, dims, tot, nodes):
                    c.fail("described", f"a client sees {h!r:.600} {ex!r}, the server has {(names, dims, tot, nodes)!r:.600}")
                    if ex: return
                c.eval(("desc", tuple(names), tuple(dims), nodes, k in early), True)
                c.count("clients early" if k in early else "clients late")
                c.tick()
            if rival > 0: reap(c, rival, 20, "the rival")
            lock = Peer(False, 0, True, "debug_data", ns, safe=True)
            lock.start()
            see = Peer(False, 0, True, "debug_data", ns, safe=False)
            see.start()
            S = np.full((tot, nodes), np.nan, np.float32)
            L = [S.copy() for _ in range(1 + len(K))]
            at = lambda j: slice(sum(dims[:j]), sum(dims[:j]) + dims[j])
            held = False
            for step in range(c.scale(25, 50)):
                w = r.randrange(len(L))
                do = (lambda m, *a: attempt(lambda: getattr(s, m)(*a))[0]) if w == 0 else K[w - 1].call
                j = r.randrange(n)
                op = r.choice(["write", "write", "synch", "get", "get", "lock", "getall", "wait", "wait", "oversize"])
                c.note(f"endpoint {w} {op} {names[j][:30]!r} held={held}")
                if op == "lock":
                    (lock.release if held else lock.acquire)()
                    held = not held
                elif op == "write":
                    d = rnd(r, 0, dims[j], nodes)
                    if dims[j] == 1 and r.random() < 0.5: d = d.reshape(-1)
                    rt = not held and r.random() < 0.5
                    ok = do("write", d, names[j], rt)
                    if ok is not (not held): c.fail("dict-report", f"write(retry={rt}) while held={held}: {ok}")
                    L[w][at(j), :] = d
                    if ok: S[at(j), :] = d
                elif op == "oversize":                       # data that is not an entry's may not end up in another's
                    d = rnd(r, 0, dims[j] + r.choice([1, 1, 2, 7]), nodes + r.choice([0, 0, 0, 1])) if r.random() < 0.8 else rnd(r, 0, dims[j], nodes + r.randint(1, 3))
                    ok = do("write", d, names[j], False)
                    if ok: c.fail("dict-size", f"data of {d.shape} for an entry of {(dims[j], nodes)}: {ok}")
                    for q in range(n):
                        g = do("get", names[q])
                        if q != j and not eq(g, L[w][at(q), :]): c.fail("dict-size", f"data of {d.shape} written to an entry of {(dims[j], nodes)} ended up in another entry")
                        if q == j: L[w][at(q), :] = g
                    now = see.read((tot, nodes), NP[0])
                    if now is None or not eq(now, S): c.fail("dict-size", f"data of {d.shape} for an entry of {(dims[j], nodes)} changed the shared data")
                elif op == "wait":                           # the lock comes back while the call keeps trying
                    if not held: lock.acquire()
                    tm = threading.Timer(r.choice([0.002, 0.01]), lock.release)
                    tm.start()
                    if r.random() < 0.6:
                        d = rnd(r, 0, dims[j], nodes)
                        ok = do("write", d, names[j], True)
                        L[w][at(j), :] = d
                        S[at(j), :] = d
                    else:
                        ok = do("synch", True)
                        L[w] = S.copy()
                    if ok is not True: c.fail("dict-report", f"a retrying call reported {ok}")
                    tm.join()
                    held = False
                    now = see.read((tot, nodes), NP[0])
                    if now is None or not eq(now, S):
                        c.fail("dict-lost", f"after a retrying call the shared data are\n{now}\nand should be\n{S}")
                elif op == "synch":
                    rt = not held and r.random() < 0.5
                    ok = do("synch", rt)
                    if ok is not (not held): c.fail("dict-report", f"synch(retry={rt}) while held={held}: {ok}")
                    if ok: L[w] = S.copy()
                else:
                    for q in ([j] if op == "get" else range(n)):
                        g = do("get", names[q])
                        if not isinstance(g, np.ndarray) or not eq(g, L[w][at(q), :]):
                            c.fail("dict-value", f"get({names[q][:40]!r}) gives\n{g}\nshould be\n{L[w][at(q), :]}")
                        elif w == 0: g[:, :] = 99                # what was handed out is a copy
                c.eval((n, tuple(dims), nodes, op, w > 0, held, j), True)
                c.count(op)
                if c.nfail > 10: break
            if held: lock.release()
            # the data of every entry is the same everywhere under its name
            if not c.nfail:
                for w in range(len(L)):
                    do = (lambda m, *a: attempt(lambda: getattr(s, m)(*a))[0]) if w == 0 else K[w - 1].call
                    do("synch", True)
                    for j in range(n):
                        g = do("get", names[j])
                        if not isinstance(g, np.ndarray) or not eq(g, S[at(j), :]): c.fail("dict-value", f"{names[j][:40]!r} on endpoint {w} is\n{g}\nshould be\n{S[at(j), :]}")
            x = do_unknown = attempt(lambda: s.get("no such entry"))
            if x[1] is None: c.fail("dict-unknown", "an unknown name raised no error")
            for p in (lock, see): p.stop(); p.free()
            first = r.random() < 0.5
            if first: s.close()
            for k in K:
                k.call("end")
                reap(c, k.pid, 20, "dictionary client")
                k.i.close(); k.o.close()
            s.close()
            del s
            if c.nfail > 10: return
    c.sample("names of all kinds, dimensions, clients started before and after the server, several lives under one namespace")

def patience(c):
    """a retrying call goes on for as long as it is refused"""
    r = c.rng
    ops = ["write_retry", "scalar_retry", "read_retry", "value_retry", "synch_retry r", "synch_retry w", "synch_all r", "synch_all w", "to_zero", "dict write", "dict synch"]
    for it in range(c.shard, len(ops) * c.scale(2, 8), c.nshards):
        op, server = ops[it % len(ops)], (it // len(ops)) % 2 == 0
        dt, R, C = r.choice([0, 1, 2]), r.randint(1, 5), r.randint(1, 5)
        base, ns, n = c.name(), c.prefix + "p", r.randint(60000, c.scale(200000, 2000000))
        c.case(f"{op} by a {'server' if server else 'client'}, refused {n} times")
        S = rnd(r, dt, R, C)
        if op.startswith("dict"):
            dt, ns = 0, c.name()
            names, dims = ["a", "b"], [R, r.randint(1, 4)]
            s = SharedTensorDict(names=names, dimensions=dims, n_nodes=C, namespace=ns, is_server=True)
            s.run()
            k = SharedTensorDict(namespace=ns)
            k.run()
            e, o = (s, k) if server else (k, s)
            d = rnd(r, 0, R, C)
            if op == "dict synch": o.write(d, "a")
            with vfpy.Refuse(type(e.data.get_shared_mem()), "write" if op == "dict write" else "read", n, c) as f:
                ok, ex = attempt(lambda: e.write(d, "a") if op == "dict write" else e.synch())
            if ok is not True or f.calls <= n: c.fail("gave-up", f"{op} refused {n} times: {ok} {ex!r} after {f.calls} attempts")
            o.synch()
            if not eq(o.get("a"), d) or not eq(e.get("a"), d): c.fail("dict-value", f"after {op} the entry is\n{e.get('a')} here and\n{o.get('a')} there, it should be\n{d}")
            k.close(); s.close()
        else:
            kw = dict(namespace=ns, basename=base, dtype=PD[dt])
            s = SharedTWrapper(is_server=True, n_rows=R, n_cols=C, **kw)
            s.run()
            k = SharedTWrapper(**kw)
            k.run()
            e, o = (s, k) if server else (k, s)
            o.get_numpy_mirror()[:, :] = S
            o.synch_all(read=False, retry=True)
            d, v = rnd(r, dt, R, C), r.randint(2, 90)
            m = e.get_numpy_mirror()
            m[:, :] = d
            rd = op in ("read_retry", "value_retry") or op.endswith(" r")
            a = rnd(r, dt, R, C)
            with vfpy.Refuse(type(e.get_shared_mem()), "read" if rd else "write", n, c) as f:
                call = {"write_retry": lambda: e.write_retry(d, 0, 0), "scalar_retry": lambda: e.write_retry(v, R - 1, 0), "read_retry": lambda: e.read_retry(0, 0, a),
                        "value_retry": lambda: e.read_retry(R - 1, 0), "to_zero": e.to_zero}
                for x in ("r", "w"):
                    call["synch_retry " + x] = lambda: e.synch_retry(0, 0, R, C, rd)
                    call["synch_all " + x] = lambda: e.synch_all(read=rd, retry=True)
                ok, ex = attempt(call[op])
            if ex is not None or f.calls <= n: c.fail("gave-up", f"{op} refused {n} times: {ok} {ex!r} after {f.calls} attempts")
            elif op in ("read_retry", "value_retry") and (ok is None or ok[1] is not True): c.fail("gave-up", f"{op} reported {ok}")
            elif op.startswith("synch_all") and ok is not True: c.fail("gave-up", f"{op} reported {ok}")
            T = S.copy() if rd or op == "scalar_retry" else d.copy()
            if op == "to_zero": T[:, :] = 0
            if op == "scalar_retry": T[R - 1, 0] = v
            L = d.copy()
            if op == "value_retry": L[R - 1, 0] = S[R - 1, 0]
            elif rd: L = S.copy()
            elif op == "to_zero": L[:, :] = 0
            elif op == "scalar_retry": L[R - 1, 0] = v
            if not eq(m, L): c.fail("local", f"after {op} the local copy is\n{m}\nand should be\n{L}")
            o.synch_all(read=True, retry=True)
            if not eq(o.get_numpy_mirror(), T): c.fail("retry-lost", f"after {op} the shared tensor is\n{o.get_numpy_mirror()}\nand should be\n{T}")
            k.close(); s.close()
        c.count("refusals survived", n)
        c.eval((op, server, dt, R, C), True)
        if c.nfail > 5: return
    c.sample("every retrying call refused tens of thousands of times, over hours of the clock")

# ---- clients that come back ---------------------------------------------------------------------
def comeback(c):
    """one client object on several servers in a row, of other sizes, orders of entries and names"""
    r = c.rng
    for it in range(c.scale(25, 250)):
        ns, base, dt = c.prefix + "cb%d" % it, c.name(), r.choice([0, 1, 2, 3])
        asdict, torchy = r.random() < 0.5, r.random() < 0.5
        c.case(f"comeback {'dict' if asdict else NAME[dt]}")
        k = SharedTensorDict(namespace=ns, is_server=False) if asdict else SharedTWrapper(namespace=ns, basename=base, dtype=PD[dt], with_torch_view=torchy)
        for life in range(r.randint(2, 4)):
            names = None
            if asdict:
                n = r.randint(1, 6)
                names = r.sample(["a", "b", "zz", "\u00e9", "q" * 40, "x y", "Z", "0"], n)
                dims, C = [r.randint(1, 4) for _ in range(n)], r.randint(1, 7)
                R = sum(dims)
                s = SharedTensorDict(names=list(names), dimensions=list(dims), n_nodes=C, namespace=ns, is_server=True)
                s.run(); k.run()
                if list(k.names) != names or list(k.dimensions) != dims or k.n_dims != R or k.n_nodes != C:
                    c.fail("back-structure", f"in life {life} the client has {k.names} {k.dimensions} {k.n_dims}x{k.n_nodes} instead of {names} {dims} {R}x{C}")
                    return
                sm, km, sy, ky = s.data.get_numpy_mirror(), k.data.get_numpy_mirror(), s.data, k.data
            else:
                R, C = r.randint(1, 9), r.randint(1, 9)
                s = SharedTWrapper(namespace=ns, basename=base, is_server=True, n_rows=R, n_cols=C, dtype=PD[dt], with_torch_view=torchy)
                s.run(); k.run()
                sm, km, sy, ky = s.get_numpy_mirror(), k.get_numpy_mirror(), s, k
                if (k.n_rows, k.n_cols) != (R, C): c.fail("back-structure", f"in life {life} the client has {k.n_rows}x{k.n_cols} instead of {R}x{C}")
            if km.shape != (R, C):
                c.fail("back-structure", f"in life {life} the local copy is {km.shape} instead of {(R, C)}")
                return
            for w in range(r.randint(1, 3)):
                v = rnd(r, 0 if asdict else dt, R, C)
                a, b, am, bm = (sy, ky, sm, km) if r.random() < 0.5 else (ky, sy, km, sm)
                am[:, :] = v
                a.synch_all(read=False, retry=True)
                b.synch_all(read=True, retry=True)
                if not eq(np.ascontiguousarray(bm), np.ascontiguousarray(v)): c.fail("back-value", f"in life {life} what one side published\n{v}\nis\n{bm}\non the other")
                if asdict:
                    j = r.randrange(len(names)); o = sum(dims[:j])
                    d = np.full((dims[j], C), float(w + 10 * life), np.float32)
                    x, y = (s, k) if r.random() < 0.5 else (k, s)
                    if x.write(d, names[j], True) is not True or y.synch(True) is not True: c.fail("back-report", "a retrying call failed")
                    v[o:o + dims[j], :] = d
                    for q in range(len(names)):
                        o = sum(dims[:q])
                        if not eq(np.ascontiguousarray(y.get(names[q])), np.ascontiguousarray(v[o:o + dims[q], :])): c.fail("back-value", f"in life {life} the entry {names[q]!r} is\n{y.get(names[q])}\ninstead of\n{v[o:o + dims[q], :]}")
                c.eval((asdict, dt, R, C, life, w, it), True)
            c.count("lives of clients that came back")
            if r.random() < 0.5: k.close(); s.close()
            else: s.close(); k.close()
            if c.nfail > 5: return
        c.tick()
    c.sample("one client object on several servers in a row")

if __name__ == "__main__":
    vfpy.run_main([("mirror", 8, 24, mirror, 30), ("gpu", 2, 6, lambda c: mirror(c, True), 30), ("retry", 4, 8, retry, 30), ("torn", 2, 6, torn, 30), ("dict", 8, 16, dicts, 30), ("patience", 4, 8, patience, 60), ("comeback", 2, 4, comeback, 30)])
