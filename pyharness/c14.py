"""C14: the Python bindings move exactly the addressed NumPy elements, or raise / report failure."""
import os, sys, time
import numpy as np
import vfpy
from vfpy import Peer, GuardBuf
from EigenIPC.PyEigenIPC import (ServerFactory, ClientFactory, StringTensorServer, StringTensorClient, Producer, Consumer,
                                 VLevel, RowMajor, ColMajor, dtype, toNumpyDType)

NP = {vfpy.F: np.dtype(np.float32), vfpy.D: np.dtype(np.float64), vfpy.I: np.dtype(np.int32), vfpy.B: np.dtype(np.bool_)}
PD = {vfpy.F: dtype.Float, vfpy.D: dtype.Double, vfpy.I: dtype.Int, vfpy.B: dtype.Bool}
NAME = {0: "float", 1: "double", 2: "int", 3: "bool"}

def rand_bytes(r, dt, n):
    """n elements' worth of bytes, extremes, NaN payloads and denormals included"""
    if dt == vfpy.B:
        return bytes(r.randrange(2) for _ in range(n))
    es = NP[dt].itemsize
    b = bytearray(r.randbytes(n * es))
    sp = {vfpy.F: [0x80000000, 0x7f800000, 0xff800000, 0x7fc00001, 0x7f800001, 0xffc12345, 1, 0], vfpy.I: [0x80000000, 0x7fffffff, 0, 0xffffffff],
          vfpy.D: [1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x7ff0000000000001, 1, 0]}[dt]
    for i in range(n):
        if r.random() < 0.3:
            b[i * es:(i + 1) * es] = r.choice(sp).to_bytes(es, "little")
    return bytes(b)

def rand_array(r, dt, n):
    return np.frombuffer(rand_bytes(r, dt, n), dtype=NP[dt])

def same(a, b):
    return a.shape == b.shape and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()

class Arr:
    """An array laid out in memory this harness owns: every byte outside its elements is checked."""
    def __init__(s, r, dt, shape, kind, row_major):
        es = NP[dt].itemsize
        R, C = shape
        off = 0
        if kind == "c": st = (C * es, es)
        elif kind == "f": st = (es, R * es)
        elif kind in ("cblock", "fblock"):
            BR, BC = R + r.randint(0, 4), C + r.randint(0, 4)
            o = (r.randint(0, BR - R), r.randint(0, BC - C))
            st = (BC * es, es) if kind == "cblock" else (es, BR * es)
            off = o[0] * st[0] + o[1] * st[1]
        elif kind in ("cstep", "fstep"):
            a, b = r.randint(1, 4), r.randint(1, 4)
            BR, BC = R * a + r.randint(0, 2), C * b + r.randint(0, 2)
            st = (BC * es * a, es * b) if kind == "cstep" else (es * a, BR * es * b)
            off = r.randint(0, 3) * es
        elif kind in ("negrow", "negcol", "negboth"):
            st = [C * es, es] if row_major else [es, R * es]
            if kind != "negcol": off += (R - 1) * st[0]; st[0] = -st[0]
            if kind != "negrow": off += (C - 1) * st[1]; st[1] = -st[1]
            st = tuple(st)
        elif kind == "plane":                        # a plane of a 3-D array
            K = r.randint(2, 4)
            st = (C * K * es, K * es) if row_major else (K * es, R * K * es)
            off = r.randrange(K) * es
        elif kind == "field":                        # a field of a structured array
            k = r.choice([es, 2 * es, 3 * es]) + es
            st = (C * k, k) if row_major else (k, R * k)
            off = r.choice([0, es])
        elif kind == "oddfield":                     # packed next to bytes: strides are no multiple of the element
            k = es + r.choice([x for x in range(1, es)] or [1])
            st = (C * k, k) if row_major else (k, R * k)
        elif kind == "oddouter":
            k = (C if row_major else R) * es + r.choice([x for x in range(1, es)] or [1])
            st = (k, es) if row_major else (es, k)
        elif kind == "unaligned":
            st = (C * es, es) if row_major else (es, R * es)
            off = r.randint(1, 7)
        elif kind == "bcast":                        # the same element along the inner direction (sources only)
            st = (es, 0) if row_major else (0, es)
        elif kind == "bcastouter":
            st = (0, es) if row_major else (es, 0)
        lo = min(0, st[0] * (R - 1)) + min(0, st[1] * (C - 1)) + off
        hi = max(0, st[0] * (R - 1)) + max(0, st[1] * (C - 1)) + off + es
        assert lo >= 0
        extra = 0 if r.random() < 0.6 else r.randint(1, 40)
        s.n = hi + extra
        s.g = GuardBuf(s.n, at_end=r.random() < 0.7 or kind == "unaligned")
        raw = np.frombuffer(s.g.buf, dtype=np.uint8)
        raw[:] = np.frombuffer(r.randbytes(s.n), np.uint8) & (1 if dt == vfpy.B else 255)
        s.raw, s.dt, s.shape, s.st, s.off = raw, dt, shape, st, off
        s.a = np.ndarray(shape, NP[dt], buffer=s.g.buf, offset=off, strides=st)
        if kind not in ("bcast", "bcastouter"):
            s.a[...] = rand_array(r, dt, R * C).reshape(shape)
        st = s.a.strides
        s.whole = all(x % es == 0 or n == 1 for x, n in zip(st, shape))      # (a stride along a single element means nothing)
        even = all(x % es == 0 for x in st)
        # what the bindings document: two dimensions, whole-element strides, the order of the tensor
        s.supported = even and min(st) > 0 and (R == 1 or C == 1 or (st[0] >= st[1] if row_major else st[0] <= st[1]))
        s.before = s.raw.tobytes()
    def after_read(s, block):
        """the bytes of the memory once the elements are `block`"""
        m = bytearray(s.before)
        np.ndarray(s.shape, NP[s.dt], buffer=m, offset=s.off, strides=s.st)[...] = block
        return bytes(m)
    def free(s):
        s.a = s.raw = None
        s.g.free()

KINDS = ["c", "f", "cblock", "fblock", "cstep", "fstep", "negrow", "negcol", "negboth", "plane", "field", "oddfield", "oddouter", "unaligned", "bcast", "bcastouter"]

def attempt(fn):
    """(True/False, exception or None)"""
    try:
        return fn(), None
    except Exception as e:
        return None, e

def pos(r, n, k):
    x = r.random()
    if x < 0.7:
        return r.randint(0, max(0, n - k))
    if x < 0.9:
        return r.randint(-3, n + 3)
    return r.choice([-1, n, n - k + 1, 2**31 - 1, -2**31, 2**31 - k, 2**31, -2**31 - 1, 2**40, 2**32, 2**63, 2**64])

def make(c, dt, rm, R, C, who, safe):
    """servers and clients of a tensor, in Python and in C++"""
    base, ns = c.name(), c.prefix + c.rng.choice(["", "a", "ns/sub"[0:2], "Ns_1"])
    lay = RowMajor if rm else ColMajor
    py = {}
    if who == "pyserver":
        py["server"] = ServerFactory(n_rows=R, n_cols=C, basename=base, namespace=ns, verbose=False, vlevel=VLevel.V0, safe=safe,
                                     force_reconnection=False, dtype=PD[dt], layout=lay)
        py["server"].run()
        srv = None
    else:
        srv = Peer(True, dt, rm, base, ns, R, C, safe=True)
        srv.start()
    py["client"] = ClientFactory(basename=base, namespace=ns, verbose=False, vlevel=VLevel.V0, safe=safe, dtype=PD[dt], layout=lay)
    py["client"].attach()
    peer = Peer(False, dt, rm, base, ns, safe=False)       # sees the tensor whoever holds the lock
    peer.start()
    locker = Peer(False, dt, rm, base, ns, safe=True)
    locker.start()
    return base, ns, py, srv, peer, locker

def blocks(c):
    for it in range(c.scale(60, 400)):
        r = c.rng
        dt, rm = r.randrange(4), r.random() < 0.6
        R, C = r.choice([(1, 1), (1, r.randint(2, 9)), (r.randint(2, 9), 1), (r.randint(2, 9), r.randint(2, 9)), (r.randint(2, 40), r.randint(2, 40))])
        who, safe = r.choice(["pyserver", "cppserver"]), r.random() < 0.7
        c.case(f"{NAME[dt]} {'row' if rm else 'col'}-major {R}x{C} {who} safe={safe}")
        base, ns, py, srv, peer, locker = make(c, dt, rm, R, C, who, safe)
        M = rand_array(r, dt, R * C).reshape(R, C).copy()
        if not peer.write(M):
            c.fail("peer", "the C++ peer cannot initialise the tensor")
            return
        attached, held = True, False
        for step in range(c.scale(60, 120)):
            x = r.random()
            if x < 0.06:
                (locker.release if held else locker.acquire)()
                held = not held
                c.note(f"lock held by another: {held}")
                continue
            if x < 0.09 and not held:
                if attached: py["client"].detach()
                else: py["client"].attach()
                attached = not attached
                c.note(f"client attached: {attached}")
                continue
            if x < 0.14:                                     # the C++ side changes something
                h, w = r.randint(1, R), r.randint(1, C)
                i, j = r.randint(0, R - h), r.randint(0, C - w)
                b = rand_array(r, dt, h * w).reshape(h, w)
                if not peer.write(b, i, j):
                    c.fail("peer", "the C++ peer's write failed")
                M[i:i + h, j:j + w] = b
                continue
            en = r.choice(list(py))
            e = py[en]
            wr = r.random() < 0.5
            h, w = (r.randint(1, R), r.randint(1, C)) if r.random() < 0.85 else (r.randint(1, R + 3), r.randint(1, C + 3))
            row, col = (pos(r, R, h), pos(r, C, w)) if r.random() < 0.9 else (0, 0)
            kind = r.choice(KINDS if wr else KINDS[:-2])
            A = Arr(r, dt, (h, w), kind, rm)
            ro = r.random() < 0.12
            if ro:
                A.a.flags.writeable = False
            wrongdt = r.random() < 0.08
            a = A.a
            if wrongdt:
                es = NP[dt].itemsize
                alt = {1: [np.uint8, np.int8], 4: [np.uint32, np.float32, np.int32], 8: [np.int64, np.uint64, np.float64, np.complex64]}[es]
                alt = [np.dtype(t) for t in alt if np.dtype(t) != NP[dt]] + ([NP[dt].newbyteorder()] if es > 1 else [])
                t = r.choice(alt)
                a = np.ndarray((h, w), t, buffer=A.g.buf, offset=A.off, strides=A.st)
            started = attached or en == "server"
            fits = 0 <= row and row + h <= R and 0 <= col and col + w <= C
            free = not held or not safe
            can = started and fits and free and not wrongdt and A.whole and not (ro and not wr and not wrongdt)
            must = can and A.supported
            pre = M.copy()
            desc = f"{en}.{'write' if wr else 'read'} {kind} {h}x{w} strides {A.a.strides} at ({row},{col}) dtype {a.dtype} ro={ro} held={held} attached={attached}"
            c.note(desc)
            ok, ex = attempt(lambda: (e.write if wr else e.read)(a, row, col))
            if ex is None and not isinstance(ok, bool):
                c.fail("result", f"{desc}: returned {ok!r}")
            good = ok is True
            if good and not can:
                c.fail("accepted", f"{desc}: reported success although it cannot be served (fits={fits} started={started} lock free={free} whole strides={A.whole})")
            if must and not good:
                c.fail("refused", f"{desc}: refused ({ex!r}) although everything about it is in order")
            blk = A.a.copy()
            if good and wr and fits and not wrongdt:
                pre[row:row + h, col:col + w] = np.ndarray((h, w), NP[dt], buffer=bytearray(A.before), offset=A.off, strides=A.st)
            want = A.after_read(M[row:row + h, col:col + w]) if good and not wr and fits and not wrongdt else A.before
            if A.raw.tobytes() != want:
                k = [i for i, (p, q) in enumerate(zip(A.raw.tobytes(), want)) if p != q][:4]
                c.fail("array-" + ("write" if wr else "read"), f"{desc} -> {ok}: the array's memory is not what it should be (bytes {k})")
            now = peer.read((R, C), NP[dt])
            if now is None:
                c.fail("peer", "the C++ peer's read failed")
                return
            if not same(now, pre):
                k = np.argwhere(now.view(np.uint8).reshape(R, C, -1) != pre.view(np.uint8).reshape(R, C, -1))[:3].tolist()
                c.fail("tensor-" + ("write" if wr else "read"), f"{desc} -> {ok}: the tensor differs from what was written (element/byte {k})")
            M = now
            c.eval((dt, rm, kind, wr, h, w, row, col, good, ro, wrongdt, held, safe, en), True)
            c.count(f"{'write' if wr else 'read'}.{'ok' if good else 'raised' if ex else 'false'}")
            c.count("kind." + kind + (".ok" if good else ""))
            if good: c.sample(desc)
            A.free()
            if c.nfail > 20:
                return
        if held:
            locker.release()
        for p in (locker, peer):
            p.stop()
        py["client"].close()
        (py["server"].close if "server" in py else srv.close)()
        for p in (locker, peer, srv):
            if p: p.free()

def far(c):
    """arrays whose rows or columns lie kilobytes to gigabytes apart, in memory that is never filled"""
    import mmap
    r = c.rng
    try: big = mmap.mmap(-1, 14 << 30, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000)
    except OSError: c.count("skipped for memory"); big = None
    small = mmap.mmap(-1, 64 << 20)
    for it in range(c.scale(40, 300)):
        dt, rm = r.randrange(4), r.random() < 0.5
        es = NP[dt].itemsize
        R, C = r.randint(2, 4), r.randint(2, 4)
        who = r.choice(["pyserver", "cppserver"])
        c.case(f"far {NAME[dt]} {'row' if rm else 'col'}-major {R}x{C} {who}")
        base, ns, py, srv, peer, locker = make(c, dt, rm, R, C, who, True)
        M = rand_array(r, dt, R * C).reshape(R, C).copy()
        peer.write(M)
        for step in range(24):
            mem, top = (big, 3 << 30) if big is not None and r.random() < 0.5 else (small, 1 << 21)
            h, w = r.randint(1, R), r.randint(1, C)
            i, j = r.randint(0, R - h), r.randint(0, C - w)
            inner = es * (1 if r.random() < 0.6 else r.choice([2, 129, 32767, 32768, 40000, 65536, 65537, r.randint(1, top // 16 // es)]))
            lo = inner * 4
            outer = es * r.choice([32767, 32768, 33000, 65535, 65536, 70001, 1 << 17, (1 << 31) // es, (1 << 31) // es + 3, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) // es, r.randint(1, max(1, top // es))])
            if outer < lo: outer += lo
            if outer > top: outer = max(lo, outer % top // es * es)
            st = (outer, inner) if rm else (inner, outer)
            off = r.randint(0, 7) * es
            need = off + st[0] * (R - 1) + st[1] * (C - 1) + es
            if need > len(mem): continue
            a = np.ndarray((h, w), NP[dt], buffer=mem, offset=off, strides=st)
            en = r.choice(list(py)); wr = r.random() < 0.5
            desc = f"{en}.{'write' if wr else 'read'} {h}x{w} strides {st} at ({i},{j})"
            c.note(desc)
            b = rand_array(r, dt, h * w).reshape(h, w)
            a[...] = b
            ok, ex = attempt(lambda: (py[en].write if wr else py[en].read)(a, i, j))
            if ok is not True: c.fail("refused", f"{desc}: refused ({ex!r})"); continue
            if wr: M[i:i + h, j:j + w] = b
            want = b if wr else M[i:i + h, j:j + w]
            if not same(a, want): c.fail("array-far", f"{desc}: the array holds\n{np.array(a)}\nand should hold\n{np.array(want)}")
            for y in range(h):                               # right before and behind every element
                for x in range(w):
                    o = off + y * st[0] + x * st[1]
                    hit = {off + p * st[0] + q * st[1] for p in range(h) for q in range(w)}
                    for z in (o - es, o + es):
                        if z >= 0 and z + es <= len(mem) and z not in hit and any(mem[z:z + es]): c.fail("array-far", f"{desc}: bytes at {z} outside the array changed"); mem[z:z + es] = bytes(es)
            now = peer.read((R, C), NP[dt])
            if now is None or not same(now, M):
                c.fail("tensor-far", f"{desc}: the tensor is\n{now}\nand should be\n{M}")
                if now is None: return
                M = now
            a[...] = 0
            c.eval((dt, rm, h, w, i, j, st, wr, en), True)
            c.count("far blocks"); c.count("strides beyond 2^31 bytes", outer >= 1 << 31)
            if c.nfail > 10: return
        for p in (locker, peer): p.stop()
        py["client"].close()
        (py["server"].close if "server" in py else srv.close)()
        for p in (locker, peer, srv):
            if p: p.free()
    c.sample("rows and columns up to 3 GB apart")

def large(c):
    """blocks of up to a million elements"""
    r = c.rng
    for it in range(c.scale(4, 20)):
        dt, rm = r.randrange(4), r.random() < 0.5
        R, C = r.choice([(1, r.randint(40000, 140000)), (r.randint(40000, 140000), 1), (r.randint(150, 400), r.randint(150, 400)), (r.randint(150, 400), r.randint(150, 400)), (r.randint(2, 5), r.randint(33000, 70000)), (r.randint(33000, 70000), r.randint(2, 5))])
        who = r.choice(["pyserver", "cppserver"])
        c.case(f"large {NAME[dt]} {'row' if rm else 'col'}-major {R}x{C} {who}")
        base, ns, py, srv, peer, locker = make(c, dt, rm, R, C, who, True)
        A = np.random.default_rng(r.getrandbits(60))
        val = lambda h, w: A.integers(0, 2, (h, w)).astype(np.bool_) if dt == vfpy.B else A.integers(-2**30, 2**30, (h, w)).astype(NP[dt])
        M = val(R, C)
        if not peer.write(M): c.fail("peer", "the C++ peer cannot initialise the tensor"); return
        for step in range(c.scale(10, 30)):
            cut = lambda n: n if r.random() < 0.4 else r.randint(max(1, n // 2), n)
            h, w = cut(R), cut(C)
            i, j = r.randint(0, R - h), r.randint(0, C - w)
            pad, stp = r.choice([0, 0, 3]), r.choice([1, 1, 2])
            full = np.zeros((h * stp + pad, w * stp + pad), NP[dt], order="C" if rm else "F")
            a = full[:h * stp:stp, :w * stp:stp]
            en = r.choice(list(py)); wr = r.random() < 0.5
            desc = f"{en}.{'write' if wr else 'read'} {h}x{w} step {stp} at ({i},{j})"
            c.note(desc)
            b = val(h, w)
            a[...] = b
            if wr:
                ok, ex = attempt(lambda: py[en].write(a, i, j))
                M[i:i + h, j:j + w] = b
            else:
                ok, ex = attempt(lambda: py[en].read(a, i, j))
                b = M[i:i + h, j:j + w]
            if ok is not True: c.fail("refused", f"{desc}: refused ({ex!r})")
            if not same(a, b): c.fail("array-large", f"{desc}: {int((a != b).sum())} elements of the array are not what they should be")
            a[...] = 0
            if full.any(): c.fail("array-large", f"{desc}: elements outside the block changed")
            now = peer.read((R, C), NP[dt])
            if now is None or not same(now, M): c.fail("tensor-large", f"{desc}: {'?' if now is None else int((now != M).sum())} elements of the tensor are wrong")
            c.eval((dt, rm, h, w, i, j, wr, en), True)
            c.count("large blocks")
            if c.nfail > 10: return
        for p in (locker, peer): p.stop()
        py["client"].close()
        (py["server"].close if "server" in py else srv.close)()
        for p in (locker, peer, srv):
            if p: p.free()
    c.sample("blocks up to 140000 rows or columns")

def refuse(c):
    """everything that is no matching 2-D array"""
    r = c.rng
    for it in range(c.scale(16, 60)):
        for dt in range(4):
            rm = r.random() < 0.5
            R, C = r.randint(2, 6), r.randint(2, 6)
            c.case(f"refuse {NAME[dt]} {'row' if rm else 'col'} {R}x{C}")
            base, ns, py, srv, peer, locker = make(c, dt, rm, R, C, r.choice(["pyserver", "cppserver"]), True)
            M = rand_array(r, dt, R * C).reshape(R, C).copy()
            peer.write(M)
            o = "C" if rm else "F"
            def full(t):
                a = np.zeros((R, C), t, order=o)
                a.view(np.uint8)[...] if False else None
                return a
            bad = []
            for t in [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.float16, np.float32, np.float64, np.longdouble,
                      np.complex64, np.complex128, np.bool_, np.dtype("S4"), np.dtype("U1"), np.dtype("V4"), np.dtype("M8[s]"), np.dtype("m8[s]"),
                      np.dtype(">f4"), np.dtype(">f8"), np.dtype(">i4"), object]:
                if np.dtype(t) != NP[dt]:
                    bad.append((f"dtype {np.dtype(t)}", full(t)))
            bad.append(("struct", np.zeros((R, C), [("a", NP[dt])], order=o)))
            for sh in [(), (R,), (C,), (R * C,), (1, R, C), (R, C, 1), (1, 1, 1, 1)]:
                bad.append((f"shape {sh}", np.zeros(sh, NP[dt])))
            for v in [0, 1.5, True, None, "x", [[0] * C] * R, b"1234", memoryview(bytes(16)), NP[dt].type(1)]:
                bad.append((f"object {type(v).__name__}", v))
            for what, a in bad:
                for en, e in py.items():
                    for wr in (0, 1):
                        c.note(f"{en}.{'write' if wr else 'read'} {what}")
                        snap = a.tobytes() if isinstance(a, np.ndarray) and a.dtype != object else repr(a)
                        ok, ex = attempt(lambda: (e.write if wr else e.read)(a, 0, 0))
                        if ok is True:
                            c.fail("accepted", f"{en}.{'write' if wr else 'read'} of {what} reported success")
                        if (a.tobytes() if isinstance(a, np.ndarray) and a.dtype != object else repr(a)) != snap:
                            c.fail("array", f"{en}.{'write' if wr else 'read'} of {what} changed the array")
                        if what.startswith("dtype") and ex is None:
                            c.fail("silent", f"{en}.{'write' if wr else 'read'} of {what} raised no error")
                        c.eval((dt, rm, what, en, wr), True)
                        c.count("refused.raised" if ex else "refused.false")
                if not same(peer.read((R, C), NP[dt]), M):
                    c.fail("tensor", f"{what}: the tensor changed")
                    peer.write(M)
            # read-only destinations
            for en, e in py.items():
                a = np.array(rand_array(r, dt, R * C).reshape(R, C), order=o)
                a.flags.writeable = False
                snap = a.tobytes()
                ok, ex = attempt(lambda: e.read(a, 0, 0))
                if ex is None:
                    c.fail("readonly", f"{en}.read into a read-only array raised no error (returned {ok})")
                if a.tobytes() != snap:
                    c.fail("readonly", f"{en}.read changed a read-only array")
                c.eval(("ro", dt, rm, en), True)
                # and the same array is fine as a source
                ok, ex = attempt(lambda: e.write(a, 0, 0))
                if ok is not True or not same(peer.read((R, C), NP[dt]), a):
                    c.fail("rosource", f"{en}.write from a read-only array: {ok} {ex!r}")
            for p in (locker, peer): p.stop()
            py["client"].close()
            (py["server"].close if "server" in py else srv.close)()
            for p in (locker, peer, srv):
                if p: p.free()
            if c.nfail > 20: return
    c.sample("every other NumPy type of any size, 0/1/3/4-D arrays, non-arrays, read-only destinations")

def factory(c):
    r = c.rng
    for dt in range(4):
        if toNumpyDType(PD[dt]) != NP[dt]:
            c.fail("numpy-type", f"toNumpyDType({PD[dt]}) is {toNumpyDType(PD[dt])}")
    combos = [(dt, rm, sv) for dt in range(4) for rm in (True, False) for sv in (True, False)]
    r.shuffle(combos)
    for rnd in range(c.scale(6, 30)):
        for dt, rm, py_server in combos:
            R, C = r.randint(1, 12), r.randint(1, 12)
            while R == C: C = r.randint(1, 12)
            base, ns = c.name(), c.prefix + r.choice(["", "x", "robot1", "A_b"])
            lay = RowMajor if rm else ColMajor
            safe = r.random() < 0.5
            c.case(f"factory {NAME[dt]} {'row' if rm else 'col'} {R}x{C} python server={py_server} safe={safe} names {ns}/{base}")
            def check(what, got, want):
                c.eval((dt, rm, py_server, what, safe), True)
                c.count("checks")
                if got != want:
                    c.fail("factory:" + what, f"{what} is {got!r}, should be {want!r}")
            if py_server:
                kw = dict(n_rows=R, n_cols=C, basename=base, namespace=ns, verbose=False, vlevel=VLevel.V0, safe=safe, force_reconnection=False, dtype=PD[dt], layout=lay)
                s = ServerFactory(*kw.values()) if r.random() < 0.5 else ServerFactory(**kw)
                check("server running before run", s.isRunning(), False)
                s.run()
                check("server running", s.isRunning(), True)
                check("server rows", s.getNRows(), R)
                check("server cols", s.getNCols(), C)
                check("server type", s.getScalarType(), PD[dt])
                check("server namespace", s.getNamespace(), ns)
                check("server basename", s.getBasename(), base)
                check("no clients yet", s.getNClients(), 0)
                srv = None
            else:
                srv = Peer(True, dt, rm, base, ns, R, C, safe=True)
                srv.start()
            kw = dict(basename=base, namespace=ns, verbose=False, vlevel=VLevel.V0, safe=safe, dtype=PD[dt], layout=lay)
            k = ClientFactory(*kw.values()) if r.random() < 0.5 else ClientFactory(**kw)
            check("client attached before", k.isRunning(), False)
            k.attach()
            check("client attached", k.isRunning(), True)
            check("client rows", k.getNRows(), R)
            check("client cols", k.getNCols(), C)
            check("client type", k.getScalarType(), PD[dt])
            check("client namespace", k.getNamespace(), ns)
            check("client basename", k.getBasename(), base)
            check("one client", s.getNClients() if py_server else srv.nclients(), 1)
            # the type and layout asked for are the ones in the shared tensor: a C++ endpoint agrees on them
            p = Peer(False, dt, rm, base, ns)
            ok, ex = attempt(p.start)
            check("C++ client of that type and layout", ex, None)
            check("C++ dims", (p.rows(), p.cols()), (R, C))
            check("two clients", s.getNClients() if py_server else srv.nclients(), 2)
            odt, orm = r.choice([(d, rm) for d in range(4) if d != dt] + [(dt, not rm)])
            q = Peer(False, odt, orm, base, ns)
            ok, ex = attempt(q.start)
            check("C++ client of another type or layout refused", ex is not None, True)
            z = ClientFactory(basename=base, namespace=ns, dtype=PD[odt], layout=RowMajor if orm else ColMajor)
            ok, ex = attempt(z.attach)
            check("Python client of another type or layout refused", ex is not None, True)
            # the memory order is the one asked for: a block written here has the same values there
            a = np.array(rand_array(r, dt, R * C).reshape(R, C), order="C" if rm else "F")
            e = r.choice([s, k]) if py_server else k
            check("write", e.write(a, 0, 0), True)
            b = p.read((R, C), NP[dt])
            check("values in C++", b is not None and same(b, a), True)
            # safe or not
            p.acquire()
            for en, e in ([("server", s), ("client", k)] if py_server else [("client", k)]):
                check(f"{en} write while the lock is held (safe={safe})", e.write(a, 0, 0), not safe)
                check(f"{en} read while the lock is held (safe={safe})", e.read(np.zeros((R, C), NP[dt], order="C" if rm else "F"), 0, 0), not safe)
            p.release()
            for en, e in ([("server", s), ("client", k)] if py_server else [("client", k)]):
                if safe:
                    e.dataSemAcquire()
                    check(f"C++ excluded while {en} holds the lock", p.write(a, 0, 0), False)
                    e.dataSemRelease()
                check(f"C++ served after {en} released", p.write(a, 0, 0), True)
            # forced reconnection only when asked for
            if py_server:
                def second(force):
                    t = ServerFactory(n_rows=C, n_cols=R, basename=base, namespace=ns, safe=safe, force_reconnection=force, dtype=PD[dt], layout=lay)
                    t.run()
                    return t
                ok, ex = attempt(lambda: second(False))
                check("second server refused", ex is not None, True)
                check("first server undisturbed", (s.isRunning(), k.write(a, 0, 0)), (True, True))
                k.detach(); p.stop()
                check("no clients again", s.getNClients(), 0)
                if r.random() < 0.5:
                    s.stop()
                    check("stopped", s.isRunning(), False)
                    s.run()
                    check("running again", s.isRunning(), True)
                t, ex = attempt(lambda: second(True))
                check("forced server starts", (ex, t is not None and t.isRunning()), (None, True))
                if t is not None:
                    check("forced server's dims", (t.getNRows(), t.getNCols()), (C, R))
                    t.close()
                    check("closed", t.isRunning(), False)
                del t, s
            else:
                k.detach(); p.stop()
                check("no clients again", srv.nclients(), 0)
                srv.close()
            check("client detached", k.isRunning(), False)
            k.close()
            for x in (p, q, srv):
                if x: x.free()
            c.tick()
            if c.nfail > 20: return
    # what the factories do when arguments are left out
    base = c.name()
    s = ServerFactory(n_rows=2, n_cols=3, basename=base)
    s.run()
    k = ClientFactory(basename=base)
    k.attach()
    for e in (s, k):
        if (e.getNRows(), e.getNCols(), e.getScalarType(), e.getNamespace()) != (2, 3, dtype.Float, ""):
            c.fail("factory:defaults", f"defaults: {e.getNRows()}x{e.getNCols()} {e.getScalarType()} {e.getNamespace()!r}")
    k.close(); s.close()
    c.sample("getters, wiring of safe/force_reconnection/layout/dtype, positional and named arguments")

ALPH = ["a", "b", "Z", "0", " ", "\t", "\n", "é", "ß", "中", "😀", "\x01", "\x7f", "/"]
def rstr(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 20, 100, 1024]) if r.random() < 0.8 else r.randint(0, 1024)
    s = ""
    if r.random() < 0.6:
        s = "".join(r.choice("abcXYZ_ 019") for _ in range(n))
    else:
        while True:
            ch = r.choice(ALPH)
            if len((s + ch).encode()) > n: break
            s += ch
    return s

def strings(c):
    r = c.rng
    for it in range(c.scale(40, 250)):
        L = r.choice([1, 2, 3, 5, 9]) if it % 20 != 10 else r.randint(100, 600)
        base, ns = c.name(), c.prefix + r.choice(["", "s"])
        c.case(f"strings {L} names {ns}/{base}")
        s = StringTensorServer(length=L, basename=base, name_space=ns, safe=True) if r.random() < 0.5 else StringTensorServer(L, base, ns, False, VLevel.V0, False, True)
        k = StringTensorClient(basename=base, name_space=ns) if r.random() < 0.5 else StringTensorClient(base, ns, False, VLevel.V0, True)
        if s.isRunning() or k.isRunning():
            c.fail("running", "running before run()")
        s.run(); k.run()
        for e in (s, k):
            if (e.isRunning(), e.length(), e.getNamespace(), e.getBasename()) != (True, L, ns, base):
                c.fail("getters", f"{(e.isRunning(), e.length(), e.getNamespace(), e.getBasename())}")
        M = [""] * L
        def put(e, l, at):
            ok, ex = attempt(lambda: e.write_vec(l, at))
            fits = at >= 0 and at + len(l) <= L and all(len(x.encode()) <= 1024 for x in l)
            if (ok is True) != fits:
                c.fail("write_vec", f"write_vec of {len(l)} at {at} of {L} lengths {[len(x.encode()) for x in l]}: {ok} {ex!r}")
            if fits: M[at:at + len(l)] = l
            c.count("write_vec." + ("ok" if ok else "no"))
        put(s, [rstr(r) for _ in range(L)], 0)
        for step in range(c.scale(25, 50)):
            e = r.choice([s, k])
            op = r.randrange(5)
            c.note(f"{'server' if e is s else 'client'} op {op}")
            if op == 0:
                n = r.randint(1, L + 1)
                l = [rstr(r) for _ in range(n)]
                if r.random() < 0.1: l[r.randrange(n)] = "x" * r.choice([1025, 1028, 5000])
                put(e, l, r.randint(-1, L))
            elif op == 1:
                w, at = rstr(r) if r.random() < 0.9 else "y" * 1025, r.randint(-1, L)
                ok, ex = attempt(lambda: e.write_str(w, at))
                fits = 0 <= at < L and len(w.encode()) <= 1024
                if (ok is True) != fits:
                    c.fail("write_str", f"write_str of {len(w.encode())} bytes at {at} of {L}: {ok} {ex!r}")
                if fits: M[at] = w
                c.count("write_str." + ("ok" if ok else "no"))
            elif op == 2:
                n, at = r.randint(1, L + 1), r.randint(-1, L)
                old = [r.choice(["", "old", "z" * 40]) for _ in range(n)]
                l = list(old)
                ok, ex = attempt(lambda: e.read_vec(l, at))
                fits = at >= 0 and at + n <= L
                if (ok is True) != fits or l != (M[at:at + n] if fits else old):
                    c.fail("read_vec", f"read_vec of {n} at {at} of {L}: {ok} {ex!r} {l!r:.200} expected {(M[at:at + n] if fits else old)!r:.200}")
                c.count("read_vec." + ("ok" if ok else "no"))
            elif op == 3:
                at = r.randint(-1, L)
                res, ex = attempt(lambda: e.read_str(at))
                fits = 0 <= at < L
                if ex is not None and fits or ex is None and (res[1] is not fits or (fits and res[0] != M[at])):
                    c.fail("read_str", f"read_str({at}) of {L}: {res!r:.200} {ex!r}, expected {M[at] if fits else None!r:.200}")
                c.count("read_str." + ("ok" if res and res[1] else "no"))
            else:
                # the raw cells: what the same entry holds through the integer tensor below
                b = e.get_raw_buffer()
                m = e.get_shared_mem()
                n = np.zeros((m.getNRows(), m.getNCols()), np.int32)
                if b.dtype != np.int32 or b.shape != n.shape or b.shape[1] != L:
                    c.fail("raw", f"get_raw_buffer is {b.dtype} {b.shape}")
                x = rstr(r)
                b[...] = -1                                   # a copy: writing to it disturbs nothing
                if e.read_vec([""] * L, 0) is not True:
                    c.fail("raw", "reading after get_raw_buffer failed")
                c.count("raw")
            full = [""] * L
            o = k if e is s else s
            if o.read_vec(full, 0) is not True or full != M:
                c.fail("content", f"the other side sees {full!r:.300}, should be {M!r:.300}")
            one = r.randrange(L)
            if o.read_str(one) != (M[one], True):
                c.fail("content", f"read_str({one}) on the other side: {o.read_str(one)!r:.200}")
            c.eval((op, L, tuple(len(x) % 4 for x in M), e is s), True)
            if c.nfail > 20: return
        if e.read_vec([], 0) is not False:
            c.fail("empty", "read_vec([]) did not report failure")
        m = k.get_shared_mem()
        n = m.getNRows(), m.getNCols(), m.getBasename()
        k.close(); s.close()
        if s.isRunning() or k.isRunning():
            c.fail("running", "running after close()")
        del k, e, o                                           # what was handed out outlives the endpoint it came from
        if (m.getNRows(), m.getNCols(), m.getBasename()) != n:
            c.fail("lifetime", "the memory handed out died with its string tensor")
        del m
    c.sample("ASCII, multi-byte and empty strings, lists at every position")

def trigger(c):
    r = c.rng
    for it in range(c.scale(5, 30)):
        base, ns, n = c.name(), c.prefix + "t", r.randint(1, 3)
        rounds = r.randint(5, 25)
        c.case(f"trigger {n} consumers {rounds} rounds")
        plan = [[r.random() < 0.3 for _ in range(n)] for _ in range(rounds)]     # who waits too long before acknowledging
        p = Producer(base, ns, False, VLevel.V0, False)
        p.run()
        pipes, pids = [], []
        rd, wr = os.pipe()
        for i in range(n):
            pid = os.fork()
            if pid == 0:
                st = 50
                try:
                    vfpy.die_with_parent()
                    q = Consumer(base, ns, False, VLevel.V0)
                    q.run()
                    os.write(wr, b"r")
                    for k in range(rounds):
                        if q.wait(20000) is not True: st = 51; break
                        if plan[k][i]: time.sleep(0.03)
                        q.ack()
                        os.write(wr, b"a")
                    else:
                        st = 0 if q.wait(30) is False else 52
                    q.close()
                except Exception as e:
                    sys.stderr.write(f"consumer: {e!r}\n")
                    st = 53
                os._exit(st)
            pids.append(pid)
        got = b""
        while len(got) < n: got += os.read(rd, 1)
        for k in range(rounds):
            c.note(f"round {k}")
            if p.wait_ack_from(n, 5) is not False:
                c.fail("early", f"round {k}: wait_ack_from succeeded before the trigger")
            t0 = time.time()
            p.trigger()
            ok = False
            while time.time() - t0 < 20 and not ok:
                ok = p.wait_ack_from(n, r.choice([1, 5, 50, 1000]))
                c.tick()
            if ok is not True:
                c.fail("ack", f"round {k}: no acknowledgement from {n} consumers")
                break
            c.eval(("round", n, k, tuple(plan[k])), True)
            c.count("rounds")
        if p.wait_ack_from(1, 10) is not False:
            c.fail("extra", "an acknowledgement too many")
        for i, pid in enumerate(pids):
            t0 = time.time()
            while True:
                w, st = os.waitpid(pid, os.WNOHANG)
                if w or time.time() - t0 > 30: break
                time.sleep(0.005)
                c.tick()
            if not w: os.kill(pid, 9); os.waitpid(pid, 0)
            if not w or st != 0:
                c.fail("consumer", f"consumer {i} ended with {'no answer' if not w else os.waitstatus_to_exitcode(st)} (51 wait failed, 52 extra trigger, 53 error)")
        p.close()
        os.close(rd); os.close(wr)
        if c.nfail: return
    c.sample("rounds of trigger, wait, ack, wait_ack_from between processes")

vfpy.run_main([("blocks", 8, 32, blocks, 30), ("refuse", 4, 8, refuse, 30), ("factory", 4, 8, factory, 30), ("far", 2, 8, far, 30), ("large", 2, 8, large, 30), ("strings", 4, 8, strings, 30), ("trigger", 2, 4, trigger, 40)])
