"""What the Python harnesses share: one process per work item with a watchdog, the result files run.py
reads, a C++ peer endpoint (ctypes), and arrays whose memory ends at an inaccessible page."""
import ctypes, faulthandler, glob, hashlib, json, mmap, os, random, signal, struct, sys, time, traceback

class Ctx:
    def __init__(s, part, shard, nshards, seed, thorough, prefix, base, prog):
        s.part, s.shard, s.nshards, s.seed, s.thorough, s.prefix, s.base, s._p = part, shard, nshards, seed, thorough, prefix, base, prog
        s.rng = random.Random(int.from_bytes(hashlib.sha256(f"{seed}/{part}/{shard}".encode()).digest()[:8], "little"))
        s.evals, s.counters, s.samples, s.hashes, s.nfail, s._case, s._n, s._t = 0, {}, [], set(), 0, "", 0, []
        s._keys = {}
        s.out = open(base + ".jsonl", "w")
    def scale(s, quick, thorough):
        return thorough if s.thorough else quick
    def tick(s):
        s._p[0:8] = struct.pack("Q", struct.unpack("Q", s._p[0:8])[0] + 1)
    def patience(s, sec):
        s._p[8:16] = struct.pack("d", sec)
    def case(s, text):
        s._case = text
        s._t = []
        b = text.encode()[:3000]
        s._p[16:16 + len(b) + 1] = b + b"\0"
        s.tick()
    def note(s, text):
        s._t.append(text)
        if os.environ.get("VFTRACE"):
            sys.stderr.write(text + "\n")
        if len(s._t) > 60:
            del s._t[0]
        s.tick()
    def fail(s, key, msg):
        listed = key in os.environ.get("VF_KNOWN", "").split(",")      # listed findings: reported, but they do not end anything
        if not listed:
            s.nfail += 1
        s._keys[key] = s._keys.get(key, 0) + 1
        if s._keys[key] <= 5:
            s.out.write(json.dumps({"t": "known" if listed else "viol", "key": key, "msg": str(msg)[:1500], "case": s._case[:2000], "trace": "\n".join(s._t)[-3000:]}) + "\n")
            s.out.flush()
    def eval(s, h, nontrivial=True):
        s.evals += 1
        if nontrivial and len(s.hashes) < 400000:
            s.hashes.add(int.from_bytes(hashlib.sha256(repr(h).encode()).digest()[:8], "little"))
    def count(s, k, n=1):
        s.counters[k] = s.counters.get(k, 0) + n
    def sample(s, t):
        if len(s.samples) < 3:
            s.samples.append(t)
    def name(s):
        s._n += 1
        return f"{s.prefix}n{s._n}"
    def flush(s):
        s.out.write(json.dumps({"t": "stat", "evals": s.evals, "counters": s.counters, "samples": s.samples}) + "\n")
        s.out.flush()
        import array
        with open(s.base + ".hash", "wb") as f:
            array.array("Q", sorted(s.hashes)).tofile(f)

def shm_clean(prefix):
    if len(prefix) < 5:
        return
    for f in glob.glob("/dev/shm/*"):
        if prefix in os.path.basename(f):
            try:
                os.unlink(f)
            except OSError:
                pass

_libc = ctypes.CDLL(None, use_errno=True)
def die_with_parent():
    _libc.prctl(1, 9)

def run_main(parts):
    """parts: [(name, quick shards, thorough shards, fn, patience seconds)]"""
    a = sys.argv[1:]
    opt = {"--seed": "1", "--out": "/tmp", "--part": "", "--shard": "-1", "--jobs": "8"}
    thorough = "--thorough" in a
    a = [x for x in a if x != "--thorough"]
    for k, v in zip(a[::2], a[1::2]):
        opt[k] = v
    out, seed, only = opt["--out"], int(opt["--seed"]), [p for p in opt["--part"].split(",") if p]
    todo = []
    for p in parts:
        if only and p[0] not in only:
            continue
        n = p[2] if thorough else p[1]
        for i in range(n):
            if int(opt["--shard"]) in (-1, i):
                todo.append({"p": p, "i": i, "n": n, "tries": 0})
    todo.sort(key=lambda t: t["i"])
    res = open(out + "/results.jsonl", "w")
    rc, live, mypid = 0, [], os.getpid()
    enough, started = False, time.time()
    def prefix(t):
        return f"vf{mypid}p{parts.index(t['p'])}{'ab'[t['tries']]}s{t['i']}_"
    def launch(t):
        t["base"] = f"{out}/{t['p'][0]}.{t['i']}.{t['tries']}"
        t["prog"] = mmap.mmap(-1, 4096)
        t["prog"][8:16] = struct.pack("d", t["p"][4] * (2 if t["tries"] else 1))
        t["last"], t["t"], t["hung"] = -1, time.time(), False
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            st = 2
            try:
                os.setpgid(0, 0)
                die_with_parent()
                fd = os.open(t["base"] + ".err", os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND, 0o600)
                os.dup2(fd, 1); os.dup2(fd, 2); os.close(fd)
                faulthandler.enable()
                c = Ctx(t["p"][0], t["i"], t["n"], seed, thorough, prefix(t), t["base"], t["prog"])
                # nothing the library does may depend on these
                os.environ["TZ"] = ["UTC0", "VFE-3", "VFW5:30", "VFX-14"][t["i"] % 4]; time.tzset()
                os.umask([0o22, 0o77, 0, 0o27][t["i"] % 4])
                try:
                    t["p"][3](c)
                except Exception:
                    c.fail("exception", "unexpected exception: " + traceback.format_exc()[-1200:])
                c.flush()
                sys.stdout.flush()
                st = 1 if c.nfail else 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(st)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        t["pid"] = pid
        live.append(t)
    def note(t, kind, key, msg):
        err = open(t["base"] + ".err", errors="replace").read()[-2500:] if os.path.exists(t["base"] + ".err") else ""
        text = t["prog"][16:4000].split(b"\0")[0].decode(errors="replace")
        res.write(json.dumps({"t": kind, "part": t["p"][0], "shard": t["i"], "key": key, "msg": msg, "case": text, "trace": err}) + "\n")
        res.flush()
    while todo or live:
        if not enough and not thorough and time.time() - started > 90:
            if rc == 1 or any(os.path.exists(t["base"] + ".jsonl") and '"t": "viol"' in open(t["base"] + ".jsonl").read(2000) for t in live):
                enough, rc, todo = True, 1, []
                for t in live:
                    os.killpg(t["pid"], 9)
        while todo and len(live) < int(opt["--jobs"]):
            launch(todo.pop(0))
        for t in list(live):
            pid, st = os.waitpid(t["pid"], os.WNOHANG)
            if pid:
                live.remove(t)
                try:
                    os.killpg(t["pid"], 9)
                except OSError:
                    pass
                shm_clean(prefix(t))
                again = False
                if enough:
                    pass
                elif t["hung"]:
                    if t["tries"] == 0:
                        again = True
                    else:
                        note(t, "viol", "hang:" + t["p"][0], "no progress: the call hangs"); rc = 1
                elif os.WIFSIGNALED(st):
                    if os.WTERMSIG(st) == 9:
                        if t["tries"] == 0:
                            again = True
                        else:
                            note(t, "infra", "killed", "killed from outside"); rc = 2
                    else:
                        note(t, "viol", "crash:" + t["p"][0], f"process died with signal {os.WTERMSIG(st)}"); rc = 1
                elif os.WEXITSTATUS(st) > 1:
                    note(t, "infra", "harness", f"exit status {os.WEXITSTATUS(st)}"); rc = 2
                elif os.WEXITSTATUS(st) == 1 and rc != 2:
                    rc = 1
                if again:
                    t["tries"] += 1
                    launch(t)
                    continue
                res.write(json.dumps({"t": "item", "part": t["p"][0], "shard": t["i"], "base": t["base"]}) + "\n")
                res.flush()
                continue
            ticks, pat = struct.unpack("Qd", t["prog"][0:16])
            if ticks != t["last"]:
                t["last"], t["t"] = ticks, time.time()
            elif time.time() - t["t"] > pat and not t["hung"]:
                t["hung"] = True
                os.killpg(t["pid"], 9)
        time.sleep(0.003)
    res.close()
    os._exit(rc)

class Refuse:
    """every call of a method of a class is refused n times, while the clocks run on by hours and sleeps take no time"""
    def __init__(s, cls, meth, n, c, refusal=False, per=0.05):
        s.cls, s.meth, s.n, s.c, s.refusal, s.per, s.calls, s.ahead = cls, meth, n, c, refusal, per, 0, 0.0
    def __enter__(s):
        s.real = getattr(s.cls, s.meth)
        real, c = s.real, s.c
        def f(obj, *a, **k):
            s.calls += 1
            if s.calls <= s.n:
                s.ahead += s.per
                if s.calls % 4096 == 0: c.tick()
                return s.refusal
            return real(obj, *a, **k)
        setattr(s.cls, s.meth, f)
        s.t = {k: getattr(time, k) for k in ("time", "monotonic", "perf_counter", "sleep", "time_ns", "monotonic_ns", "perf_counter_ns")}
        for k in ("time", "monotonic", "perf_counter"): setattr(time, k, lambda g=s.t[k]: g() + s.ahead)
        for k in ("time_ns", "monotonic_ns", "perf_counter_ns"): setattr(time, k, lambda g=s.t[k]: g() + int(s.ahead * 1e9))
        def sleep(x): s.ahead += x
        time.sleep = sleep
        return s
    def __exit__(s, *a):
        setattr(s.cls, s.meth, s.real)
        for k, v in s.t.items(): setattr(time, k, v)

# ---- the C++ peer -----------------------------------------------------------------------------
_peer = None
def _lib():
    global _peer
    if _peer is None:
        L = ctypes.CDLL(os.environ["VF_PEER"])
        L.vp_new.restype = ctypes.c_void_p
        L.vp_new.argtypes = [ctypes.c_int] * 5 + [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
        L.vp_err.restype = ctypes.c_char_p
        for f in ("vp_call", "vp_free"):
            getattr(L, f).argtypes = [ctypes.c_void_p] + ([ctypes.c_int] if f == "vp_call" else [])
        L.vp_xfer.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p] + [ctypes.c_int] * 4
        _peer = L
    return _peer

F, D, I, B = 0, 1, 2, 3
class Peer:
    """A C++ endpoint of the library (server or client) living in this process."""
    def __init__(s, server, dt, row_major, base, ns, rows=0, cols=0, force=False, safe=True):
        s.p = _lib().vp_new(int(server), dt, int(row_major), rows, cols, base.encode(), ns.encode(), int(force), int(safe))
        if not s.p:
            raise RuntimeError(_lib().vp_err().decode(errors="replace"))
    def _c(s, op):
        r = _lib().vp_call(s.p, op)
        if r == -12345:
            raise RuntimeError(_lib().vp_err().decode(errors="replace"))
        return r
    def start(s): s._c(0)
    def stop(s): s._c(1)
    def close(s): s._c(2)
    def started(s): return bool(s._c(3))
    def nclients(s): return s._c(4)
    def rows(s): return s._c(5)
    def cols(s): return s._c(6)
    def acquire(s): s._c(7)
    def release(s): s._c(8)
    def write(s, arr, row=0, col=0):
        import numpy as np
        a = np.ascontiguousarray(arr)
        return _lib().vp_xfer(s.p, 1, a.ctypes.data, a.shape[0], a.shape[1], row, col) == 1
    def read(s, shape, dtype, row=0, col=0):
        import numpy as np
        a = np.zeros(shape, dtype)
        ok = _lib().vp_xfer(s.p, 0, a.ctypes.data, shape[0], shape[1], row, col) == 1
        return a if ok else None
    def free(s):
        if s.p:
            _lib().vp_free(s.p)
            s.p = None

# ---- memory at the edge of an inaccessible page --------------------------------------------------
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
class GuardBuf:
    """nbytes of zeroed memory whose end (or start) touches an inaccessible page"""
    def __init__(s, nbytes, at_end=True):
        pages = (nbytes + 4095) // 4096
        s.len = (pages + 2) * 4096
        s.map = _libc.mmap(None, s.len, 3, 0x22, -1, 0)
        _libc.mprotect(s.map, 4096, 0)
        _libc.mprotect(s.map + s.len - 4096, 4096, 0)
        s.addr = s.map + 4096 + (pages * 4096 - nbytes if at_end else 0)
        s.buf = (ctypes.c_char * nbytes).from_address(s.addr) if nbytes else b""
    def free(s):
        if s.map:
            _libc.munmap(s.map, s.len)
            s.map = None
