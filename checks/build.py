"""Builds the library's sources (as they are in the working tree) and the harnesses, by flavor,
into a content-addressed cache. Nothing is reused unless every input is identical."""
import concurrent.futures as cf
import fcntl, glob, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "EigenIPC")
HAR = os.path.join(VERIF, "harness")

COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-Wno-psabi"]
FLAVORS = {
    "plain": ["-O2", "-DNDEBUG"],
    "asan": ["-O1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    "dbg": ["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],   # with Eigen's assertions
    "tsan": ["-O1", "-DNDEBUG", "-fsanitize=thread"],
    "pic": ["-O1", "-DNDEBUG", "-fPIC", "-fno-gnu-unique"],
}
WRAPPED = ("shm_open shm_unlink ftruncate ftruncate64 mmap mmap64 munmap close sem_open sem_close sem_unlink "
           "sem_wait sem_trywait sem_timedwait sem_post nanosleep clock_nanosleep usleep "
           "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_wait pthread_cond_timedwait "
           "pthread_cond_signal pthread_cond_broadcast posix_fallocate fchmod sched_yield poll select").split()

FOLDED = "mmap mmap64 munmap".split()
def wrapmod(w):     # what interposes the OS calls: nothing, wrap.cpp (True) or the module named
    return [] if not w else ["wrap"] if w is True else [w]

def incs():
    eig = "/usr/include/eigen3"
    return ["-I" + os.path.join(SRC, "include"), "-I" + os.path.join(SRC, "src"), "-I" + eig, "-I" + HAR]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def filehash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()

def tree(d, exts):
    r = []
    for root, dirs, files in os.walk(d):
        dirs.sort()
        r += [os.path.join(root, f) for f in files if f.endswith(exts)]
    return r

class BuildError(Exception):
    pass

def repo_headers_hash():
    return filehash(tree(os.path.join(SRC, "include"), (".hpp", ".h", ".inl")) + tree(os.path.join(SRC, "src"), (".hpp", ".h", ".inl")))

def harness_headers_hash():
    return filehash(tree(HAR, (".hpp", ".h")))

_GXX = None
def gxx_id():
    global _GXX
    if _GXX is None:
        _GXX = subprocess.run(["g++", "--version"], capture_output=True, text=True).stdout.split("\n")[0]
    return _GXX

def _compile(src, flavor, key, extra=()):
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, f"{os.path.splitext(os.path.basename(src))[0]}-{flavor}-{key}.o")
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = f"{out}.{os.getpid()}.tmp"
    cmd = ["g++"] + COMMON + FLAVORS[flavor] + list(extra) + incs() + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(f"{' '.join(cmd)}\n{p.stderr[-4000:]}")
    os.rename(tmp, out)
    return out

def build(targets):
    """targets: list of (harness name, flavor, wrap?, other harness sources). Returns {(name, flavor): exe}."""
    rh, hh = repo_headers_hash(), harness_headers_hash()
    repo_src = sorted(glob.glob(os.path.join(SRC, "src", "*.cpp")))
    jobs = {}
    for name, flavor, wrap, more in targets:
        for s in repo_src:
            jobs[(s, flavor)] = sha("lib", gxx_id(), flavor, *FLAVORS[flavor], *COMMON, rh, filehash([s]))
        for m in [name] + list(more) + wrapmod(wrap):
            s = os.path.join(HAR, m + ".cpp")
            jobs[(s, flavor)] = sha("har", gxx_id(), flavor, *FLAVORS[flavor], *COMMON, rh, hh, filehash([s]))
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    prio = ["ep.cpp", "Server.cpp", "Client.cpp", "StringTensor.cpp"]
    order.sort(key=lambda j: prio.index(os.path.basename(j[0])) if os.path.basename(j[0]) in prio else 9)
    objs = {}
    with cf.ThreadPoolExecutor(int(os.environ.get("VF_JOBS", "8"))) as ex:
        futs = {ex.submit(_compile, s, fl, jobs[(s, fl)]): (s, fl) for s, fl in order}
        for f in cf.as_completed(futs):
            objs[futs[f]] = f.result()
    exes = {}
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    def link(t):
        name, flavor, wrap, more = t
        o = [objs[(os.path.join(HAR, m + ".cpp"), flavor)] for m in [name] + list(more) + wrapmod(wrap)]
        o += [objs[(s, flavor)] for s in repo_src]
        key = sha(*o)
        exe = os.path.join(BUILD, "bin", f"{name}-{flavor}-{key}")
        if not os.path.exists(exe):
            cmd = ["g++"] + FLAVORS[flavor] + o + ["-o", f"{exe}.{os.getpid()}.tmp", "-lrt", "-lpthread"]
            if wrap:
                cmd += ["-Wl," + ",".join("--wrap=" + w for w in (FOLDED if wrap == "fold" else WRAPPED))]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                raise BuildError(f"link {name}: {p.stderr[-4000:]}")
            os.rename(f"{exe}.{os.getpid()}.tmp", exe)
        else:
            os.utime(exe)
        return (name, flavor), exe
    with cf.ThreadPoolExecutor(4) as ex:
        for k, e in ex.map(link, targets):
            exes[k] = e
    prune()
    return exes

def build_peer():
    """C++ endpoints as a shared object for the Python harnesses."""
    rh, hh = repo_headers_hash(), harness_headers_hash()
    srcs = [(s, sha("lib", gxx_id(), *FLAVORS["pic"], *COMMON, rh, filehash([s]))) for s in glob.glob(os.path.join(SRC, "src", "*.cpp"))]
    srcs += [(s, sha("har", gxx_id(), *FLAVORS["pic"], *COMMON, rh, hh, filehash([s]))) for s in (os.path.join(HAR, "ep.cpp"), os.path.join(HAR, "pypeer.cpp"))]
    with cf.ThreadPoolExecutor(int(os.environ.get("VF_JOBS", "8"))) as ex:
        o = list(ex.map(lambda t: _compile(t[0], "pic", t[1]), sorted(srcs, reverse=True)))
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    so = os.path.join(BUILD, "bin", f"pypeer-{sha(*sorted(o))}.so")
    if not os.path.exists(so):
        p = subprocess.run(["g++", "-shared", "-Wl,-Bsymbolic"] + o + ["-o", f"{so}.{os.getpid()}.tmp", "-lrt", "-lpthread"], capture_output=True, text=True)
        if p.returncode:
            raise BuildError("link peer: " + p.stderr[-3000:])
        os.rename(f"{so}.{os.getpid()}.tmp", so)
    return so

def build_python():
    """The package, through the project's own CMake build. Returns the directory to put on PYTHONPATH."""
    files = [f for f in tree(SRC, (".hpp", ".cpp", ".py", ".txt", ".cmake", ".in", ".inl")) if "/tests/" not in f]
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(os.path.relpath(f, SRC).encode() + b"\0" + open(f, "rb").read())
    key = h.hexdigest()[:24]
    d = os.path.join(BUILD, "py", key)
    pp = os.path.join(d, "inst", "lib", "python3", "dist-packages")
    if os.path.exists(os.path.join(d, "ok")):
        os.utime(os.path.join(d, "ok"))
        return pp
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = dict(os.environ, CC="gcc", CXX="g++", PYTHONDONTWRITEBYTECODE="1")
    env.pop("CONDA_PREFIX", None)
    def sh(cmd):
        p = subprocess.run(cmd, capture_output=True, text=True, env=env)
        if p.returncode:
            raise BuildError(f"{' '.join(cmd)}\n{(p.stdout + p.stderr)[-4000:]}")
    sh(["cmake", "-S", SRC, "-B", os.path.join(d, "b"), "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DWITH_TESTS=OFF", "-DWITH_PYTHON=ON",
        "-DPYTHON_EXECUTABLE=/usr/bin/python3", "-DCMAKE_INSTALL_PREFIX=" + os.path.join(d, "inst"), "-Wno-dev"])
    sh(["ninja", "-C", os.path.join(d, "b"), "-j", os.environ.get("VF_JOBS", "8")])
    sh(["cmake", "--install", os.path.join(d, "b")])
    if not os.path.isdir(pp):
        c = glob.glob(os.path.join(d, "inst", "**", "EigenIPC", "__init__.py"), recursive=True) + glob.glob(os.path.join(d, "inst", "**", "PyEigenIPC*.so"), recursive=True)
        c = [os.path.dirname(os.path.dirname(x)) for x in c]
        if not c:
            raise BuildError("the Python package was not installed")
        pp = c[0]
        if pp != os.path.join(d, "inst", "lib", "python3", "dist-packages"):
            os.makedirs(os.path.join(d, "inst", "lib", "python3"), exist_ok=True)
            os.symlink(pp, os.path.join(d, "inst", "lib", "python3", "dist-packages"))
    shutil.rmtree(os.path.join(d, "b"), ignore_errors=True)
    open(os.path.join(d, "ok"), "w").close()
    old = sorted((os.path.getmtime(os.path.join(p, "ok")) if os.path.exists(os.path.join(p, "ok")) else 0, p) for p in glob.glob(os.path.join(BUILD, "py", "*")))
    for _, p in old[:-3]:
        shutil.rmtree(p, ignore_errors=True)
    return pp

def prune(limit=3 << 30):
    fs = []
    for d in ("obj", "bin"):
        for p in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(p)
                fs.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot <= limit or time.time() - m < 600:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s
