#!/usr/bin/env python3
"""run.py <property id> : builds what the check needs from the working tree, runs its monitored
workloads, judges what the monitors saw, and writes evidence/<id>.json.
Exit 0 held / 1 violation / 2 the check itself failed."""
import array, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=0:halt_on_error=0:history_size=4:second_deadlock_stack=1:suppressions=" + os.path.join(B.VERIF, "checks", "tsan.supp"),
}

def known():
    """known_findings.txt -> {property: [(key, text)]}"""
    r = {}
    p = os.path.join(B.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                r.setdefault(m[1], []).append((m[2], m[3]))
    return r

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier = replay["seed"], replay["tier"]
    chk = CHECKS[pid]
    kn = known().get(pid, [])
    t0 = time.time()
    runs = [r for r in chk["runs"] if not (tier == "quick" and r.get("thorough_only"))]
    cpp = [(r["harness"], r["flavor"], r.get("wrap", True), tuple(r.get("more", ("ep",)))) for r in runs if "harness" in r]
    try:
        exes = B.build(sorted(set(cpp))) if cpp else {}
        pp = peer = None
        if any("py" in r for r in runs):
            with cf.ThreadPoolExecutor(2) as ex:
                fp, fq = ex.submit(B.build_python), ex.submit(B.build_peer)
                pp, peer = fp.result(), fq.result()
    except B.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    tb = time.time()
    tmp = tempfile.mkdtemp(prefix="vfrun_")
    viols, infra, evals, counters, samples, hashes = [], [], 0, {}, [], set()
    try:
        for i, r in enumerate(runs):
            out = os.path.join(tmp, str(i))
            os.makedirs(out)
            label = r.get("harness") or r["py"]
            if viols and tier == "quick" and time.time() - tb > 150:
                continue
            if replay and (replay["run"] != label or replay["flavor"] != r.get("flavor", "py")):
                continue
            env = dict(os.environ, **ENV)
            env["VF_KNOWN"] = ",".join(k for k, _ in kn)
            env["VF_SUPP"] = os.path.join(B.VERIF, "checks")
            args = ["--seed", str(seed), "--out", out]
            if tier == "thorough":
                args.append("--thorough")
            if replay:
                args += ["--part", replay["part"], "--shard", str(replay["shard"])]
            elif r.get("parts"):
                args += ["--part", r["parts"]]
            if "harness" in r:
                cmd = [exes[(r["harness"], r["flavor"])]] + args
            else:
                env["PYTHONPATH"] = os.pathsep.join([pp, os.path.join(B.VERIF, "pyharness")])
                env["PYTHONDONTWRITEBYTECODE"] = "1"
                env["VF_PEER"] = peer
                for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
                    env[k] = "1"
                cmd = ["/usr/bin/python3", os.path.join(B.VERIF, "pyharness", r["py"] + ".py")] + args
            p = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL, stdout=open(os.path.join(out, "stdout"), "w"), stderr=subprocess.STDOUT)
            res = os.path.join(out, "results.jsonl")
            lines = open(res, errors="replace").read().splitlines() if os.path.exists(res) else []
            if not lines or p.returncode not in (0, 1):
                infra.append(f"{label}: exit {p.returncode}: {open(os.path.join(out, 'stdout'), errors='replace').read()[-1500:]}")
            for l in lines:
                o = json.loads(l)
                base = {"run": label, "flavor": r.get("flavor", "py"), "part": o.get("part"), "shard": o.get("shard")}
                if o["t"] == "viol":
                    viols.append({**base, **o})
                elif o["t"] == "infra":
                    infra.append(f"{label}/{o['part']}.{o['shard']}: {o['msg']} {o.get('trace','')[-500:]}")
                elif o["t"] == "item":
                    jf = o["base"] + ".jsonl"
                    for q in open(jf, errors="replace") if os.path.exists(jf) else []:
                        try:
                            q = json.loads(q)
                        except ValueError:
                            continue
                        if q["t"] in ("viol", "known"):
                            viols.append({**base, **q})
                        else:
                            evals += q["evals"]
                            for k, v in q["counters"].items():
                                k = f"{o['part']}.{k}"
                                counters[k] = counters.get(k, 0) + v
                            if len([s for s in samples if s.startswith(o["part"])]) < 2:
                                samples += [f"{o['part']}: {s}" for s in q["samples"][:1]]
                    hf = o["base"] + ".hash"
                    if os.path.exists(hf):
                        a = array.array("Q")
                        a.frombytes(open(hf, "rb").read())
                        hashes.update((label, x) for x in a)
    finally:
        if os.environ.get("VF_KEEP"):
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    rdir = os.path.join(B.BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    new, hit = [], set()
    for v in viols:
        k = next((k for k, _ in kn if k == v["key"]), None)
        if k:
            hit.add(k)
        else:
            new.append(v)
    for k, text in kn:
        if k in hit:
            print(f"KNOWN-FINDING: property={pid} {text} [{k}]")
    seen = {}
    for v in new:
        seen.setdefault(v["key"], []).append(v)
    for n, (k, vs) in enumerate(seen.items()):
        v = vs[0]
        path = os.path.join(rdir, f"{pid}-{re.sub(r'[^A-Za-z0-9_.-]', '_', k)[:60]}-{seed}.json")
        json.dump({"property": pid, "seed": seed, "tier": tier, "occurrences": len(vs), **v}, open(path, "w"), indent=1)
        if n < 12:
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  [{v['run']}/{v['flavor']} {v['part']}.{v['shard']}] {k} x{len(vs)}: {v['msg']}\n  case: {v['case'][:400]}\n  trace: {v['trace'][-1200:]}")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": chk["level"],
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": chk["rule"],
            "samples": samples or ["(none)"], "monitor_observations": counters,
            "known_findings_seen": sorted(hit),
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
    if not replay:
        json.dump(ev, open(os.path.join(os.environ.get("VF_EVIDENCE", os.path.join(B.VERIF, "evidence")), pid + ".json"), "w"), indent=1)
    for s in infra:
        print("CHECK ERROR:", s)
    print(f"{pid} {tier} seed={seed}: {evals} evaluations, {len(hashes)} distinct, {len(new)} violations, build {tb - t0:.0f}s, total {time.time() - t0:.0f}s")
    if new:
        return 1
    if infra or (evals == 0 and not replay):
        return 2
    return 0

sys.exit(main())
