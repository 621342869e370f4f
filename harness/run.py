#!/usr/bin/env python3
"""Runs the check of one property: builds its harness programs from /repo's
working tree, generates cases, shrinks and replays failures, writes evidence.

  run.py <ID> quick|thorough
  run.py replay <replay file>
"""
import json, os, re, shutil, subprocess, sys, time, tempfile, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("FLECSPH_REPO", "/repo")
sys.path.insert(0, HERE)
from registry import CHECKS, PROFILES  # noqa

NCPU = 8
LIMIT = 700  # seconds after which a quick check stops searching and reports

def incs():
    r = REPO
    return ["-I" + HERE + "/lib", "-I" + HERE + "/shim", f"-I{r}/include", f"-I{r}/include/physics",
            f"-I{r}/include/physics/eos", f"-I{r}/mpisph", f"-I{r}/app/drivers/include", f"-I{r}/app/id_generators/include"]

def bins_of(check):
    out = []
    for b in check["bins"]:
        for d in b.get("dims", [0]):
            x = dict(b); x["dim"] = d
            x["key"] = os.path.splitext(os.path.basename(b["src"]))[0] + (f"_{d}d" if d else "") + b.get("tag", "")
            out.append(x)
    return out

def build(b, bdir):
    prof = PROFILES[b.get("profile", "plain")]
    exe = os.path.join(bdir, b["key"])
    env = dict(os.environ, OMPI_CXX="g++")
    for step in prof(b, exe, HERE, REPO, incs()):
        r = subprocess.run(step, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode:
            return None, " ".join(step) + "\n" + r.stdout[-6000:]
    return exe, ""

def launch_env(b):
    e = dict(os.environ)
    e.update(FLECSPH_KNOWN_STATICS=HERE + "/globals.txt", OMP_NUM_THREADS=str(b.get("omp", 1)), LC_ALL="C.UTF-8",
             ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
             UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98",
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
             OMPI_MCA_btl="self,vader,tcp", OMPI_MCA_btl_vader_single_copy_mechanism="none",
             OMPI_MCA_rmaps_base_oversubscribe="1", HDF5_USE_FILE_LOCKING="FALSE")
    e.update(b.get("env", {}))
    return e

def known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out

def run_check(pid, tier, seed):
    t0 = time.time()
    check = CHECKS[pid]
    bdir = os.path.join(VERIF, "build", f"{pid}.{os.getpid()}")
    os.makedirs(bdir, exist_ok=True)
    try:
        return _run(pid, tier, seed, check, bdir, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def _run(pid, tier, seed, check, bdir, t0):
    bl = bins_of(check)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        built = list(ex.map(lambda b: build(b, bdir), bl))
    for b, (exe, err) in zip(bl, built):
        if not exe:
            print(f"ERROR: harness {b['key']} does not build against the current tree\n{err}")
            return 2
    tb = time.time() - t0
    par = min(len(bl), check.get("parallel", 4))
    total = check.get("quick_s", 35) if tier == "quick" else check.get("thorough_s", 700)
    rounds = -(-len(bl) // par)
    each = max(5.0, total / rounds)
    def one(i):
        b = bl[i]; exe = built[i][0]
        tmp = os.path.join(bdir, b["key"] + ".tmp"); os.makedirs(tmp, exist_ok=True)
        out = os.path.join(bdir, b["key"] + ".json")
        w = max(1, b.get("workers", -(-NCPU // par)))
        cmd = [exe, "--seed", str(seed), "--workers", str(w), "--max-s", str(each), "--tier", tier,
               "--scale", str(b.get("scale", 6 if tier == "quick" else 1)), "--out", out, "--tmp", tmp]
        if b.get("props"):
            cmd += ["--prop", "," + ",".join(b["props"]) + ","]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True,
                               errors="replace", env=launch_env(b), timeout=max(60, min(each + 400, LIMIT - (time.time() - t0) if tier == "quick" else 1e9)), cwd=tmp)
        except subprocess.TimeoutExpired:
            try: # a failure was found but not shrunk in time
                res = json.load(open(out))
                if any(x["failed"] for x in res):
                    return b, res, ""
            except Exception:
                pass
            return b, None, "timed out"
        try:
            return b, json.load(open(out)), r.stdout
        except Exception as e:
            return b, None, f"rc={r.returncode} {e}\n" + r.stdout[-3000:]
    with cf.ThreadPoolExecutor(par) as ex:
        results = list(ex.map(one, range(len(bl))))
    evals = dist = nontriv = disc = 0
    samples, labels, viol, kf, parts = [], {}, [], [], []
    rc = 0
    for b, res, log in results:
        if res is None:
            print(f"ERROR: harness {b['key']} gave no result: {log}")
            return 2
        for r in res:
            evals += r["cases"]; dist += r["distinct"]; nontriv += r["nontrivial"]; disc += r["discarded"]
            parts.append({"program": b["key"], "property_function": r["name"], "cases": r["cases"], "nontrivial": r["nontrivial"],
                          "distinct_nontrivial": r["distinct"], "discarded": r["discarded"], "wall_s": round(r["wall"], 2), "longest_case_cpu_s": round(r["longest"], 2),
                          "labels": r["labels"]})
            for s in r["samples"][:2]:
                if len(samples) < 24: samples.append({"program": b["key"], "function": r["name"], "case": s})
            if r["failed"]:
                viol.append((b, r))
    lines = []
    rdir = os.path.join(VERIF, "replay")
    for b, r in viol:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{b['key']}-{r['name']}.json")
        json.dump({"property": pid, "program": b["key"], "function": r["name"], "choices": r["choices"], "message": r["msg"],
                   "case": r["text"], "shrink_steps": r["shrinks"], "seed": seed, "tier": tier,
                   "run": f"python3 {HERE}/run.py replay {path}"}, open(path, "w"), indent=1)
        exe = built[bl.index(b)][0]
        again = []
        for _ in range(3):
            again.append(replay_one(b, exe, r["name"], r["choices"], bdir, tier))
            if again[-1][0]:
                break
        if not any(a[0] for a in again):
            print(f"ERROR: failure of {b['key']}/{r['name']} is not reproducible ({[a[0] for a in again]}): {r['msg']}\n{r['text']}")
            lines.append({"function": r["name"], "program": b["key"], "message": r["msg"], "reproduced": False})
            rc = max(rc, 2) if rc != 1 else 1
            continue
        k = [f for f in known() if f.get("property") == pid and f.get("function") == r["name"] and re.search(f["match"], r["msg"])]
        if k:
            if k[0]["what"] not in kf:
                print(f"KNOWN-FINDING: property={pid} {k[0]['what']}")
                kf.append(k[0]["what"])
            continue
        print(f"--- {b['key']}/{r['name']}: {r['msg']}\n{r['text']}")
        print(f"VIOLATION property={pid} replay={path}")
        lines.append({"function": r["name"], "program": b["key"], "message": r["msg"], "replay": path})
        rc = 1
    for f in known():
        if f.get("property") == pid and f.get("always"):
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": check.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": dist, "rule": check["rule"], "samples": samples,
                       "nontrivial": nontriv, "discarded": disc, "parts": parts},
          "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2),
          "violations": lines, "assumptions": check.get("assumptions", [])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid} {tier}: {evals} cases, {dist} distinct non-trivial, {len(lines)} violation(s), {time.time()-t0:.1f}s (build {tb:.1f}s)")
    return rc

def replay_one(b, exe, name, choices, bdir, tier="quick"):
    f = tempfile.NamedTemporaryFile("w", dir=bdir, delete=False)
    f.write(" ".join(map(str, choices))); f.close()
    tmp = tempfile.mkdtemp(dir=bdir)
    try:
        r = subprocess.run([exe, "--prop", name, "--tier", tier, "--replay", f.name, "--tmp", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", env=launch_env(b), timeout=400, cwd=tmp)
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    return r.returncode == 1, r.stdout

def replay(path):
    d = json.load(open(path))
    check = CHECKS[d["property"]]
    b = [x for x in bins_of(check) if x["key"] == d["program"]][0]
    bdir = tempfile.mkdtemp(prefix="replay.", dir=os.path.join(VERIF, "build") if os.path.isdir(os.path.join(VERIF, "build")) else "/tmp")
    try:
        exe, err = build(b, bdir)
        if not exe:
            print("ERROR: does not build\n" + err); return 2
        bad, out = replay_one(b, exe, d["function"], d["choices"], bdir, d.get("tier", "quick"))
        print(out)
        if bad:
            print(f"VIOLATION property={d['property']} replay={path}")
        return 1 if bad else 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run_check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
