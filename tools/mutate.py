#!/usr/bin/env python3
"""Sensitivity campaign: small random edits of one source file of the code under
test, in scratch copies; which of them do the harnesses notice?

  mutate.py <file relative to /repo> <CHECK,CHECK..> <n> [seed] [seconds] [lines a-b]
Survivors (and mutants that do not build) are listed at the end.
"""
import os, random, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import registry
SRC = "/repo"
rel, checks, n = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
secs = float(sys.argv[5]) if len(sys.argv) > 5 else 8
rng = random.Random(seed)
lines = open(f"{SRC}/{rel}").read().split("\n")
lo, hi = 0, len(lines)
if len(sys.argv) > 6:
    lo, hi = (int(x) for x in sys.argv[6].split("-"))
PAR = int(os.environ.get("PAR", "8"))

def strip_comments(text):
    out, i, n = [], 0, len(text)
    while i < n:
        if text.startswith("//", i):
            j = text.find("\n", i); j = n if j < 0 else j
            out.append(" " * (j - i)); i = j
        elif text.startswith("/*", i):
            j = text.find("*/", i); j = n if j < 0 else j + 2
            out.append("".join(c if c == "\n" else " " for c in text[i:j])); i = j
        elif text[i] == '"':
            j = i + 1
            while j < n and text[j] != '"' and text[j] != "\n":
                j += 2 if text[j] == "\\" else 1
            j = min(j + 1, n)
            out.append('"' + "~" * (j - i - 2) + '"' if j - i >= 2 else text[i:j]); i = j
        else:
            out.append(text[i]); i += 1
    return "".join(out)
code = strip_comments("\n".join(lines)).split("\n")
OPS = [(r"(?<![-+e<>=*/&|])\+(?![+=])", "-"), (r"(?<![-+eE<>=(,*/&|])\s-(?![-=>])", " +"), (r"(?<=[\w\)\] ])\*(?=[ \w\(])", "/"), (r"(?<![/*])/(?![/*=])", "*"),
       (r"(?<![<\-])<(?![<=])(?=[^<>]*$|[^<>]*[;)&|])", "<="), (r"<=", "<"), (r"(?<![->])>(?![>=])(?=[^<>]*$|[^<>]*[;)&|])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="), (r"/=", "*="), (r"(?<!=)\+\+", "--"),
       (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])2(?![\w.])", "3"), (r"(?<![\w.])3(?![\w.])", "2"),
       (r"(?<![\w.])(\d+)\.(\d*)(?![\w])", None), (r"\.5\b", ".25"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"<<=?", ">>"), (r">>", "<<"), (r"(?<![&])&(?![&=])(?= )", "|"),
       (r"\bif ?\((?=.*\) ?\{?$)", "if(!"), (r"(?<=[\[(, ])i(?=[\]), ;])", "i+1"), (r"%", "/"), (r"\bi\b(?=\])", "0"), (r"\b(sqrt|fabs)\(", "(")]
cands = []
for k, l in enumerate(code):
    if not (lo <= k + 1 <= hi) or not l.strip() or l.strip().startswith("#") or re.search(r"\b(assert|log_\w+|clog\w*|static_assert|template|using|typedef|MPI_Datatype|printf|include|namespace|class|struct)\b", l):
        continue
    for pat, rep in OPS:
        for m in re.finditer(pat, l):
            if rep is None:
                r = "%s.%s" % (int(m.group(1)) + 1, m.group(2))
            else:
                r = rep
            new = lines[k][:m.start()] + r + lines[k][m.end():]
            if new != lines[k]:
                cands.append((k, new, f"{m.group(0).strip()} -> {r.strip()}"))
    if re.match(r"\s+[\w\.\[\]\->\(\)]+.*;\s*$", l) and not re.match(r"\s*(return|const|double|int|auto|static|point_t|bool|size_t|case|default|using|std::|extern|else)\b", l) and l.count("(") == l.count(")"):
        cands.append((k, "", "statement removed"))
        cands.append((k, "", "statement removed"))
rng.shuffle(cands)
seen, pick = set(), []
per = {}
for c in cands:
    if (c[0], c[1]) in seen or per.get(c[0], 0) >= 2:
        continue
    seen.add((c[0], c[1])); per[c[0]] = per.get(c[0], 0) + 1; pick.append(c)
    if len(pick) >= n:
        break

import importlib.util
def one(c):
    k, new, what = c
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        for x in ("include", "mpisph", "app"):
            shutil.copytree(f"{SRC}/{x}", f"{d}/{x}")
        ls = list(lines); ls[k] = new
        open(f"{d}/{rel}", "w").write("\n".join(ls))
        incs = ["-I" + V + "/harness/lib", "-I" + V + "/harness/shim", f"-I{d}/include", f"-I{d}/include/physics", f"-I{d}/include/physics/eos", f"-I{d}/mpisph", f"-I{d}/app/drivers/include", f"-I{d}/app/id_generators/include"]
        groups = {}
        for ck in checks:
            for b in registry.CHECKS[ck]["bins"]:
                for dd in b.get("dims", [0]):
                    key = (b["src"], dd, tuple(b.get("flags", [])), b.get("profile", "plain"))
                    g = groups.setdefault(key, dict(b, dim=dd, props=[]))
                    g["props"] = g["props"] + [p for p in b.get("props", []) if p not in g["props"]] if b.get("props") else None
        built = 0
        for g in groups.values():
            exe = d + "/exe"
            ok = True
            for step in registry.PROFILES[g.get("profile", "plain")](g, exe, V + "/harness", d, incs):
                if subprocess.run(step, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, OMPI_CXX="g++")).returncode:
                    ok = False
            if not ok:
                continue
            built += 1
            os.makedirs(d + "/t", exist_ok=True)
            cmd = [exe, "--seed", "1", "--workers", "1", "--max-s", str(secs), "--tier", "quick", "--scale", "1", "--out", d + "/o.json", "--tmp", d + "/t"]
            if g.get("props"):
                cmd += ["--prop", "," + ",".join(g["props"]) + ","]
            e = dict(os.environ, OMP_NUM_THREADS="1", LC_ALL="C.UTF-8", ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=98")
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=secs * 4 + 120, cwd=d + "/t")
                res = json.load(open(d + "/o.json"))
            except Exception as ex:
                return (k, what, "killed?", f"{g['src']} {g['dim']}: {type(ex).__name__}")
            bad = [x for x in res if x["failed"] and not re.search("min_dist is 0|is not noticed", x["msg"])]
            if bad:
                return (k, what, "killed", f"{g['src']} {g['dim']}d {bad[0]['name']}: {bad[0]['msg'][:90]}")
        return (k, what, "SURVIVED" if built == len(groups) else "survived/partly built" if built else "nobuild", "")
    finally:
        shutil.rmtree(d, ignore_errors=True)
tally, surv = {}, []
with cf.ThreadPoolExecutor(PAR) as ex:
    for c, r in zip(pick, ex.map(one, pick)):
        tally[r[2]] = tally.get(r[2], 0) + 1
        if "urviv" in r[2].lower() or os.environ.get("ALL"):
            surv.append((r, c))
print(rel, checks, tally, flush=True)
for r, c in sorted(surv, key=lambda x: x[0][0]):
    print(f"{r[2]} {r[0]+1}: [{r[1]}] {lines[r[0]].strip()[:110]}  =>  {c[1].strip()[:110]} {r[3]}")
