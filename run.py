#!/usr/bin/env python3
"""Builds the harnesses from /repo's working tree and runs the check of one property.

  run.py setup              build everything
  run.py check ID           quick or thorough (VERIF_TIER, or --thorough)
  run.py replay FILE        run again the case of a replay file
"""
import sys, os, json, hashlib, subprocess, time, glob, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CODD_REPO", "/repo")
BUILD = os.path.join(V, "build")
OUT = os.path.join(V, "out")
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS

BASE = ["-std=gnu++23", "-O2", "-D_NDEBUG", "-DNDEBUG", "-DCODD_VERIF", "-w", "-I" + REPO + "/src", "-I" + V + "/lib"]
VARIANTS = {
    "plain": [],
    "fat": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr", "-DVF_NOARENA", "-DVF_FATSTATE", "-UNDEBUG"],
    "debug": ["-O1", "-U_NDEBUG", "-UNDEBUG"],
    "count": ["-DVF_NOARENA", "-DVF_FATSTATE"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr", "-DVF_NOARENA", "-UNDEBUG"],
}
# objects of every engine harness besides its own; containers harnesses need less
def digest(files, extra):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]

def headers():
    return glob.glob(REPO + "/src/*.hpp") + glob.glob(REPO + "/src/*.h") + glob.glob(V + "/lib/*.hpp")

class BuildError(Exception):
    pass

def compile_one(src, flags, hdrs):
    key = digest(hdrs + [src], flags)
    obj = os.path.join(BUILD, os.path.basename(src)[:-4] + "-" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("%s does not compile:\n%s" % (src, r.stdout[:4000]))
        os.replace(tmp, obj)
    return obj

def build(names):
    """names: list of (harness, variant); returns {(harness,variant): path}"""
    os.makedirs(BUILD, exist_ok=True)
    hdrs = headers()
    lib = glob.glob(REPO + "/src/*.cpp")
    jobs, need = {}, {}
    with cf.ThreadPoolExecutor(8) as ex:
        for h, v in names:
            flags = BASE + VARIANTS[v]
            srcs = [V + "/src/" + h + ".cpp"]
            if h not in ("container_checks", "long_checks"):
                srcs.append(V + "/lib/mk.cpp")
            if v in ("plain", "debug"):
                srcs.append(V + "/lib/arena.cpp")
            if v == "count":
                srcs.append(V + "/lib/count.cpp")
            srcs += lib
            need[(h, v)] = srcs
            for s in srcs:
                if (s, v) not in jobs:
                    jobs[(s, v)] = ex.submit(compile_one, s, flags, hdrs)
        objs = {k: f.result() for k, f in jobs.items()}
    res = {}
    for (h, v), srcs in need.items():
        ol = [objs[(s, v)] for s in srcs]
        exe = os.path.join(BUILD, h + "-" + v + "-" + digest([], ol))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run(["g++"] + BASE + VARIANTS[v] + ol + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("link of %s fails:\n%s" % (h, r.stdout[:4000]))
            os.replace(tmp, exe)
        res[(h, v)] = exe
    return res

def env_for(variant, tmpdir):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0"
    e["UBSAN_OPTIONS"] = "abort_on_error=1:halt_on_error=1"
    e["VF_TMP"] = tmpdir
    return e

def known():
    """known findings that are still open: {(property, space, index): text}"""
    res = {}
    p = os.path.join(V, "known-findings.txt")
    for line in open(p):
        if line.startswith("known: "):
            kv = dict(x.split("=", 1) for x in line[7:].split("|")[0].split())
            res[(kv["property"], kv["space"].replace("~", " "), int(kv["index"]))] = line.split("|", 1)[1].strip()
    return res

def check(pid, tier):
    c = CHECKS[pid]
    t0 = time.time()
    parts = c["parts"]
    exes = build(sorted(set(parts)))
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tot = dict(cases=0, evaluations=0, distinct=0, nontrivial=0, states=0, transitions=0, traces=0, capped=0, stopped=0)
    spaces, samples, viol, rules = {}, [], [], []
    import tempfile, shutil
    for h, v in parts:
        tmpdir = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=OUT)
        o = os.path.join(tmpdir, "out.json")
        try:
            r = subprocess.run([exes[(h, v)], pid, tier, o], env=env_for(v, tmpdir), cwd=tmpdir)
            if r.returncode not in (0, 1) or not os.path.exists(o):
                print("check of %s: harness %s/%s failed with status %d" % (pid, h, v, r.returncode)); return 2
            d = json.load(open(o, encoding="utf-8", errors="replace"))
        finally:
            shutil.rmtree(tmpdir, ignore_errors=True)
        for k in tot: tot[k] += d[k]
        for k, n in d["spaces"].items(): spaces[k + {"plain": "", "asan": " (sanitizers)", "fat": " (sanitizers, states that own memory)", "count": "", "debug": " (diagnostics on)"}[v]] = n
        samples += d["samples"][:6]
        if d["rule"] not in rules: rules.append(d["rule"])
        for x in d["violations"]:
            x.update(harness=h, variant=v); viol.append(x)
        if any(x["kind"] == "hang" for x in d["violations"]): tot["stopped"] = 1; break   # the other parts would wait as long
    kn = known()
    news, olds = [], []
    for x in viol:
        (olds if (pid, x["space"], x["index"]) in kn else news).append(x)
    for x in olds:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, x["space"], x["index"])]))
    for n, x in enumerate(news):
        f = os.path.join(OUT, "%s-%d.json" % (pid, n))
        x["property"] = pid; x["tier"] = tier
        json.dump(x, open(f, "w"), indent=1)
        print("%s: %s" % (x["kind"], x["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    # what the run covered: every count is the harness's own, measured in this run
    cov = {"spaces": spaces, "samples": samples, "exhaustive": not tot["stopped"], "rule": "; ".join(rules)}
    if c["level"] == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
                   distinct_nontrivial=tot["distinct"])
    else:
        cov.update(evaluations=tot["evaluations"], distinct_nontrivial=tot["distinct"])
    # further counts, where they say something the ones above do not
    for name, n in (("executions", tot["evaluations"]), ("cases", tot["cases"])):
        if n not in cov.values(): cov[name] = n
    if tot["capped"]: cov["distinct_nontrivial_note"] = "the table of distinct outcomes filled up: a lower bound"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(news)}
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d executions, %d distinct non-trivial, %.1f s: %s" %
          (pid, tier, tot["cases"], tot["evaluations"], tot["distinct"], time.time() - t0,
           "%d violation(s)" % len(news) if news else "held on everything explored"))
    return 1 if news else 0

def replay(f):
    x = json.load(open(f))
    key = (x["harness"], x["variant"])
    exe = build([key])[key]
    import tempfile, shutil
    os.makedirs(OUT, exist_ok=True)
    tmpdir = tempfile.mkdtemp(prefix="vf-replay-", dir=OUT)
    try:
        r = subprocess.run([exe, x["property"], x["tier"], "/dev/null", "--replay", x["space"], str(x["index"]), str(x["from"])],
                           env=env_for(x["variant"], tmpdir), cwd=tmpdir)
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    return r.returncode

def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["setup"]:
            build(sorted({p for c in CHECKS.values() for p in c["parts"]})); print("built"); return 0
        if a[:1] == ["check"]:
            tier = "thorough" if "--thorough" in a else os.environ.get("VERIF_TIER", "quick")
            return check(a[1], tier)
        if a[:1] == ["replay"]:
            return replay(a[1])
    except BuildError as e:
        print(e); return 2
    print(__doc__); return 2
sys.exit(main())
