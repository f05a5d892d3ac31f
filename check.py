#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> [--thorough] [--replay FILE]

Builds the harnesses of the property from /repo's working tree (objects are cached under
/verif/build by content), explores, writes evidence/<ID>.json and prints VIOLATION lines."""
import sys, os, json, hashlib, subprocess, time, fcntl, shutil, glob, uuid, traceback, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
from table import HARNESS, PROPS

CFG = """#ifndef _SALTICIDAE_CONFIG_H
#define _SALTICIDAE_CONFIG_H
#define SALTICIDAE_NORMAL_LOG
#define SALTICIDAE_MSG_STAT
#define SALTICIDAE_CBINDINGS
#endif
"""

def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def read(p):
    with open(p, "rb") as f: return f.read()

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0"); h.update(read(p)); h.update(b"\0")
    return h.hexdigest()

def repo_files():
    out = []
    for sub in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, sub)):
            out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".cpp", ".c", ".in", ".inl", ".ipp", ".tcc"))]
    return out

def die(msg):
    print("check error: " + msg, file=sys.stderr); sys.exit(2)

def build(name):
    """returns the path of the harness binary"""
    H = HARNESS[name]
    kind = H["kind"]
    B = os.path.join(V, "build"); os.makedirs(B, exist_ok=True)
    headers = glob.glob(V + "/mc/*.h") + glob.glob(V + "/h/*.h")
    base = tree_hash([f for f in repo_files() if not f.endswith(".cpp")] + headers)
    gen = os.path.join(B, "gen"); os.makedirs(gen + "/salticidae", exist_ok=True)
    cfgp = gen + "/salticidae/config.h"
    if not os.path.exists(cfgp) or read(cfgp).decode() != CFG:
        tmp = cfgp + "." + uuid.uuid4().hex; open(tmp, "w").write(CFG); os.rename(tmp, cfgp)
    inc = ["-I" + gen, "-I" + gen + "/salticidae", "-I" + REPO + "/include", "-I" + V + "/mc", "-I" + V + "/h"]
    common = ["clang++", "-std=c++14", "-g1", "-fno-omit-frame-pointer", "-include", "cstdint", "-w"] + inc
    if kind == "mc":
        iflags = common + ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"] + H.get("defs", [])
        rflags = ["clang++", "-std=c++17", "-O2", "-g1", "-w", "-I" + V + "/mc"]
        rts = [("mc/rt.cpp", rflags), ("mc/simos.cpp", rflags)]
        link = ["clang++", "-no-pie", "-rdynamic"]; libs = ["-ldl", "-lpthread"]
    else:
        iflags = common + ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,null,vptr,pointer-overflow,nonnull-attribute,function", "-fno-sanitize-recover=undefined"] + H.get("defs", [])
        rts = [("mc/seq.cpp", common + ["-O1", "-fsanitize=address,undefined"])]
        link = ["clang++", "-fsanitize=address,undefined"]; libs = ["-lpthread"]
    jobs = []
    for s, fl in rts: jobs.append((V + "/" + s, fl))
    for s in H["srcs"]: jobs.append((V + "/h/" + s, iflags))
    if H.get("repo"):
        for s in sorted(glob.glob(REPO + "/src/*.cpp")): jobs.append((s, iflags))
    objs = []
    def one(job):
        src, fl = job
        key = hashlib.sha256((base + " ".join(fl)).encode() + src.encode() + read(src)).hexdigest()[:32]
        obj = os.path.join(B, "o-" + key + ".o")
        if not os.path.exists(obj):
            tmp = obj + "." + uuid.uuid4().hex
            r = sh(fl + ["-c", src, "-o", tmp])
            if r.returncode: return (None, src + "\n" + r.stdout[-6000:])
            os.rename(tmp, obj)
        else: os.utime(obj)
        return (obj, "")
    with cf.ThreadPoolExecutor(8) as ex:
        for o, e in ex.map(one, jobs):
            if o is None: die("cannot build harness %s: %s" % (name, e))
            objs.append(o)
    key = hashlib.sha256(" ".join(objs + link + libs + H.get("libs", [])).encode()).hexdigest()[:24]
    exe = os.path.join(B, name + "-" + key)
    if not os.path.exists(exe):
        tmp = exe + "." + uuid.uuid4().hex
        r = sh(link + objs + ["-o", tmp] + H.get("libs", []) + libs)
        if r.returncode: die("cannot link harness %s: %s" % (name, r.stdout[-4000:]))
        os.rename(tmp, exe)
    else: os.utime(exe)
    # keep the cache small
    fs = sorted(glob.glob(B + "/o-*.o") + [f for f in glob.glob(B + "/*-*") if not f.endswith(".o")], key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    for f in fs:
        if tot < 1500 << 20: break
        if time.time() - os.path.getmtime(f) > 3600:
            tot -= os.path.getsize(f)
            try: os.unlink(f)
            except OSError: pass
    return exe

def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    P = PROPS[pid]
    t0 = time.time()
    os.makedirs(V + "/evidence", exist_ok=True); os.makedirs(V + "/replays", exist_ok=True); os.makedirs(V + "/build", exist_ok=True)
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        name = os.path.basename(f).split("@")[0]
        sys.exit(subprocess.call([build(name), "--replay", f]))
    known = [k for k in json.load(open(V + "/known_findings.json")) if k["property"] == pid and k["status"] == "known"]
    kf = V + "/build/known-%s.tsv" % pid
    with open(kf, "w") as f:
        for k in known: f.write(k["scenario"] + "\t" + k["message"] + "\n")
    with cf.ThreadPoolExecutor(3) as ex:
        exes = dict(zip(P["harness"], ex.map(build, P["harness"])))
    tb = time.time() - t0
    res = []; viol = []
    capq = P.get("cap", 240)
    def run(name, pat, cap, tag):
        out = V + "/build/out-%s-%s%s.json" % (pid, name, tag)
        if os.path.exists(out): os.unlink(out)
        rdir = V + "/replays"
        cmd = [exes[name], "--prop", pid, "--cap", str(cap), "--out", out, "--replay-dir", rdir, "--known", kf, "--jobs", str(os.cpu_count() or 8)]
        if tier == "thorough": cmd.append("--thorough")
        if pat: cmd += ["--scen", "=" + pat]
        r = None
        for attempt in range(2):
            r = sh(cmd)
            if r.returncode in (0, 1): break
        if r.returncode not in (0, 1): die("harness %s failed (%d): %s" % (name, r.returncode, r.stdout[-2000:]))
        j = json.load(open(out)); j["harness"] = name
        os.unlink(out)
        if j["violation"]:
            v = j["violation"]
            p = v["replay"]; q = os.path.join(rdir, name + "@" + os.path.basename(p))
            if os.path.exists(p): os.replace(p, q)
            v["replay"] = q; viol.append(v)
        res.append(j)
    for name in P["harness"]:
        if tier == "quick": run(name, None, capq, "")
        else:
            r = sh([exes[name], "--list"])
            sc = [l.split(" ", 1)[1] for l in r.stdout.splitlines() if pid in l.split(" ", 1)[0]]
            per = max(20, P.get("cap_thorough", 3600) / max(1, len(sc)) / len(P["harness"]) * 2)
            end = time.time() + P.get("cap_thorough", 3600) / len(P["harness"])
            for s in sc:
                run(name, s, max(5, min(per, end - time.time())), "-t")
                if viol: break
        if viol: break
    scen = [dict(s, harness=j["harness"]) for j in res for s in j["scenarios"]]
    samples = []
    for s in scen:
        for x in s.get("samples", [])[:1]:
            samples.append({"scenario": s["name"], "case": x})
    step = max(1, len(samples) // 12)
    cov = {
        "states": sum(j["states"] for j in res),
        "transitions": sum(j["transitions"] for j in res),
        "traces_validated_against_impl": sum(j["executions"] - j.get("pruned", 0) for j in res),
        "executions_including_pruned": sum(j["executions"] for j in res),
        "inputs_evaluated": sum(j.get("inputs", 0) for j in res),
        "distinct_outcomes": sum(j.get("outcomes", 0) for j in res),
        "scenarios": len(scen),
        "exhaustive": not any(j["capped"] for j in res),
        "capped_scenarios": [{"name": s["name"], "completed_bound": s.get("completed_bound")} for s in scen if s["capped"]][:40],
        "bounds": P["bounds"],
        "by_scenario": [{k: s[k] for k in ("name", "harness", "bound", "completed_bound", "executions", "pruned", "states", "outcomes", "inputs") if k in s} for s in scen][:400],
        "samples": samples[::step][:12] or [{"scenario": s["name"], "case": "default schedule"} for s in scen[:3]],
        "build_s": round(tb, 1),
        "note": "the executions are executions of the implementation itself (no separate model): states are distinct explored states / execution-tree nodes at choice points, transitions are executed scheduler or operation steps, every unpruned execution is a trace of the real code checked to its end",
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
          "assumptions": P["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    tmp = V + "/evidence/.%s.%d" % (pid, os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, V + "/evidence/%s.json" % pid)
    for k in known:
        if any(s.get("known", 0) and k["scenario"] in s["name"] for s in scen):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d scenarios, %d executions, %d states, exhaustive=%s, %.1f s (build %.1f s)" % (pid, tier, len(scen), cov["executions_including_pruned"], cov["states"], cov["exhaustive"], time.time() - t0, tb))
    if viol:
        v = viol[0]
        print("  %s: %s" % (v["scenario"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException: traceback.print_exc(); sys.exit(2)
