#!/usr/bin/env python3
"""check.py <property> : decide one property on the current tree of /repo.
exit 0: no violation (UNDECIDED lines name what the analysis could not settle)
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the analysis itself is broken (does not build, anchors vanished, nothing decided)"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
LLVM = "/usr/lib/llvm-18/bin/"
sys.path.insert(0, HERE)
from checks import CHECKS, TRUST

def broken(pid, msg):
    print(f"ANALYSIS-BROKEN property={pid} {msg}")
    sys.exit(2)

def build(pid, run, tmp):
    """harness + every library source of the current tree -> one bitcode module in SSA form"""
    tag = run["harness"] + "".join(re.sub(r"\W", "", f) for f in run["flags"])
    out = os.path.join(tmp, tag + ".bc")
    srcs = [os.path.join(HERE, "harness", run["harness"] + ".cpp")] + sorted(glob.glob(REPO + "/src/*.cpp"))
    flags = ["-std=c++17", "-Wno-invalid-constexpr", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-emit-llvm", "-c", "-w",
             "-I" + REPO + "/src", "-I" + HERE + "/harness"] + run["flags"]
    procs = []
    for i, s in enumerate(srcs):
        procs.append((s, subprocess.Popen([LLVM + "clang++"] + flags + [s, "-o", f"{tmp}/{tag}.{i}.bc"], stderr=subprocess.PIPE, text=True)))
    for s, p in procs:
        e = p.communicate()[1]
        if p.returncode:
            broken(pid, f"{s} does not compile: {e[:1500]}")
    for c in ([LLVM + "llvm-link"] + [f"{tmp}/{tag}.{i}.bc" for i in range(len(srcs))] + ["-o", f"{tmp}/{tag}.l.bc"],
              [LLVM + "opt", "-passes=mem2reg", f"{tmp}/{tag}.l.bc", "-o", out]):
        p = subprocess.run(c, capture_output=True, text=True)
        if p.returncode:
            broken(pid, f"{c[0]}: {p.stderr[:800]}")
    syms = subprocess.check_output([LLVM + "llvm-nm", "--defined-only", out], text=True)
    es = sorted({l.split()[-1] for l in syms.splitlines() if re.match(r"^\S+ T E_", l)})
    if run["select"]:
        es = [e for e in es if re.search(run["select"], e)]
    if len(es) < run["entries"]:
        broken(pid, f"{tag}: {len(es)} entry points found, {run['entries']} expected")
    return out, es

def known(pid):
    k = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) rule=\"([^\"]*)\" entry=(\S+) cell=\"([^\"]*)\" (.*)", l)
            if m and m.group(1) == pid:
                k.append(m.groups()[1:])
    except FileNotFoundError:
        pass
    return k

def abint_check(pid, spec):
    t0 = time.time()
    per = float(spec.get("time", 40 if TIER == "quick" else 200))
    deadline = t0 + (400 if TIER == "quick" else 820)
    tmp = tempfile.mkdtemp(prefix="verif-" + pid + "-")
    try:
        jobs = []
        for run in spec["runs"]:
            bc, es = build(pid, run, tmp)
            jobs += [(run, bc, e) for e in es]
        stop = threading.Event()
        procs = set()
        def one(job):
            run, bc, e = job
            if stop.is_set() or time.time() > deadline:
                return job, None
            o = f"{bc}.{e}.json"
            lim = max(1.0, min(per, deadline - time.time()))
            c = [HERE + "/build/abint", bc, "--entry", e, "--out", o, "--time", str(lim), "--seed", str(SEED), "--repo", REPO + "/"]
            c += ["--classes", run["classes"] or "TERM,ASSERT,OVF,DIVZERO,FPCAST,OOB"]
            p = subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            procs.add(p)
            try:
                err = p.communicate(timeout=lim + 60)[1]
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate()
                return job, {"timeout": True}
            finally:
                procs.discard(p)
            if p.returncode not in (0, 1):
                return job, None if stop.is_set() else {"error": f"abint exit {p.returncode}: {err[-500:]}"}
            j = json.load(open(o))
            if j["violations"]:
                new = [v for v in j["violations"] if not is_known(v)]
                if new:
                    stop.set()
                    for q in list(procs):
                        q.kill()
            return job, j
        kn = known(pid)
        def is_known(v):
            for rule, entry, cell, _ in kn:
                if rule in v["msg"] and entry == v["entry"] and cell in v["cell"]:
                    return True
            return False
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cov = dict(obligations=0, discharged=0, entries={}, rule_instances={}, functions=[], cells_analysed=0, abstract_steps=0, reached=[])
    viols, und, funcs, errors, unm = [], [], set(), [], {}
    for (run, bc, e), j in res:
        name = e + (" [" + " ".join(run["flags"]) + "]" if run["flags"] else "")
        if j is None or j.get("timeout"):
            cov["entries"][name] = "not analysed (stopped)"; cov["obligations"] += 1; und.append(name + ": not analysed"); continue
        if "error" in j:
            errors.append(name + ": " + j["error"]); continue
        s = j["entries"][e]
        tot = s["proved"] + s["refuted"] + s["undecided"]
        cov["entries"][name] = {"cells_proved": s["proved"], "cells_refuted": s["refuted"], "cells_undecided": s["undecided"], "cells_empty": s["empty"], "inputs": s["domain"]}
        cov["obligations"] += tot; cov["discharged"] += s["proved"]
        cov["cells_analysed"] += j["cells"]; cov["abstract_steps"] += j["steps"]
        for k, n in j["checks"].items():
            cov["rule_instances"][k] = cov["rule_instances"].get(k, 0) + n
        funcs.update(f.replace("\t", " @ ") for f in j["functions"])
        for k, n in j["unmodelled"].items():
            unm[k] = unm.get(k, 0) + n
        cov["reached"] = sorted(set(cov["reached"]) | set(j["reached"]))
        for v in j["violations"]:
            v["variant"] = run["flags"]; v["harness"] = run["harness"]; viols.append(v)
        if s["undecided"]:
            und.append(f"{name}: {s['undecided']} of {tot} cells undecided; " + (j["undecided"][0]["what"] + " e.g. " + j["undecided"][0]["example"] if j["undecided"] else "")[:300])
        if tot == 0:
            errors.append(name + ": vacuous (no feasible cell)")
    cov["functions"] = sorted(funcs)
    cov["unmodelled_calls"] = unm
    return finish(pid, spec, cov, viols, und, errors, t0, is_known,
                  "build/abint <module.bc> --entry <E_*> --classes <rules> (one process per entry, driven by check.py)", TRUST)

def finish(pid, spec, cov, viols, und, errors, t0, is_known, cmd, trust):
    cov["checker_cmd"] = cmd
    cov["trusted_base"] = trust + spec.get("trust", [])
    cov["undecided"] = und
    cov["samples"] = sorted(map(str, cov.get("rule_instances", {})))[:5]
    fresh = [v for v in viols if not is_known(v)]
    for v in viols:
        if is_known(v):
            print(f"KNOWN-FINDING: property={pid} {v['kind']}: {v['msg']} at {v['loc']} [{v.get('entry', '')} {v.get('cell', '')}]")
    os.makedirs(HERE + "/evidence", exist_ok=True)
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    if fresh:
        path = f"{HERE}/evidence/{pid}.violation.json"
        json.dump(fresh, open(path, "w"), indent=1)
        for v in fresh[:5]:
            print(f"{v['kind']}: {v['msg']}\n  at {v['loc']} in {v.get('fn', '')[:200]}\n  entry {v.get('entry', '')} for {v.get('cell', '')}\n  path {v.get('stack', '')[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    for e in errors:
        print("ERROR", e)
    if errors:
        broken(pid, errors[0])
    if not cov["discharged"]: # for example a text now produced in a way the models do not follow
        print(f"UNDECIDED property={pid} nothing was decided")
    for u in und:
        print(f"UNDECIDED property={pid} {u}")
    print(f"property={pid} obligations={cov['obligations']} discharged={cov['discharged']} functions={len(cov.get('functions', []))} wall={ev['wall_s']}s")
    return 0

def main():
    pid = sys.argv[1]
    spec = CHECKS[pid]
    p = subprocess.run(["bash", HERE + "/setup.sh"], capture_output=True, text=True)
    if p.returncode:
        broken(pid, "analyser does not build: " + p.stderr[-800:])
    fn = spec.get("engine")
    if fn:
        import importlib
        return importlib.import_module(fn).check(pid, spec)
    return abint_check(pid, spec)

if __name__ == "__main__":
    sys.exit(main())
