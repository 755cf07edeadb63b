"""Engine of C19: effects of every function of the library, from the IR of every harness (which between
them instantiate the library) and from the syntax tree for what is never instantiated."""
import glob, json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import astlib, check as C
NOT_REENTRANT = set("localtime gmtime asctime ctime strtok setlocale rand srand random srandom drand48 lrand48 srand48 strerror tmpnam tempnam setenv unsetenv putenv clearenv tzset mktime getdate signal alarm umask chdir localeconv fesetround fesetenv sync_with_stdio set_terminate".split())

def check(pid, spec):
    t0 = time.time(); repo = os.path.realpath(C.REPO) + "/"
    tmp = tempfile.mkdtemp(prefix="verif-" + pid + "-")
    try:
        runs = [dict(harness=os.path.basename(h)[:-4], entries=1, flags=fl, select="", classes="")
                for h in sorted(glob.glob(C.HERE + "/harness/C*.cpp")) for fl in ([], ["-DDEBUG"]) if not fl or os.path.basename(h) in ("C07.cpp", "C15.cpp", "C19.cpp")]
        with ThreadPoolExecutor(8) as ex:
            mods = list(ex.map(lambda r: C.build(pid, r, tmp)[0], runs))
        p = subprocess.run([C.HERE + "/build/effects", repo] + mods, capture_output=True, text=True)
        if p.returncode:
            C.broken(pid, "effects: " + p.stderr[-500:])
        j = json.loads(p.stdout)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    try:
        docs = astlib.dump(repo.rstrip("/"))
    except RuntimeError as e:
        C.broken(pid, str(e))
    defined = astlib.functions(docs, repo)
    seen = set()
    for f in j["functions"]:
        m = re.search(r" @ (\S+):(\d+)$", f)
        if m:
            seen.add((os.path.normpath(m.group(1)), int(m.group(2))))
    rest = {k: v for k, v in defined.items() if k not in seen}
    viols = [dict(kind=v["rule"].upper(), msg=v["msg"], loc=v["loc"], fn=v["fn"], entry=v["fn"], cell="", stack=v["loc"]) for v in j["violations"]]
    und = [f"{v['rule']}: {v['msg']} at {v['loc']} in {v['fn'][:120]}" for v in j["undecided"]]
    statics = {}  # every variable with static storage in the library
    def var(n, ps):
        if n.get("kind") != "VarDecl": return
        fl, ln = astlib.loc(n)
        if not os.path.normpath(fl).startswith(repo): return
        in_func = any(p.get("kind") in astlib.FUNCS or p.get("kind") == "LambdaExpr" for p in ps)
        if in_func and n.get("storageClass") != "static": return
        t = n.get("type", {}).get("qualType", "")
        const = n.get("constexpr") or re.search(r"\bconst\b(?!.*\*)(?!.*&)|\*\s*const\b", t)
        kind = "thread-local" if n.get("tls") else "constant" if const else "variable"
        statics[(os.path.normpath(fl), ln, n.get("name", ""))] = (kind, n.get("id"))
    for d in docs:
        astlib.walk(d, var)
    ids = {v[1]: k for k, v in statics.items() if v[0] == "variable"}
    # functions no harness instantiates: judged on the syntax tree
    def raw(n, ps):
        if n.get("kind") in astlib.FUNCS:
            fl, ln = astlib.loc(n); key = (os.path.normpath(fl), ln)
            if key not in rest: return
            def use(m, qs):
                ref = (m.get("referencedDecl") or {})
                if m.get("kind") in ("DeclRefExpr", "MemberExpr") and ref.get("id") in ids:
                    und.append(f"shared-write: {n.get('name')} (never instantiated) uses the shared variable {ids[ref['id']][2]} at {fl}:{ln}")
                nm = ref.get("name") if m.get("kind") == "DeclRefExpr" else m.get("name") if m.get("kind") == "UnresolvedLookupExpr" else None
                if nm in NOT_REENTRANT:
                    viols.append(dict(kind="NOT-REENTRANT", msg=f"calls {nm}, which is not safe to call from several threads", loc=f"{fl}:{ln}", fn=n.get("name", ""), entry=n.get("name", ""), cell="", stack=""))
            astlib.walk(n, use)
    for d in docs:
        astlib.walk(d, raw)
    und = sorted(set(und))
    n_f = j["repo_functions"] + len(rest)
    cov = dict(obligations=n_f + j["const_promises"] + len(statics), functions=sorted(j["functions"]),
               functions_judged_on_syntax_only=sorted(f"{v} @ {k[0]}:{k[1]}" for k, v in rest.items()),
               static_variables={f"{k[0]}:{k[1]} {k[2]}": v[0] for k, v in sorted(statics.items())}, ir_statics=j["statics"],
               stores_examined=j["stores"], calls_examined=j["calls"], const_promises=j["const_promises"],
               rule_instances={"no write to a shared variable outside its guarded initialisation": j["stores"], "no call of a function that is not thread-safe": j["calls"],
                               "const members and const parameters are not written through": j["const_promises"]})
    cov["discharged"] = cov["obligations"] - len(und) - len(viols)
    if j["repo_functions"] < 300 or j["stores"] < 500:
        C.broken(pid, f"only {j['repo_functions']} functions and {j['stores']} stores found")
    return C.finish(pid, spec, cov, viols, und, [], t0, lambda v: any(k[0] in v["msg"] and k[1] in v["fn"] for k in C.known(pid)),
                    "build/effects <repo> <module.bc>... + clang -ast-dump (driven by effects_check.py)",
                    ["clang 18 front end", "/verif/tool/effects.cpp: effect summaries; const qualification of external C++ functions is believed; table of C functions"])
