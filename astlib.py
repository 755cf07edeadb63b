"""The library's syntax tree (clang), with the line numbers the dump leaves out put back."""
import json, os, re, subprocess, tempfile
CLANG = "/usr/lib/llvm-18/bin/clang++"
def dump(repo, flags=(), sources=None):
    """[(top-level declaration, ...)] of namespace ngpt as seen from every header and source of the tree"""
    hdrs = sorted(f for f in os.listdir(repo + "/src") if f.endswith((".hpp", ".h")))
    docs = []
    with tempfile.NamedTemporaryFile("w", suffix=".cpp", delete=False) as t:
        t.write("".join(f'#include "{h}"\n' for h in hdrs))
    try:
        for src in [t.name] + sorted(repo + "/src/" + f for f in os.listdir(repo + "/src") if f.endswith(".cpp")):
            p = subprocess.run([CLANG, "-std=c++17", "-w", "-Wno-invalid-constexpr", "-I" + repo + "/src", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=ngpt", *flags, src], capture_output=True, text=True)
            if p.returncode:
                raise RuntimeError(p.stderr[:800])
            docs += split(p.stdout)
    finally:
        os.unlink(t.name)
    return docs
def split(s):
    d = json.JSONDecoder(); i = 0; out = []; head = re.compile(r"\s*(Dumping [^\n]*:\n)?")
    while True:
        i = head.match(s, i).end()
        if i >= len(s):
            return out
        o, i = d.raw_decode(s, i)
        number(o); out.append(o)
def number(root):
    st = {"file": "", "line": 0}
    def go(o):
        if isinstance(o, list):
            for x in o:
                go(x)
        elif isinstance(o, dict):
            if "offset" in o and "tokLen" in o:
                if "file" in o: st["file"] = o["file"]
                if "line" in o: st["line"] = o["line"]
                o["file"], o["line"] = st["file"], st["line"]
            for k, x in list(o.items()):
                if isinstance(x, (dict, list)):
                    go(x)
    go(root)
def loc(n):
    l = n.get("loc", {})
    l = l.get("expansionLoc", l)
    return l.get("file", ""), l.get("line", 0)
def walk(n, fn, parents=()):
    fn(n, parents)
    for c in n.get("inner", []) or []:
        if isinstance(c, dict):
            walk(c, fn, parents + (n,))
FUNCS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl")
def functions(docs, repo):
    """every function defined under repo: {(file, line): name}"""
    out = {}
    def f(n, ps):
        if n.get("kind") in FUNCS and not n.get("isImplicit") and any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", []) or []):
            fl, ln = loc(n)
            if os.path.normpath(fl).startswith(repo):
                out[(os.path.normpath(fl), ln)] = n.get("name", "")
    for d in docs:
        walk(d, f)
    return out
