"""Engine of C14: which programs compile. Every (type, type, operator/conversion/call) cell is one static_assert on
its own line, decided by the type checkers of clang and gcc against the rules in cells(); what is documented to
work is also instantiated in full, one use per line."""
import itertools, json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import check as C
UNITS = "year month day_of_month day_of_year modified_julian_day gps_week hours minutes seconds milliseconds microseconds".split()
SEC = ["seconds", "milliseconds", "microseconds"]  # coarse to fine
DT = [f"datetime<{s}>" for s in SEC]
IV = [f"datetime_interval<{s}>" for s in SEC]
DATES = ["ymd_date", "ydoy_date"]
ALL = UNITS + DT + IV + DATES
ARITH = ["int", "long", "double"]
READERS = ["strptime_ymd", "strptime_ydoy", "strptime_ymd_hms", "strptime_yod_hms", "strptime_ydoy_hms"]
CMP = [("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")]
ADD = [("add", "+"), ("sub", "-"), ("mul", "*"), ("dv", "/"), ("mod", "%")]
CASG = [("pe", "+="), ("me", "-="), ("mue", "*="), ("de", "/=")]
EXPLICIT = UNITS[1:4] + UNITS[5:]  # declared explicit; year and Modified Julian Day accept a plain number

def finer(a, b): return a in SEC and b in SEC and SEC.index(a) > SEC.index(b)

CALLS = {  # name: (expression over a..., argument types, {position: other types also documented})
    "cal2mjd": ("cal2mjd(A...)", ["year", "month", "day_of_month"], {}),
    "ydoy2mjd": ("ydoy2mjd(A...)", ["year", "day_of_year"], {}),
    "dat(year,month)": ("dat(A...)", ["year", "month"], {}),
    "dat(mjd)": ("dat(A...)", ["modified_julian_day"], {0: DT}),
    "day_of_month::is_valid": ("day_of_month(1).is_valid(A...)", ["year", "month"], {}),
    "day_of_year::is_valid": ("day_of_year(1).is_valid(A...)", ["year"], {}),
    "ymd_date": ("ymd_date(A...)", ["year", "month", "day_of_month"], {}),
    "ydoy_date": ("ydoy_date(A...)", ["year", "day_of_year"], {}),
    "modified_julian_day(y,doy)": ("modified_julian_day(A...)", ["year", "day_of_year"], {}),
    "modified_julian_day(y,m,d)": ("modified_julian_day(A...)", ["year", "month", "day_of_month"], {}),
}
for i, s in enumerate(SEC):
    d, v, fin = DT[i], IV[i], SEC[i:]
    CALLS.update({
        f"{s}(h,m,s)": (f"{s}(A...)", ["hours", "minutes", s], {2: ["double"]}),
        f"{d}(y,m,d,s)": (f"{d}(A...)", ["year", "month", "day_of_month", s], {3: fin + ["hours"]}),
        f"{d}(y,m,d)": (f"{d}(A...)", ["year", "month", "day_of_month"], {}),
        f"{d}(y,doy,s)": (f"{d}(A...)", ["year", "day_of_year", s], {2: fin + ["hours"]}),
        f"{d}(y,doy)": (f"{d}(A...)", ["year", "day_of_year"], {}),
        f"{d}(y,m,d,h,m,s)": (f"{d}(A...)", ["year", "month", "day_of_month", "hours", "minutes", s], {5: fin + ["double"]}),
        f"{d}(y,doy,h,m,s)": (f"{d}(A...)", ["year", "day_of_year", "hours", "minutes", s], {4: fin + ["double"]}),
        f"{d}(mjd,s)": (f"{d}(A...)", ["modified_julian_day", s], {0: ["gps_week"], 1: ["hours"]}),
        f"{d}(mjd,h,m,s)": (f"{d}(A...)", ["modified_julian_day", "hours", "minutes", s], {}),
        f"{v}(mjd,s)": (f"{v}(A...)", ["modified_julian_day", s], {}),
        f"{d}::add_seconds": (f"std::declval<{d}&>().add_seconds(A...)", [s], {0: None}),
        f"{d}::remove_seconds": (f"std::declval<{d}&>().remove_seconds(A...)", [s], {0: None}),
        f"{d}::add": (f"std::declval<{d}&>().add(A...)", ["modified_julian_day", s], {1: fin}),
        f"{d}::delta_sec": (f"std::declval<{d}&>().delta_sec(A...)", [d], {}),
        f"{d}::delta_date": (f"std::declval<{d}&>().delta_date(A...)", [d], {}),
        f"delta_date({d})": ("delta_date(A...)", [d, d], {}),
        f"day_of_week({s})": ("day_of_week(A...)", [s], {0: SEC}),
    })
# position where the year or a Modified Julian Day is wanted accepts a plain number (implicit constructors)
OPEN = {"year", "modified_julian_day"}

USES = []  # documented uses, instantiated in full
for u in UNITS:
    a = f"{u} a(1), b(2);"
    USES += [f"{u} f() {{ {u} a(3); return a; }}", f"bool f() {{ {a} return a == b || a != b || a < b || a <= b || a > b || a >= b; }}",
             f"{u} f() {{ {a} a += b; a -= b; a += 1; a -= 2L; return a; }}", f"{u} f() {{ {a} ++a; a++; --a; a--; return a; }}",
             f"long f() {{ {u} a(3); return a.as_underlying_type(); }}", f"{u} f() {{ {u} a{{4}}; {u} b; b = a; return b; }}"]
    if u != "month": USES.append(f"{u} f() {{ {u} a; a = 5; return a; }}")
USES += ["year f() { year y = 2018; return y; }", 'month f() { month m("January"); return m; }', "modified_julian_day f() { modified_julian_day a(1), b(2); return a + b; }",
         "modified_julian_day f() { modified_julian_day a(1), b(2); return a - b; }", "double f() { return modified_julian_day(3).to_julian_day(); }",
         "ymd_date f() { return modified_julian_day(3).to_ymd(); }", "ydoy_date f() { return modified_julian_day(3).to_ydoy(); }", "bool f() { return year(2000).is_leap(); }",
         "bool f() { return month(3).is_valid() && day_of_month(3).is_valid(year(2000), month(2)) && day_of_year(3).is_valid(year(2000)); }",
         "ydoy_date f() { return ymd_date(year(2000), month(1), day_of_month(2)).to_ydoy(); }", "ymd_date f() { return ydoy_date(year(2000), day_of_year(2)).to_ymd(); }",
         "modified_julian_day f() { return cal2mjd(year(2000), month(1), day_of_month(2)); }", "modified_julian_day f() { return ydoy2mjd(year(2000), day_of_year(2)); }",
         "int f() { return dat(year(2000), month(1)) + dat(modified_julian_day(50000)); }", "int f() { hours h(30); return h.remove_days(); }", "hours f() { minutes m(90); return m.remove_hours(); }"]
for k, s in enumerate(SEC):
    D, V = DT[k], IV[k]; x = f"{D} a, b;"
    USES += [f"{s} f() {{ {s} a(3), b(4); return a + b; }}", f"{s} f() {{ {s} a(3), b(4); return a - b; }}", f"{s} f() {{ return {s}(hours(1), minutes(2), {s}(3)); }}", f"{s} f() {{ return {s}(hours(1), minutes(2), 3.5); }}",
             f"long f() {{ {s} a(3); bool m = a.more_than_day(); return a.remove_days() + a.to_days() + m; }}", f"double f() {{ {s} a(3); return a.fractional_days() + a.to_fractional_seconds(); }}",
             f"auto f() {{ return {s}(3).to_hmsf(); }}", f"bool f() {{ {x} return a == b || a != b || a < b || a <= b || a > b || a >= b; }}",
             f"{D} f() {{ return {D}(year(2000), month(1), day_of_month(2)); }}", f"{D} f() {{ return {D}(year(2000), day_of_year(2)); }}",
             f"{D} f() {{ return {D}(year(2000), month(1), day_of_month(2), hours(1), minutes(2), {s}(3)); }}", f"{D} f() {{ return {D}(year(2000), day_of_year(2), hours(1), minutes(2), {s}(3)); }}",
             f"{D} f() {{ return {D}(year(2000), month(1), day_of_month(2), hours(1), minutes(2), 3.5); }}", f"{D} f() {{ return {D}(year(2000), day_of_year(2), hours(1), minutes(2), 3.5); }}",
             f"{D} f() {{ return {D}(modified_julian_day(3), {s}(4)); }}", f"{D} f() {{ return {D}(modified_julian_day(3), hours(1), minutes(2), {s}(4)); }}", f"{D} f() {{ return {D}(gps_week(3), {s}(4)); }}",
             f"void f() {{ {x} a.add_seconds({s}(3)); a.remove_seconds({s}(3)); }}", f"{D} f() {{ {x} return a.add(modified_julian_day(1), {s}(3)); }}",
             f"{s} f() {{ {x} return a.delta_sec(b); }}", f"{V} f() {{ {x} return a.delta_date(b); }}", f"{V} f() {{ {x} return delta_date(a, b); }}", f"void f() {{ {x} a += a.delta_date(b); }}",
             f"double f() {{ {x} return a.as_mjd(); }}", f"ymd_date f() {{ {x} return a.as_ymd(); }}", f"ydoy_date f() {{ {x} return a.as_ydoy(); }}", f"gps_week f() {{ {x} long s; return a.as_gps_wsow(s); }}", f"gps_week f() {{ {x} {s} s; return a.as_gps_wsow(s); }}",
             f"auto f() {{ {x} return a.as_hmsf(); }}", f"std::string f() {{ {x} return a.stringify(); }}", f"{V} f() {{ return {V}(modified_julian_day(3), {s}(4)); }}",
             f"bool f() {{ {V} a, b; return a == b || a != b || a < b || a <= b || a > b || a >= b; }}", f"{V} f() {{ {V} a; return a / 2; }}", f"double f() {{ {V} a; return a.as_mjd() + a.days().as_underlying_type() + a.sec().as_underlying_type(); }}",
             f"int f() {{ {x} return dat(a); }}", f"auto f() {{ return day_of_week({s}(3)); }}", f"long f() {{ return max_days_allowed<{s}>(); }}", f"{s} f() {{ return mjd_sec_diff<{s}>(modified_julian_day(3), modified_julian_day(1)); }}",
             f"auto f() {{ return {D}::max() > {D}::min(); }}", f"std::string f() {{ {x} return strftime_ymd_hms(a, '/') + strftime_ymd_hmfs(a); }}"]
    USES += [f"{D} f() {{ return {r}<{s}>(\"2015-01-02 03:04:05\"); }}" for r in READERS]
    for t in SEC:
        USES += [f"{t} f() {{ return cast_to<{s}, {t}>({s}(3)); }}", f"datetime<{t}> f() {{ {D} a; return a.cast_to<{t}>(); }}", f"auto f() {{ {D} a; datetime<{t}> b; return delta_sec(a, b); }}"]
        if finer(s, t): USES += [f"{t} f() {{ return static_cast<{t}>({s}(3)); }}"]
        if finer(t, s): USES += [f"{D} f() {{ return {D}(year(2000), month(1), day_of_month(2), hours(1), minutes(2), {t}(3)); }}"]
USES += ["year f() { return 2000_Y; }", "month f() { return 2_M; }", "day_of_month f() { return 2_D; }", "hours f() { return 2_h; }", "minutes f() { return 2_m; }", "seconds f() { return 2_sec; }", "milliseconds f() { return 2_millisec; }", "microseconds f() { return 2_microsec; }"]

HEAD = '''#include <type_traits>
#include <utility>
#include <string>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "datetime_read.hpp"
#include "datetime_write.hpp"
#include "gnsstm.hpp"
using namespace ngpt;
'''

def cells():
    """(tag, condition, expected, documented rule)"""
    out = []
    def binop(n, op, a, b, want, why): out.append((f"{a} {op} {b}", f"has_{n}<{a}, {b}>::value", want, why))
    for a, b in itertools.permutations(ALL, 2):
        why = "different types do not mix"
        for n, op in CMP + ADD: binop(n, op, a, b, False, why)
        for n, op in CASG:
            pair = n == "pe" and a in DT and b == IV[DT.index(a)]
            if n == "me" and a in DT and b in IV: continue  # not documented either way
            binop(n, op, a, b, pair, "a datetime advances by an interval of its own resolution" if pair else why)
        out.append((f"{a} = {b}", f"std::is_assignable<{a}&, {b}>::value", False, why))
        out.append((f"implicit {b} -> {a}", f"std::is_convertible<{b}, {a}>::value", False, why))
        if a in DATES and b == "year" or a in DT and b in ("year", "modified_julian_day") or a in DATES and b in DATES: continue
        ok = finer(b, a)
        out.append((f"explicit {b} -> {a}", f"std::is_constructible<{a}, {b}>::value", ok, "explicit conversion is from a finer to a coarser second type only"))
    for a in ALL:
        for x in ARITH:
            why = "a unit is not a number"
            for n, op in CMP: binop(n, op, a, x, False, why); binop(n, op, x, a, False, why)
            for n, op in ADD[:2]: binop(n, op, a, x, False, why); binop(n, op, x, a, False, why)
            out.append((f"implicit {a} -> {x}", f"std::is_convertible<{a}, {x}>::value", False, why))
            out.append((f"{x} = {a}", f"std::is_assignable<{x}&, {a}>::value", False, why))
            for n, op in CASG[:2]:
                want = a in UNITS and x != "double"
                binop(n, op, a, x, want, "integer operands on the same type" if want else why)
        out.append((f"implicit {a} -> bool", f"std::is_convertible<{a}, bool>::value", False, "a unit is not a number"))
    for a in EXPLICIT:
        for x in ("int", "long"):
            out.append((f"implicit {x} -> {a}", f"std::is_convertible<{x}, {a}>::value", False, "the constructor from a number is explicit"))
            out.append((f"explicit {x} -> {a}", f"std::is_constructible<{a}, {x}>::value", True, "a unit is built from a number"))
    out.append(("implicit text -> month", "std::is_convertible<const char*, month>::value", False, "the constructor from text is explicit"))
    for a in UNITS + DT + IV:
        for n, op in CMP: binop(n, op, a, a, True, "values of one type compare")
    for a in UNITS:
        for n, op in CASG[:2]: binop(n, op, a, a, True, "values of one type add up")
    for a in SEC + ["modified_julian_day"]:
        for n, op in ADD[:2]:
            out.append((f"{a} {op} {a}", f"res_{n}<{a}, {a}>", True, "the sum and difference of one type is of that type"))
    for x in UNITS + ARITH + ["float", "char"] + DT + IV + DATES:
        ok = x in SEC
        for t in ("datetime", "datetime_interval"):
            out.append((f"{t}<{x}>", f"is<c_{t}, {x}>::value", ok, "a datetime's resolution is a second type"))
        for t in ("max_days_allowed", "mjd_sec_diff", *READERS):
            out.append((f"{t}<{x}>", f"is<c_{t}, {x}>::value", ok, "only second types"))
        for s in SEC:
            out.append((f"cast_to<{x}, {s}>", f"is2<c_cast_to, {x}, {s}>::value", ok, "only second types"))
            out.append((f"cast_to<{s}, {x}>", f"is2<c_cast_to, {s}, {x}>::value", ok, "only second types"))
            out.append((f"datetime<{s}>::cast_to<{x}>", f"is2<c_dt_cast, {s}, {x}>::value", ok, "only second types"))
    for s, t in itertools.product(SEC, SEC):
        out.append((f"delta_sec(datetime<{s}>, datetime<{t}>)", f"is2<c_delta_sec, {s}, {t}>::value", True, "the difference of datetimes of any resolutions"))
    for name, (ex, args, also) in CALLS.items():
        def call(ts, want, why): out.append((f"{name}: ({', '.join(ts)})", f"call<k{list(CALLS).index(name)}, {', '.join(ts)}>(0)", want, why))
        call(args, True, "documented signature")
        for p in range(len(args)):
            if p in also and also[p] is None: continue
            for x in ALL + ARITH:
                if x == args[p] or x in also.get(p, []) and not (x in ARITH): continue
                if x in ARITH and (args[p] in OPEN or x in also.get(p, []) or also.get(p) and "double" in also[p]): continue
                if x == "modified_julian_day" and p == 0 and name.startswith("modified_julian_day"): continue
                call(args[:p] + [x] + args[p + 1:], False, f"argument {p + 1} is a {args[p]}")
        for p, q in itertools.combinations(range(len(args)), 2):
            if args[p] == args[q]: continue
            ts = list(args); ts[p], ts[q] = ts[q], ts[p]; call(ts, False, "arguments in another order")
    seen = set(); res = []
    for c in out:
        if c[0] not in seen: seen.add(c[0]); res.append(c)
    return res

def source(cs):
    s = HEAD
    for n, op in CMP + ADD + CASG:
        s += f"template <class A, class B, class = void> struct has_{n} : std::false_type {{}}; template <class A, class B> struct has_{n}<A, B, std::void_t<decltype(std::declval<A&>() {op} std::declval<B&>())>> : std::true_type {{}};\n"
    for n, op in ADD[:2]:
        s += f"template <class A, class B, class = void> constexpr bool res_{n} = false; template <class A, class B> constexpr bool res_{n}<A, B, std::void_t<decltype(std::declval<A&>() {op} std::declval<B&>())>> = std::is_same<std::decay_t<decltype(std::declval<A&>() {op} std::declval<B&>())>, A>::value;\n"
    s += "template <template <class> class K, class A, class = void> struct is_ : std::false_type {}; template <template <class> class K, class A> struct is_<K, A, std::void_t<K<A>>> : std::true_type {}; template <template <class> class K, class A> using is = is_<K, A>;\n"
    s += "template <template <class, class> class K, class A, class B, class = void> struct is2_ : std::false_type {}; template <template <class, class> class K, class A, class B> struct is2_<K, A, B, std::void_t<K<A, B>>> : std::true_type {}; template <template <class, class> class K, class A, class B> using is2 = is2_<K, A, B>;\n"
    for t in ("datetime", "datetime_interval"): s += f"template <class A> using c_{t} = {t}<A>;\n"
    s += "template <class A> using c_max_days_allowed = decltype(max_days_allowed<A>()); template <class A> using c_mjd_sec_diff = decltype(mjd_sec_diff<A>(modified_julian_day(1), modified_julian_day(1)));\n"
    for t in READERS: s += f'template <class A> using c_{t} = decltype({t}<A>(""));\n'
    s += "template <class A, class B> using c_cast_to = decltype(cast_to<A, B>(std::declval<A>())); template <class A, class B> using c_dt_cast = decltype(std::declval<datetime<A>>().template cast_to<B>()); template <class A, class B> using c_delta_sec = decltype(delta_sec(std::declval<datetime<A>>(), std::declval<datetime<B>>()));\n"
    s += "template <class K, class... T> constexpr bool call(long) { return false; } template <class K, class... T> constexpr auto call(int) -> decltype(K::f(std::declval<T>()...), true) { return true; }\n"
    for i, (name, (ex, args, also)) in enumerate(CALLS.items()):
        s += f"struct k{i} {{ template <class... T> static auto f(T... a) -> decltype({ex.replace('A...', 'a...')}); }};\n"
    base = s.count("\n") + 1
    for i, c in enumerate(cs): s += f'static_assert(({c[1]}) == {"true" if c[2] else "false"}, "cell {i}");\n'
    return s, base

def syntax(cc, src, path, repo):
    open(path, "w").write(src)
    lim = ["-ferror-limit=0", "-ftemplate-backtrace-limit=0"] if "clang" in cc else ["-fmax-errors=0", "-ftemplate-backtrace-limit=0"]
    p = subprocess.run([cc, "-std=c++17", "-Wno-invalid-constexpr", "-fsyntax-only", "-w", "-fno-color-diagnostics" if "clang" in cc else "-fdiagnostics-color=never", "-fno-caret-diagnostics" if "clang" in cc else "-fno-diagnostics-show-caret", "-I" + repo + "/src", path] + lim, capture_output=True, text=True)
    return p.returncode, p.stderr

def per_line(err, path):
    """error blocks -> {line of path: first message}; None key for errors not attributed"""
    res = {}; cur = None; pend = []
    def flush(b):
        if not b: return
        head = next((l for l in b if ": error:" in l or ": fatal error:" in l), b[0])
        ls = [int(m.group(1)) for l in b for m in re.finditer(re.escape(path) + r":(\d+)", l)]
        res.setdefault(ls[-1] if ls else None, []).append(head)
    blk = []
    for l in err.splitlines():
        starts = ": error:" in l or ": fatal error:" in l
        ctx = re.match(r"^(In file included from|.*: In (instantiation|function|substitution|member)|.*: At global scope)", l)
        if starts and any(": error:" in x for x in blk): flush(blk); blk = pend + [l]; pend = []; continue
        if ctx and any(": error:" in x for x in blk): flush(blk); blk = []
        blk.append(l)
    flush(blk)
    return res

def who(expr_src, path, repo, cc):
    """names the overload a program that should not compile resolves to"""
    open(path, "w").write(HEAD + expr_src)
    p = subprocess.run([cc, "-std=c++17", "-Wno-invalid-constexpr", "-fsyntax-only", "-w", "-I" + repo + "/src", "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=verif_probe", path], capture_output=True, text=True)
    m = re.search(r"(?:Function|CXXMethod|CXXConversion) 0x\w+ '([^']+)' '([^']+)'", p.stdout) or re.search(r"CXXConstructExpr.*?'([^']+)' '([^']+)'", p.stdout)
    return f"{m.group(1)} {m.group(2)}" if m else ""

def where(name, repo):
    m = re.search(r"operator\s*(==|!=|<=|>=|\+=|-=|[-+*/%<>=])", name)
    for f in ("dtfund.hpp", "dtcalendar.hpp"):
        for i, l in enumerate(open(f"{repo}/src/{f}", errors="replace"), 1):
            if m and not l.lstrip().startswith("//") and re.search(r"operator\s*" + re.escape(m.group(1)) + r"\s*\(", l): return f"src/{f}:{i}"
    return "src/dtfund.hpp"

def check(pid, spec):
    t0 = time.time(); repo = os.path.realpath(C.REPO); clang = C.LLVM + "clang++"
    tmp = tempfile.mkdtemp(prefix="verif-" + pid + "-"); cs = cells(); viols, und = [], []
    try:
        rc, e = syntax(clang, HEAD, tmp + "/head.cpp", repo)
        if rc: C.broken(pid, "the headers do not compile: " + e[:800])
        src, base = source(cs); bad = {}
        usrc = HEAD; ub = usrc.count("\n") + 1
        for i, u in enumerate(USES): usrc += re.sub(r"\bf\(\)", f"use{i}()", u, 1) + "\n"
        ccs = [clang] + ([shutil.which("g++")] if shutil.which("g++") else [])
        with ThreadPoolExecutor(4) as ex:
            f1 = [ex.submit(syntax, cc, src, f"{tmp}/cells{k}.cpp", repo) for k, cc in enumerate(ccs)]
            f2 = [ex.submit(syntax, cc, usrc, f"{tmp}/uses{k}.cpp", repo) for k, cc in enumerate(ccs)]
        for k, cc in enumerate(ccs):
            e = f1[k].result()[1]
            for ln, msgs in per_line(e, f"{tmp}/cells{k}.cpp").items():
                i = ln - base if ln is not None else -1
                if not (0 <= i < len(cs)): C.broken(pid, f"{os.path.basename(cc)}: {msgs[0][:400]}")
                hard = not any(f'cell {i}' in m and ("static" in m) for m in msgs)
                if hard and not cs[i][2]: continue  # does not compile: as required
                bad.setdefault(i, (os.path.basename(cc), msgs[0]))
        for i, (cc, msg) in sorted(bad.items()):
            tag, cond, want, why = cs[i]; loc, over = "src/dtfund.hpp", ""
            m = re.match(r"^(\S+) (==|!=|<=|>=|\+=|-=|\*=|/=|[-+*/%<>=]) (\S+)$", tag); mi = re.match(r"^(implicit|explicit) (\S+) -> (\S+)$", tag)
            if not want:
                body = f"void verif_probe({m.group(1)} a, {m.group(3)} b) {{ (void)(a {m.group(2)} b); }}" if m else f"{mi.group(3)} verif_probe({mi.group(2)} a) {{ return {mi.group(3)}(a); }}" if mi else ""
                over = who(body, tmp + "/who.cpp", repo, clang) if body and len(viols) < 12 else ""
                if m: loc = where("operator" + m.group(2), repo)
                elif mi: loc = next((f"src/{f}:{n}" for f in ("dtfund.hpp", "dtcalendar.hpp") for n, l in enumerate(open(f"{repo}/src/{f}", errors="replace"), 1) if re.match(r"^\s*(explicit\s+|constexpr\s+)*(operator\s+)?" + re.escape(mi.group(3).split("<")[0]) + r"\s*\(", l)), loc)
            viols.append(dict(kind="COMPILES" if not want else "REJECTED", msg=(f"`{tag}` compiles" + (f" (through {over})" if over else "") if not want else f"`{tag}` does not compile") + f"; documented: {why}", loc=loc, fn=tag, entry=tag, cell=msg[:200], stack=loc))
        for k, cc in enumerate(ccs):
            e = f2[k].result()[1]
            for ln, msgs in per_line(e, f"{tmp}/uses{k}.cpp").items():
                i = ln - ub if ln is not None else -1
                if not (0 <= i < len(USES)): C.broken(pid, f"{os.path.basename(cc)}: {msgs[0][:400]}")
                m = re.search(r"(src/\w+\.[ch]pp:\d+)", msgs[0])
                v = dict(kind="REJECTED", msg=f"documented use `{USES[i]}` does not compile: {msgs[0][-300:]}", loc=m.group(1) if m else "src", fn=USES[i], entry=USES[i], cell=os.path.basename(cc), stack="")
                if not any(x["fn"] == v["fn"] for x in viols): viols.append(v)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    neg = sum(1 for c in cs if not c[2])
    rules = {}
    for c in cs: rules[c[3]] = rules.get(c[3], 0) + 1
    cov = dict(obligations=len(cs) + len(USES), discharged=len(cs) + len(USES) - len(viols), functions=sorted({f"{len(UNITS)} unit types, {len(DT)} datetimes, {len(IV)} intervals"} | set(CALLS)),
               must_not_compile=neg, must_compile=len(cs) - neg + len(USES), compilers=[os.path.basename(c) for c in ccs], rule_instances=rules)
    return C.finish(pid, spec, cov, viols, und, [], t0, lambda v: any(k[1] in v["fn"] for k in C.known(pid)), "clang++/g++ -fsyntax-only on generated static_asserts (types_check.py)",
                    ["clang 18 and gcc 13 type checkers", "the table of documented rules in types_check.py"])
