"""The table of checks: which harness decides which property, and how."""
AUTO = "OVF,OOB,TERM,ASSERT,DIVZERO,FPCAST,CTYPE"
# harness: file under harness/; flags: preprocessor flags of that variant; classes: automatic rules
# armed in code under /repo; entries: how many entry points were confirmed by hand (fewer = analysis broken)
def H(name, entries, flags=(), classes="", select="", only=""):
    return dict(harness=name, entries=entries, flags=list(flags), classes=classes, select=select)

ABINT = "abstract interpretation of LLVM IR (affine forms, quotients, cell refinement)"
TRUST = ["clang 18 front end and mem2reg (C++ -> LLVM IR)",
         "/verif/tool (the abstract interpreter and its models of libc/libstdc++ calls)",
         "/verif/harness (the property written as assertions over an independent reference)"]
UB = "NOCHECK,OVF,OOB,DIVZERO,FPCAST,CTYPE"
# every harness again, for what the machine does instead of for what the result is
N = {"C01": 17, "C02": 4, "C03": 12, "C04": 7, "C05": 7, "C08": 24, "C09": 22, "C10": 17, "C11": 21, "C12": 7, "C13": 20,
     "C15": 31, "C17": 30, "C20": 29, "C21": 120, "C22": 2, "C23": 112, "C24": 27, "C18": 12, "C25": 9, "C27": 12, "C28": 3, "C29": 7}
DBG = "ASSERT,TERM"
CHECKS = {
    "C01": dict(runs=[H("C01", 17)], technique=ABINT, level="proof", note="every valid date of every int year from -4799"),
    "C02": dict(runs=[H("C02", 4)], technique=ABINT, level="proof", note="every Modified Julian Day from -4799-01-01 to the last representable year"),
    "C03": dict(runs=[H("C03", 12), H("C03", 12, ["-DDEBUG"], "ASSERT,TERM")], technique=ABINT, level="proof", note="every year from -4799 and every day of year, production and debug builds"),
    "C04": dict(runs=[H("C04", 7)], technique=ABINT, level="proof", note="every int year/month/day"),
    "C05": dict(runs=[H("C05", 7)], technique=ABINT, level="proof", note="every year"),
    "C06": dict(runs=[H("C06", 123)], technique=ABINT, level="proof", note="every constructor and operation, amounts up to 1e8 days"),
    "C07": dict(runs=[H("C07", 120)], technique=ABINT, level="proof", note="every constructor and operation, amounts up to 1e8 days"),
    "C08": dict(runs=[H("C08", 24)], technique=ABINT, level="proof", note="every pair of datetimes and resolutions"),
    "C09": dict(runs=[H("C09", 22)], technique=ABINT, level="proof", note="every amount and pair of resolutions"),
    "C10": dict(runs=[H("C10", 17)], technique=ABINT, level="proof", note="every time of day / amount"),
    "C11": dict(runs=[H("C11", 21)], technique=ABINT, level="proof", note="every week and second of week"),
    "C12": dict(runs=[H("C12", 7)], time=300, technique=ABINT, level="proof", note="every date from 1972, against the published table"),
    "C13": dict(runs=[H("C13", 20)], technique=ABINT, level="proof", note="every pair of values; reduction of each operator to comparison of the instants"),
    "C14": dict(runs=[], engine="types_check", technique="compile-fail witnesses: the type checkers decide, for every pair of types and every operator, conversion and signature, whether the program exists", level="proof", note="every ordered pair of the 19 types with every operator and conversion; every signature with every other type in each place and every exchange of two arguments"),
    "C15": dict(runs=[H("C15", 31, classes="OOB,CTYPE")], time=150, technique=ABINT, level="proof", note="every text of up to a million characters, every reader, with and without stop pointer"),
    "C16": dict(runs=[H("C16", 21, classes="TERM")], time=330, technique=ABINT, level="proof", note="every text of up to a million characters, every reader; the text's fields judged by an independent reading of the documentation"),
    "C17": dict(runs=[H("C17", 30)], technique=ABINT, level="proof", note="every date of years 0 to 2147483599 and every time of day, any field widths, separators, case, following text and previous errno"),
    "C18": dict(runs=[H("C18", 12)], technique=ABINT + "; texts as token sequences (characters, padded integers, fixed-precision reals)", level="proof", note="every instant of years 0..9999, three resolutions, any delimiter"),
    "C19": dict(runs=[], engine="effects_check", technique="effect and purity analysis of LLVM IR (points-to, bottom-up write summaries, const promises) plus syntax-tree rules", level="proof", note="every function of the library, in every instantiation the harnesses make"),
    "C20": dict(runs=[H("C20", 29)], technique=ABINT, level="proof", note="every int year/month/day, every constructor"),
    "C21": dict(runs=[H(h, n, classes=UB) for h, n in N.items()], time=200, technique=ABINT, level="proof", note="every operation over years -4799..9999 and amounts up to 1e8 days, and every text"),
    "C22": dict(runs=[H("C22", 2)], time=150, technique=ABINT, level="proof", note="every text of up to a million characters; every month"),
    "C23": dict(runs=[H("C23", 112)], technique=ABINT, level="proof", note="every value of every elementary type"),
    "C24": dict(runs=[H("C24", 27)], technique=ABINT, level="proof", note="every value of the stated ranges; rounding errors summed along every operation"),
    "C25": dict(runs=[H("C25", 9)], technique=ABINT, level="proof", note="every real number of seconds of the stated range"),
    "C26": dict(runs=[H(h, N[h], ["-DDEBUG"], DBG) for h in ("C01", "C02", "C03", "C04", "C08", "C11", "C12")] + [H("C07", 120, ["-DDEBUG"], DBG), H("C15", 31, ["-DDEBUG"], "NOCHECK," + DBG)],
                time=200, technique=ABINT, level="proof", note="the debug build: no assertion fails, and the same obligations hold as in the production build"),
    "C27": dict(runs=[H("C27", 12)], technique=ABINT + "; the written text, as a sequence of numbers and characters, is what the reader is given", level="proof", note="every instant of years 0..9999, three resolutions, any delimiter, any previous errno"),
    "C28": dict(runs=[H("C28", 3)], technique=ABINT, level="proof", note="every non-negative interval and positive divisor"),
    "C29": dict(runs=[H("C29", 7)], technique=ABINT, level="proof", note="every resolution"),
}
NOT_APPLICABLE = {
}
