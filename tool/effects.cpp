// Effect analysis of the library's functions: what memory outside a call may a call write?
// effects <repo/> <module.bc>... : prints JSON. Flow-insensitive points-to per function, bottom-up summaries.
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
// What a pointer may point to.
struct Base {
  enum K { LOCAL, ARG, DEEP, GLOB, TLS, HEAP, UNKNOWN } k; int i = 0; const Value *v = nullptr; // DEEP: memory reached through argument i
  bool operator<(const Base &o) const { return std::tie(k, i, v) < std::tie(o.k, o.i, o.v); }
};
typedef std::set<Base> Bases;
struct Wit { std::string loc; };
struct Sum { std::map<Base, Wit> writes; Bases rets; bool init = false; };
static std::map<const Function *, Sum> sums;
static std::string repo;
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) c = ' '; r += c; } return r; }
static std::string locOf(const Instruction &I) {
  if (auto *d = I.getDebugLoc().get()) { std::string f = d->getFilename().str(); if (!f.empty() && f[0] != '/') f = d->getDirectory().str() + "/" + f; return f + ":" + std::to_string(d->getLine()); }
  return "?";
}
static std::string fileOf(const Function &F) {
  auto *sp = F.getSubprogram(); if (!sp || !sp->getFile()) return "";
  std::string f = sp->getFilename().str(); if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f; return f;
}
static bool inRepo(const Function &F) { return fileOf(F).compare(0, repo.size(), repo) == 0; }
static std::string demName(const std::string &n) { return demangle(n); }
static bool isInit(const Function &F) { StringRef n = F.getName(); return n.starts_with("__cxx_global_var_init") || n.starts_with("_GLOBAL__sub_I") || n.starts_with("__cxx_global_array_dtor") || F.getSection() == ".text.startup"; }
// parameter types as text, from the mangled name; const member?
struct Sig { bool ok = false, constThis = false, member = false; std::vector<std::string> params; };
static const Sig &sigOf(const std::string &mangled) {
  static std::map<std::string, Sig> memo; auto it = memo.find(mangled); if (it != memo.end()) return it->second;
  Sig s; ItaniumPartialDemangler d;
  if (mangled.compare(0, 2, "_Z") == 0 && !d.partialDemangle(mangled.c_str()) && d.isFunction()) {
    size_t n = 0; char *p = d.getFunctionParameters(nullptr, &n); std::string t = p ? p : ""; free(p);
    s.ok = true; s.constThis = d.hasFunctionQualifiers() && demName(mangled).find(") const") != std::string::npos; s.member = d.hasFunctionQualifiers();
    if (t.size() >= 2 && t[0] == '(') t = t.substr(1, t.size() - 2);
    int depth = 0; std::string cur;
    for (char c : t) { if (c == '<' || c == '(' || c == '[' || c == '{') ++depth; if (c == '>' || c == ')' || c == ']' || c == '}') --depth; if (c == ',' && !depth) { s.params.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty() && cur != "void") s.params.push_back(cur);
  }
  return memo[mangled] = s;
}
// const-ness of what IR parameter i points to: 1 promised not to be written, 0 may be written, -1 unknown
static int constParam(const Function &F, unsigned i, std::string *what = nullptr) {
  const Sig &s = sigOf(F.getName().str()); if (!s.ok) return -1;
  unsigned sret = F.hasStructRetAttr() ? 1 : 0; // before or after this
  std::vector<unsigned> rest; for (unsigned k = 0; k < F.arg_size(); ++k) if (!F.getArg(k)->hasStructRetAttr()) rest.push_back(k);
  (void)sret;
  unsigned pos = ~0u; for (unsigned k = 0; k < rest.size(); ++k) if (rest[k] == i) pos = k;
  if (pos == ~0u) return 0; // the result slot
  std::vector<std::string> ps = s.params;
  if (rest.size() == ps.size() + 1) { if (pos == 0) { if (what) *what = "this"; return s.constThis ? 1 : 0; } --pos; }
  else if (rest.size() != ps.size()) return -1; // a parameter passed in pieces
  std::string t = ps[pos]; if (what) *what = "parameter of type" + (t.empty() || t[0] != ' ' ? " " + t : t);
  if (F.getArg(i)->hasByValAttr()) return 0;
  auto ends = [&](const char *e) { size_t k = strlen(e); return t.size() >= k && t.compare(t.size() - k, k, e) == 0; };
  while (!t.empty() && t.back() == ' ') t.pop_back();
  if (ends("const&") || ends("const*") || ends("const* const")) return 1;
  if (ends("&") || ends("*")) return 0;
  return F.getArg(i)->getType()->isPointerTy() ? 0 : -1; // a class passed by reference to a temporary
}
static const std::map<std::string, std::set<int>> cWrites = { // written pointer arguments of C functions
  {"strlen", {}}, {"strcmp", {}}, {"strncmp", {}}, {"strcasecmp", {}}, {"strncasecmp", {}}, {"strchr", {}}, {"strrchr", {}}, {"strstr", {}}, {"memchr", {}}, {"strspn", {}}, {"strcspn", {}}, {"bcmp", {}},
  {"memcpy", {0}}, {"memmove", {0}}, {"memset", {0}}, {"strcpy", {0}}, {"strncpy", {0}}, {"strcat", {0}}, {"strncat", {0}}, {"memcmp", {}}, {"snprintf", {0}}, {"sprintf", {0}}, {"vsnprintf", {0}}, {"sscanf", {2, 3, 4, 5, 6, 7, 8, 9}},
  {"strtol", {1}}, {"strtoll", {1}}, {"strtoul", {1}}, {"strtoull", {1}}, {"strtod", {1}}, {"strtof", {1}}, {"strtold", {1}}, {"atoi", {}}, {"atol", {}}, {"atof", {}}, {"atoll", {}}, {"__isoc23_strtol", {1}}, {"__isoc23_strtoll", {1}}, {"__isoc23_strtoul", {1}}, {"__isoc23_sscanf", {2, 3, 4, 5, 6, 7, 8, 9}},
  {"modf", {1}}, {"frexp", {1}}, {"remquo", {2}}, {"nan", {}}, {"free", {0}}, {"strtok_r", {0, 2}}, {"localtime_r", {1}}, {"gmtime_r", {1}}, {"strerror_r", {1}}, {"qsort", {0}}, {"__assert_fail", {}}, {"abort", {}}, {"puts", {}}, {"printf", {}},
  {"div", {}}, {"ldiv", {}}, {"lldiv", {}}, {"abs", {}}, {"labs", {}}, {"llabs", {}}, {"toupper", {}}, {"tolower", {}}, {"isalpha", {}}, {"isdigit", {}}, {"isspace", {}}, {"isalnum", {}}, {"isupper", {}}, {"islower", {}}, {"ispunct", {}}, {"isprint", {}},
  {"from_chars", {}}, {"exit", {}}, {"__errno_location", {}}, {"malloc", {}}, {"calloc", {}}, {"time", {0}}, {"clock_gettime", {1}}, {"timegm", {0}}, {"strftime", {0}}, {"__dynamic_cast", {}}, {"__clang_call_terminate", {}}, {"__gxx_personality_v0", {}}, {"_Unwind_Resume", {}},
};
static const std::set<std::string> notReentrant = {"localtime", "gmtime", "asctime", "ctime", "strtok", "setlocale", "rand", "srand", "random", "srandom", "drand48", "lrand48", "srand48", "strerror", "tmpnam", "tempnam",
  "setenv", "unsetenv", "putenv", "clearenv", "tzset", "mktime", "getdate", "readdir", "getpwnam", "getpwuid", "gethostbyname", "inet_ntoa", "ttyname", "ecvt", "fcvt", "gcvt", "lgamma", "fesetround", "fesetenv", "feholdexcept", "signal", "alarm", "umask", "chdir", "localeconv", "wcstombs", "mblen", "mbtowc", "wctomb", "strsignal", "ptsname", "crypt", "uselocale",
  "_ZNSt6locale6globalERKS_", "_ZNSt8ios_base15sync_with_stdioEb", "_ZSt13set_terminatePFvvE"};
static bool mathFn(const std::string &n) {
  static const std::set<std::string> m = {"floor", "ceil", "trunc", "round", "rint", "nearbyint", "lround", "llround", "lrint", "llrint", "fabs", "fmod", "fma", "pow", "sqrt", "sin", "cos", "tan", "exp", "log", "log10", "log2", "copysign", "fmin", "fmax", "hypot", "cbrt", "remainder", "ldexp", "scalbn", "scalbln", "nextafter", "fdim", "ilogb", "logb", "atan2", "atan", "asin", "acos"};
  std::string k = n; if (!k.empty() && (k.back() == 'f' || k.back() == 'l') && m.count(k.substr(0, k.size() - 1))) return true; return m.count(k) > 0;
}
static std::map<std::pair<const Function *, const Value *>, Bases> ptsMemo;
static Bases basesOf(const Value *v, const Function &F, int depth = 0);
static std::string calleeName(const CallBase &cb, const Function **out) {
  const Value *c = cb.getCalledOperand()->stripPointerCastsAndAliases(); auto *f = dyn_cast<Function>(c); *out = f; return f ? f->getName().str() : "";
}
static void translate(const Base &b, const CallBase &cb, const Function &caller, Bases &o, bool deepen = false) {
  if (b.k == Base::ARG || b.k == Base::DEEP) {
    if ((unsigned)b.i >= cb.arg_size()) { o.insert({Base::UNKNOWN}); return; }
    for (auto &x : basesOf(cb.getArgOperand((unsigned)b.i), caller)) { Base y = x; if ((b.k == Base::DEEP || deepen) && y.k == Base::ARG) y.k = Base::DEEP; o.insert(y); }
  } else if (b.k == Base::LOCAL) {} else o.insert(b);
}
static Bases basesOf(const Value *v, const Function &F, int depth) {
  if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) return {};
  auto key = std::make_pair(&F, v); auto it = ptsMemo.find(key); if (it != ptsMemo.end()) return it->second;
  if (depth > 60) return {{Base::UNKNOWN}};
  ptsMemo[key] = {}; // cycles through phis
  Bases o; auto add = [&](const Value *w) { auto b = basesOf(w, F, depth + 1); o.insert(b.begin(), b.end()); };
  if (auto *g = dyn_cast<GlobalVariable>(v)) { if (g->isThreadLocal()) o.insert({Base::TLS, 0, g}); else o.insert({Base::GLOB, 0, g}); }
  else if (isa<Function>(v)) {}
  else if (auto *a = dyn_cast<GlobalAlias>(v)) add(a->getAliasee());
  else if (auto *a = dyn_cast<Argument>(v)) { if (a->hasByValAttr() || a->hasStructRetAttr()) { if (a->hasByValAttr()) o.insert({Base::LOCAL, 0, a}); else o.insert({Base::ARG, (int)a->getArgNo()}); } else o.insert({Base::ARG, (int)a->getArgNo()}); }
  else if (isa<AllocaInst>(v)) o.insert({Base::LOCAL, 0, v});
  else if (auto *p = dyn_cast<GEPOperator>(v)) add(p->getPointerOperand());
  else if (auto *ce = dyn_cast<ConstantExpr>(v)) { if (ce->isCast() && ce->getOperand(0)->getType()->isPointerTy()) add(ce->getOperand(0)); else o.insert({Base::UNKNOWN}); }
  else if (isa<PHINode>(v) || isa<SelectInst>(v) || isa<FreezeInst>(v) || isa<BitCastInst>(v) || isa<AddrSpaceCastInst>(v)) {
    auto *I = cast<Instruction>(v); for (unsigned k = isa<SelectInst>(v) ? 1 : 0; k < I->getNumOperands(); ++k) add(I->getOperand(k));
  }
  else if (auto *ld = dyn_cast<LoadInst>(v)) {
    for (auto &b : basesOf(ld->getPointerOperand(), F, depth + 1)) {
      if (b.k == Base::LOCAL) { // whatever pointer is stored in that variable
        for (auto &I : instructions(F)) {
          if (auto *s = dyn_cast<StoreInst>(&I)) { if (!s->getValueOperand()->getType()->isPointerTy()) continue; auto t = basesOf(s->getPointerOperand(), F, depth + 1); if (t.count(b)) add(s->getValueOperand()); }
          else if (auto *cb = dyn_cast<CallBase>(&I)) { // a callee given its address may store pointers it was given
            bool given = false; for (auto &u : cb->args()) if (u->getType()->isPointerTy()) { auto t = basesOf(u.get(), F, depth + 1); if (t.count(b)) given = true; }
            if (given) for (auto &u : cb->args()) if (u->getType()->isPointerTy()) for (auto &x : basesOf(u.get(), F, depth + 1)) { if (x.k == Base::LOCAL) { o.insert(x); continue; } Base y = x; if (y.k == Base::ARG) y.k = Base::DEEP; o.insert(y); }
            if (given) o.insert({Base::HEAP});
          }
        }
      } else if (b.k == Base::GLOB) {
        auto *g = cast<GlobalVariable>(b.v); // pointers kept in a table
        if (g->isConstant() && g->hasInitializer()) {
          std::vector<const Value *> w = {g->getInitializer()}; std::set<const Value *> seen;
          while (!w.empty()) { auto *x = w.back(); w.pop_back(); if (!seen.insert(x).second) continue; if (auto *gg = dyn_cast<GlobalVariable>(x)) { o.insert({Base::GLOB, 0, gg}); continue; } if (auto *u = dyn_cast<User>(x)) for (auto &q : u->operands()) w.push_back(q.get()); }
        } else o.insert({Base::GLOB, 1, g}); // memory reached through a variable: shared as well
      } else if (b.k == Base::ARG) o.insert({Base::DEEP, b.i}); else o.insert(b);
    }
  }
  else if (auto *cb = dyn_cast<CallBase>(v)) {
    const Function *G; std::string n = calleeName(*cb, &G);
    if (n == "__errno_location") o.insert({Base::TLS});
    else if (n.compare(0, 23, "llvm.threadlocal.address") == 0) add(cb->getArgOperand(0));
    else if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "calloc" || n.compare(0, 6, "__cxa_") == 0 || n == "_ZnwmSt11align_val_t") o.insert({Base::HEAP});
    else if (G && !G->isDeclaration() && sums.count(G)) for (auto &b : sums[G].rets) translate(b, *cb, F, o);
    else { // into one of its arguments (std::string::data, strchr, operator<< ...); a C++ function hands out only what it may write, or its own object
      o.insert({Base::HEAP}); std::vector<unsigned> from, all;
      for (unsigned k = 0; k < cb->arg_size(); ++k) if (cb->getArgOperand(k)->getType()->isPointerTy()) { all.push_back(k); if (G && n.compare(0, 2, "_Z") == 0 && !G->isVarArg() && constParam(*G, k) == 1) { std::string w; constParam(*G, k, &w); if (w != "this") continue; } from.push_back(k); }
      for (unsigned k : from.empty() ? all : from) { auto bs = basesOf(cb->getArgOperand(k), F, depth + 1); o.insert(bs.begin(), bs.end()); }
    }
  }
  else if (isa<ExtractValueInst>(v) || isa<InsertValueInst>(v)) { auto *I = cast<Instruction>(v); for (auto &q : I->operands()) { if (isa<Instruction>(q) || isa<Constant>(q)) add(q.get()); } }
  else if (isa<LandingPadInst>(v)) o.insert({Base::HEAP});
  else if (isa<IntToPtrInst>(v)) o.insert({Base::UNKNOWN});
  else if (!v->getType()->isPointerTy() && isa<Constant>(v)) {}
  else o.insert({Base::UNKNOWN});
  return ptsMemo[key] = o;
}
struct Finding { std::string rule, msg, loc, fn; };
static std::vector<Finding> viols, und;
static long nStores = 0, nCalls = 0, nConst = 0;
// is I executed only while the guard of a function-local static is held?
static bool guarded(const Instruction &I, const DominatorTree &DT) {
  for (auto &J : instructions(*I.getFunction())) if (auto *cb = dyn_cast<CallBase>(&J)) {
    const Function *G; if (calleeName(*cb, &G) != "__cxa_guard_acquire") continue;
    for (auto *u : cb->users()) if (auto *c = dyn_cast<ICmpInst>(u)) for (auto *w : c->users()) if (auto *br = dyn_cast<BranchInst>(w)) if (br->isConditional()) {
      const BasicBlock *t = br->getSuccessor(c->getPredicate() == CmpInst::ICMP_NE ? 0 : 1);
      if (DT.dominates(t, I.getParent())) return true;
    }
  }
  return false;
}
// pointer arguments an external function may write: index -> yes/unknown
static int extWrites(const std::string &n, const Function *G, const CallBase &cb, unsigned i) {
  if (n.compare(0, 5, "llvm.") == 0) return 0; // memory intrinsics handled by the caller
  if (n.compare(0, 6, "__cxa_") == 0 || n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || mathFn(n)) return 0;
  auto c = cWrites.find(n); if (c != cWrites.end()) return c->second.count((int)i) ? 1 : 0;
  if (n.compare(0, 2, "V_") == 0) return 0; // harness
  if (G && sigOf(n).ok && !G->isVarArg()) { int k = constParam(*G, i); return k == 1 ? 0 : 1; }
  return cb.getArgOperand(i)->getType()->isPointerTy() ? -1 : 0;
}
static bool report = false;
static void writesOf(const Function &F, Sum &s) {
  DominatorTree DT(const_cast<Function &>(F)); bool rep = report && inRepo(F) && !isInit(F);
  std::string fn = demName(F.getName().str());
  auto wr = [&](const Bases &bs, const Instruction &I, const std::string &how) {
    for (auto &b : bs) {
      if (b.k == Base::LOCAL || b.k == Base::HEAP || b.k == Base::TLS) continue;
      if (b.k == Base::GLOB) {
        auto *g = cast<GlobalVariable>(b.v);
        if (g->getName().starts_with("_ZGV")) continue; // the guard itself
        if (b.i == 0 && g->isConstant()) { if (rep && how == "store") viols.push_back({"const-write", "writes the constant object " + demName(g->getName().str()), locOf(I), fn}); continue; }
        if (isInit(F) || guarded(I, DT)) continue;
        if (rep) viols.push_back({"shared-write", (b.i ? "may write memory reached through the shared variable " : "writes the shared variable ") + demName(g->getName().str()) + " (" + how + ")", locOf(I), fn});
        continue;
      }
      if (!s.writes.count(b)) s.writes[b] = {locOf(I)};
      if (b.k == Base::UNKNOWN && rep) und.push_back({"unknown-write", "writes through a pointer of unknown origin (" + how + ")", locOf(I), fn});
    }
  };
  for (auto &I : instructions(F)) {
    if (auto *st = dyn_cast<StoreInst>(&I)) { if (rep) ++nStores; wr(basesOf(st->getPointerOperand(), F), I, "store"); }
    else if (auto *r = dyn_cast<AtomicRMWInst>(&I)) { if (rep) ++nStores; wr(basesOf(r->getPointerOperand(), F), I, "atomic update"); }
    else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) { if (rep) ++nStores; wr(basesOf(x->getPointerOperand(), F), I, "atomic update"); }
    else if (auto *m = dyn_cast<AnyMemIntrinsic>(&I)) { if (rep) ++nStores; wr(basesOf(m->getRawDest(), F), I, "copy"); }
    else if (auto *cb = dyn_cast<CallBase>(&I)) {
      const Function *G; std::string n = calleeName(*cb, &G);
      if (cb->isInlineAsm()) { if (rep) und.push_back({"unknown-call", "inline assembly", locOf(I), fn}); continue; }
      if (!G) { if (rep) und.push_back({"unknown-call", "call through a pointer", locOf(I), fn}); continue; }
      if (rep) ++nCalls;
      if (rep && notReentrant.count(n)) viols.push_back({"not-reentrant", "calls " + demName(n) + ", which is not safe to call from several threads", locOf(I), fn});
      if (!G->isDeclaration()) { Bases o; for (auto &w : sums[G].writes) { o.clear(); translate(w.first, *cb, F, o); wr(o, I, "through " + demName(n).substr(0, 80)); } continue; }
      if (n.compare(0, 5, "llvm.") == 0 || n == "__cxa_guard_acquire" || n == "__cxa_guard_release" || n == "__cxa_guard_abort") continue;
      bool knownFn = n.compare(0, 2, "_Z") == 0 || n.compare(0, 6, "__cxa_") == 0 || cWrites.count(n) || mathFn(n) || n.compare(0, 2, "V_") == 0 || n == "__clang_call_terminate" || notReentrant.count(n);
      if (rep && !knownFn) und.push_back({"unknown-call", "calls " + n + ", whose effects are not known", locOf(I), fn});
      for (unsigned k = 0; k < cb->arg_size(); ++k) if (cb->getArgOperand(k)->getType()->isPointerTy()) {
        int w = extWrites(n, G, *cb, k); if (w == 0) continue;
        Bases bs = basesOf(cb->getArgOperand(k), F);
        if (w == -1) { if (rep) for (auto &b : bs) if (b.k == Base::GLOB && !cast<GlobalVariable>(b.v)->isConstant()) und.push_back({"unknown-call", "passes the shared variable " + demName(b.v->getName().str()) + " to " + n, locOf(I), fn}); continue; }
        wr(bs, I, "through " + demName(n).substr(0, 80));
      }
    }
  }
}
static void retsOf(const Function &F, Sum &s) {
  for (auto &I : instructions(F)) if (auto *r = dyn_cast<ReturnInst>(&I)) if (r->getReturnValue() && r->getReturnValue()->getType()->isPointerTy())
    for (auto &b : basesOf(r->getReturnValue(), F)) if (b.k != Base::LOCAL) s.rets.insert(b);
}
int main(int argc, char **argv) {
  repo = argv[1]; LLVMContext ctx; SMDiagnostic err;
  std::map<std::string, std::string> analysed; std::map<std::string, std::string> statics; std::set<std::string> vs, us; std::vector<Finding> V, U; std::map<std::string, int> constObl;
  long repoFns = 0;
  for (int a = 2; a < argc; ++a) {
    auto M = parseIRFile(argv[a], err, ctx); if (!M) { fprintf(stderr, "cannot read %s\n", argv[a]); return 2; }
    sums.clear(); ptsMemo.clear(); viols.clear(); und.clear(); report = false;
    std::vector<const Function *> fs; for (auto &F : *M) if (!F.isDeclaration()) { fs.push_back(&F); sums[&F]; }
    for (int round = 0; round < 40; ++round) {
      bool ch = false; ptsMemo.clear();
      for (auto *F : fs) { Sum &s = sums[F]; size_t w = s.writes.size(), r = s.rets.size(); writesOf(*F, s); retsOf(*F, s); if (w != s.writes.size() || r != s.rets.size()) ch = true; }
      if (!ch) break;
    }
    // only what can run after start-up
    std::set<const Function *> live; std::vector<const Function *> todo;
    for (auto *F : fs) if (!F->hasLocalLinkage() && !isInit(*F)) todo.push_back(F);
    while (!todo.empty()) { auto *F = todo.back(); todo.pop_back(); if (!live.insert(F).second) continue; for (auto &I : instructions(*F)) for (auto &u : I.operands()) { const Value *x = u->stripPointerCastsAndAliases(); if (auto *G = dyn_cast<Function>(x)) if (!G->isDeclaration()) todo.push_back(G); } }
    report = true; nStores += 0;
    for (auto *F : fs) {
      if (!live.count(F) || !inRepo(*F) || isInit(*F)) continue;
      std::string fn = demName(F->getName().str()); bool first = analysed.emplace(fn, fileOf(*F) + ":" + std::to_string(F->getSubprogram()->getLine())).second;
      if (!first) continue;
      ++repoFns; Sum s; writesOf(*F, s);
      for (unsigned i = 0; i < F->arg_size(); ++i) {
        if (!F->getArg(i)->getType()->isPointerTy()) continue;
        std::string what; if (constParam(*F, i, &what) != 1) continue;
        ++nConst;
        auto w = s.writes.find({Base::ARG, (int)i}); if (w != s.writes.end()) viols.push_back({"const-promise", "writes the object its signature promises not to write (" + what + ")", w->second.loc, fn});
        w = s.writes.find({Base::DEEP, (int)i}); if (w != s.writes.end()) und.push_back({"const-promise", "may write memory reached through a const " + what, w->second.loc, fn});
      }
      for (auto &I : instructions(*F)) for (auto &u : I.operands()) if (auto *g = dyn_cast<GlobalVariable>(u->stripPointerCasts())) {
        std::string n = demName(g->getName().str()); if (g->getName().starts_with(".str") || g->getName().starts_with("__const") || g->getName().starts_with("_ZT") || g->getName().starts_with("__PRETTY") || g->getName().starts_with("_ZGV")) continue;
        statics[n] = g->isThreadLocal() ? "thread-local" : g->isConstant() ? "constant" : "variable";
      }
    }
    for (auto &f : viols) if (vs.insert(f.rule + f.msg + f.loc).second) V.push_back(f);
    for (auto &f : und) if (us.insert(f.rule + f.msg + f.loc).second) U.push_back(f);
  }
  auto list = [](const char *k, const std::vector<Finding> &v) {
    printf("\"%s\":[", k); bool c = false;
    for (auto &f : v) { printf("%s{\"rule\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"fn\":\"%s\"}", c ? ",\n" : "", esc(f.rule).c_str(), esc(f.msg).c_str(), esc(f.loc).c_str(), esc(f.fn).c_str()); c = true; }
    printf("],\n");
  };
  printf("{"); list("violations", V); list("undecided", U);
  printf("\"functions\":["); bool c = false; for (auto &f : analysed) { printf("%s\"%s @ %s\"", c ? ",\n" : "", esc(f.first).c_str(), esc(f.second).c_str()); c = true; } printf("],\n");
  printf("\"statics\":{"); c = false; for (auto &f : statics) { printf("%s\"%s\":\"%s\"", c ? ",\n" : "", esc(f.first).c_str(), f.second.c_str()); c = true; } printf("},\n");
  printf("\"stores\":%ld,\"calls\":%ld,\"const_promises\":%ld,\"repo_functions\":%ld}\n", nStores, nCalls, nConst, repoFns);
}
