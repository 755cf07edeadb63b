// Abstract interpreter over LLVM IR (clang -O0 + mem2reg), context-sensitive,
// joining at immediate postdominators; C++ exceptions modelled.
#pragma once
#include "core.hpp"
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/Operator.h>
using namespace llvm;
// our ::State etc. are in the global namespace

struct FInfo {
  DenseMap<const Value *, int> num;
  DenseMap<const BasicBlock *, const BasicBlock *> ipdom;
  std::string dem, file;
  int line = 0;
  bool repo = false;
};

struct Out { State st; AV ret; bool thrown = false; std::string ex; };

struct Finding { std::string kind, msg, loc, fn, stack; bool operator<(const Finding &o) const { return std::tie(kind, msg, loc) < std::tie(o.kind, o.msg, o.loc); } };

struct Unk { Finding f; int cond; bool control; };

struct Frame {
  Function *F; FInfo *fi;
  std::vector<Out> outs;
  std::vector<int> objs;
};

struct Seg { int kind; Lin start, len; AV val; }; // 0 int 1 chr 2 real
struct Schema { std::vector<Seg> segs; Lin len; std::string name; };

struct Interp : Ctx {
  Module *M = nullptr;
  const DataLayout *DL = nullptr;
  std::map<const Function *, FInfo> infos;
  std::map<const Function *, std::string> demCache;
  std::string repoPrefix = "/repo/";
  std::set<std::string> classes; // enabled automatic checks
  std::set<std::string> repoFuncs;
  std::map<std::string, long> unmodelled;
  // per run
  std::vector<Finding> viols;
  std::vector<Unk> unks;
  std::vector<Cell> cands;
  long obligations = 0, discharged = 0, steps = 0, maxSteps = 3000000;
  bool infeasible = false; int forkCount = 0;
  std::optional<std::pair<uint64_t, int>> traceAt; // the undecided branch the cell is to be split at
  size_t traceMax = 64; std::vector<std::string> traceLog; bool traceVerbose = false;

  int nextObj = 1, errnoObj = 0, callDepth = 0;
  std::map<const GlobalVariable *, int> globObj;
  std::map<int, std::shared_ptr<Obj>> cobjs; // immutable objects
  std::vector<const Instruction *> stack;
  std::vector<Schema> schemas;
  std::vector<int> textObjs;
  std::vector<Lin> templates;
  std::map<std::string, int> callCount;
  std::map<std::string, long> checkMsgs;  // msg -> times discharged (whole session)
  std::map<const void *, std::pair<I, int>> typeIds;
  bool wantCands = true;
  bool pointCell = false; std::optional<State> violState;
  std::optional<Finding> lastThrow; // where the latest exception was thrown
  bool early = true; // stop a run at its first undecided obligation (the cell is split)
  std::string textDump;

  // ------------------------------------------------------------ structure
  FInfo &info(Function *F) {
    auto it = infos.find(F); if (it != infos.end()) return it->second;
    FInfo &fi = infos[F];
    fi.dem = demangle(F->getName().str());
    if (auto *sp = F->getSubprogram()) {
      fi.line = sp->getLine();
      std::string f = sp->getFilename().str();
      if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f;
      fi.file = f; fi.repo = f.compare(0, repoPrefix.size(), repoPrefix) == 0;
    }
    int n = 0;
    for (auto &a : F->args()) fi.num[&a] = n++;
    for (auto &bb : *F) for (auto &i : bb) fi.num[&i] = n++;
    // postdominators over blocks that reach a return
    std::set<const BasicBlock *> live;
    std::vector<const BasicBlock *> w, order;
    for (auto &bb : *F) if (isa<ReturnInst>(bb.getTerminator())) { live.insert(&bb); w.push_back(&bb); }
    while (!w.empty()) { auto *b = w.back(); w.pop_back(); for (auto *p : predecessors(b)) if (live.insert(p).second) w.push_back(p); }
    for (auto &bb : *F) if (live.count(&bb)) order.push_back(&bb);
    std::map<const BasicBlock *, std::set<const BasicBlock *>> pd;
    std::set<const BasicBlock *> all(order.begin(), order.end());
    for (auto *b : order) pd[b] = isa<ReturnInst>(b->getTerminator()) ? std::set<const BasicBlock *>{b} : all;
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto it2 = order.rbegin(); it2 != order.rend(); ++it2) {
        auto *b = *it2; if (isa<ReturnInst>(b->getTerminator())) continue;
        std::set<const BasicBlock *> s; bool first = true;
        for (auto *x : successors(b)) if (live.count(x)) {
          if (first) { s = pd[x]; first = false; }
          else { std::set<const BasicBlock *> t; for (auto *y : s) if (pd[x].count(y)) t.insert(y); s.swap(t); }
        }
        s.insert(b);
        if (s != pd[b]) { pd[b].swap(s); ch = true; }
      }
    }
    for (auto *b : order) { // nearest strict postdominator = the one postdominated by all the others
      const BasicBlock *best = nullptr;
      for (auto *x : pd[b]) if (x != b && (!best || pd[x].size() > pd[best].size())) best = x;
      fi.ipdom[b] = best;
    }
    return fi;
  }
  const std::string &dem(const Function *F) {
    auto it = demCache.find(F); if (it != demCache.end()) return it->second;
    return demCache[F] = demangle(F->getName().str());
  }
  std::string locOf(const Instruction *i) {
    if (auto &d = i->getDebugLoc()) {
      auto *s = d->getScope(); std::string f = s->getFilename().str();
      if (!f.empty() && f[0] != '/') f = s->getDirectory().str() + "/" + f;
      return f + ":" + std::to_string(d.getLine()) + ":" + std::to_string(d.getCol());
    }
    return "?";
  }
  // innermost location inside the repository, falling back to the instruction
  std::string repoLoc() {
    for (int k = (int)stack.size() - 1; k >= 0; --k) {
      std::string l = locOf(stack[k]);
      if (l.compare(0, repoPrefix.size(), repoPrefix) == 0) return l;
    }
    return stack.empty() ? "?" : locOf(stack.back());
  }
  std::string stackStr() {
    std::string s;
    for (int k = (int)stack.size() - 1; k >= 0; --k) {
      if (!s.empty()) s += " <- ";
      s += dem(stack[k]->getFunction()).substr(0, 120) + " (" + locOf(stack[k]) + ")";
    }
    return s;
  }
  bool inRepo() { // the construct itself, or std code called from the repository
    for (int k = (int)stack.size() - 1; k >= 0; --k) {
      FInfo &fi = info(const_cast<Function *>(stack[k]->getFunction()));
      if (fi.repo) return true;
      if (fi.file.find("/harness/") != std::string::npos) return false;
    }
    return false;
  }
  Finding mkFinding(const std::string &kind, const std::string &msg) {
    Finding f; f.kind = kind; f.msg = msg;
    f.loc = kind == "CHECK" ? (stack.empty() ? "?" : locOf(stack.back())) : repoLoc();
    f.stack = stackStr();
    f.fn = stack.empty() ? "" : dem(stack.back()->getFunction());
    return f;
  }

  void markPartial(State &st, const char *why) {
    if (traceVerbose && !st.partial) traceLog.push_back(std::string("partial: ") + why + " at " + (stack.empty() ? "?" : locOf(stack.back())) + (stack.empty() ? "" : " " + stackStr()));
    st.partial = true;
  }
  // ------------------------------------------------------------ obligations
  void candidate(State st) {
    if (!wantCands || pointCell || cands.size() >= 9) return;
    Cell c = *cell;
    // choose a point of the cell inside the state
    // what the text says first, then how many characters that takes, single characters, the length last
    auto base = [&](const std::string &n) { size_t k = n.rfind('.'); return n.substr(0, k); };
    auto rank = [&](int i) { auto &in = inputs[(size_t)i]; const std::string &n = in.name; if (!in.env) return ends(n, ".length") ? 5 : 0; return ends(n, ".erange") || ends(n, ".class") ? 1 : ends(n, ".value") ? 2 : ends(n, ".chars") ? 3 : ends(n, ".length") ? 5 : syms[in.sym].k == S_CHR ? 4 : 0; };
    std::vector<int> order; for (int k = 0; k < 6; ++k) for (int i = 0; i < (int)inputs.size(); ++i) if (rank(i) == k) order.push_back(i);
    for (int mode = 0; mode < 3; ++mode) {
      State s = st; Cell x = c; bool ok = true;
      auto settle = [&]() { if (s.facts.size() > 60 || textObjs.empty()) return true; auto fs = s.facts; for (int k = 0; k < 3; ++k) for (auto &f : fs) if (!tighten(f, s)) return false; return true; };
      auto fixedAt = [&](const std::string &n, I &v) { auto f = x.b.find(n); if (f == x.b.end() || f->second.real || f->second.lo != f->second.hi) return false; v = f->second.lo; return true; };
      if (!settle()) continue;
      for (int oi : order) {
        auto &in = inputs[(size_t)oi];
        if (in.b.real) {
          auto &q = x.b[in.name]; q = in.b; auto rr = rangeRSym(in.sym, s);
          R lo = std::max(in.b.rlo, rr.first), hi = std::min(in.b.rhi, rr.second); if (lo > hi) { lo = in.b.rlo; hi = in.b.rhi; }
          R v = mode == 0 ? lo : mode == 1 ? (lo + hi) / 2 : lo + (hi - lo) * 0.38196601125010515L;
          if (in.env) { v = lo; for (R w : {(R)0, (R)1, (R)30, ceill(lo), floorl(hi), (lo + hi) / 2}) if (w >= lo && w <= hi) { v = w; if (mode == 0 || w != 0) break; } }
          double dv = (double)v; q.rlo = q.rhi = dv; continue;
        }
        Rng r = rangeSym(in.sym, s);
        r = meet(r, {in.b.lo, in.b.hi});
        if (r.lo > r.hi) { ok = false; break; }
        I mid = mode == 2 ? r.lo + (r.hi - r.lo) / 1000 * 381 + (r.hi - r.lo) % 1000 * 381 / 1000 : fdiv(r.lo + r.hi, 2);
        I tryv[5] = {mode ? mid : r.lo, mode ? r.hi : r.hi, mode ? r.lo : mid, 0, r.lo + 1};
        I er = 0; if (in.env) fixedAt(base(in.name) + ".erange", er);
        if (in.env && ends(in.name, ".value")) { I z = er ? r.hi : r.lo > 0 ? r.lo : r.hi < 0 ? r.hi : 0; tryv[4] = tryv[0]; tryv[0] = z; }
        if (in.env && ends(in.name, ".chars")) { // room for the digits of the value
          I d = 1, z; auto f = x.b.find(base(in.name) + ".value");
          if (fixedAt(base(in.name) + ".value", z)) d = er ? (z < 0 ? 22 : 21) : (I)i2s(z).size();
          else if (f != x.b.end() && f->second.real) { char b[64]; int w = 0; for (int pr = 1; pr < 18; ++pr) { w = snprintf(b, sizeof b, "%.*g", pr, (double)f->second.rlo); if (strtod(b, nullptr) == (double)f->second.rlo) break; } d = w; }
          if (r.hi > 0) { tryv[4] = tryv[0]; tryv[0] = std::max(r.lo, std::min(r.hi, d)); }
        }
        bool done = false;
        for (I v : tryv) {
          if (v < r.lo || v > r.hi) continue;
          State t = s;
          if (!assume(condEQ(linS(in.sym) - linC(v)), t)) continue;
          if (!textObjs.empty()) { State keep = s; s = std::move(t); if (!settle()) { s = std::move(keep); continue; } } else s = std::move(t);
          auto &q = x.b[in.name]; q = in.b; q.lo = q.hi = v; done = true; break;
        }
        if (!done) { ok = false; break; }
      }
      if (ok) {
        x.depth = 1000; x.trace.clear();
        for (auto &in : inputs) { // at a point, characters are known by their position
          Sym &cs = syms[in.sym]; if (cs.k != S_CHR) continue;
          Rng q = rangeLin(cs.a, s); auto f = x.b.find(in.name); size_t k = in.name.find('[');
          if (q.isConst() && f != x.b.end() && k != std::string::npos) { InputBound v = f->second; x.b[in.name.substr(0, k + 1) + i2s(q.lo) + "]"] = v; }
        }
        cands.push_back(x);
      }
      if (cands.size() >= 9) break;
    }
  }
  // returns true if every case of the boolean structure proves c
  int cases(int c, const State &st, int d, State *bad) {
    int r = decide(c, st);
    if (r == 1) return 1;
    if (r == -1) { if (bad) *bad = st; return -1; }
    if (d <= 0) { if (bad) *bad = st; return 0; }
    // pick an undecided atom
    std::vector<int> at; atoms(c, at, st);
    for (int a : at) {
      State s1 = st, s2 = st;
      bool f1 = assume(a, s1), f2 = assume(-a, s2);
      if (!f1 && !f2) return 1;
      if (at.size() == 1 && f1 && f2 && (a == c || a == -c)) { if (bad) { *bad = a == c ? s2 : s1; } return 0; }
      int r1 = f1 ? cases(c, s1, d - 1, bad) : 1;
      if (r1 != 1) return 0;
      int r2 = f2 ? cases(c, s2, d - 1, bad) : 1;
      return r2 == 1 ? 1 : 0;
    }
    if (bad) *bad = st;
    return 0;
  }
  void atoms(int c, std::vector<int> &o, const State &st) {
    int a = c < 0 ? -c : c; CondKind k = conds[a].k;
    if (k == C_AND) { int x = conds[a].a, y = conds[a].b; atoms(x, o, st); atoms(y, o, st); return; }
    if (k == C_LE || k == C_EQ) {
      // gate conditions inside the linear form come first
      Lin l = conds[a].l;
      for (auto &p : l.t) { if ((syms[p.first].k == S_IND || syms[p.first].k == S_ITE) && decide(syms[p.first].cond, st) == 0) { int g = syms[p.first].cond; atoms(g, o, st); } }
    }
    if (k == C_TRUE) return;
    if (decide(a, st) == 0 && std::find(o.begin(), o.end(), a) == o.end()) o.push_back(a);
  }
  // a proved equality: one of its derived symbols is from now on written with the others
  void rewriteBy(const Lin &l, State &st) {
    for (int i = (int)l.t.size() - 1; i >= 0; --i) {
      int id = l.t[i].first; I co = l.t[i].second;
      if ((co != 1 && co != -1) || syms[id].k == S_IN || syms[id].k == S_RIN) continue;
      Lin r = l; r.add(id, -co); r = scale(r, -co);
      for (auto &p : st.rw) { Lin &m = p.second; for (auto &q : m.t) if (q.first == id) { I k = q.second; Lin n = m; n.add(id, -k); m = n + scale(r, k); break; } }
      st.rw[id] = r; return;
    }
  }
  // a value read from the text that the harness has given another form
  void rewriteToken(const Lin &l, State &st) {
    for (auto &p : l.t) {
      if (syms[p.first].input < 0 || (p.second != 1 && p.second != -1)) continue;
      const std::string &n = inputs[(size_t)syms[p.first].input].name;
      if (!inputs[(size_t)syms[p.first].input].env || n.size() < 6 || n.compare(n.size() - 6, 6, ".value") != 0) continue;
      Lin r = l; r.add(p.first, -p.second); r = scale(r, -p.second);
      for (auto &q : r.t) if (st.rw.count(q.first)) return;
      Rng b = rangeSym(p.first, st); // what is known of the token holds of its new form
      st.rw[p.first] = r; st.cache.clear();
      if (b.hi < INF) { Lin f = r; f.c0 -= b.hi; addFact(st, f); tighten(f, st); }
      if (b.lo > -INF) { Lin f = scale(r, -1); f.c0 += b.lo; addFact(st, f); tighten(f, st); }
      return;
    }
  }
  // substitute gates decided in st inside a condition
  Lin subst(const Lin &l, const State &st) {
    Lin r = linC(l.c0);
    for (auto &p : l.t) {
      if (!st.rw.empty()) { auto w = st.rw.find(p.first); if (w != st.rw.end()) { r = r + scale(w->second, p.second); continue; } }
      Sym s = syms[p.first];
      if (s.k == S_IND || s.k == S_ITE) {
        int d = decide(s.cond, st);
        if (d) { Lin v = s.k == S_IND ? linC(d == 1) : subst(d == 1 ? s.a : s.b, st); r = r + scale(v, p.second); continue; }
      }
      r.add(p.first, p.second);
    }
    return r;
  }
  int substC(int c, const State &st) {
    int a = c < 0 ? -c : c, sg = c < 0 ? -1 : 1; Cond k = conds[a];
    if (k.k == C_LE) return sg * condLE(subst(k.l, st));
    if (k.k == C_EQ) return sg * condEQ(subst(k.l, st));
    if (k.k == C_AND) return sg * condAnd(substC(k.a, st), substC(k.b, st));
    return c;
  }
  long caseBudget = 0;
  int casesTop(int c, const State &st, int d, State *bad) { caseBudget = 150; return casesG(c, st, d, bad); }
  int casesG(int c, const State &st, int d, State *bad) {
    if (--caseBudget < 0) d = 0;
    int c2 = substC(c, st);
    int r = decide(c2, st);
    if (r == 1) return 1;
    if (r == -1) { if (bad) *bad = st; return -1; }
    std::vector<int> at; atoms(c2, at, st);
    if (d <= 0 || at.empty()) { if (bad) { *bad = st; assume(-c2, *bad); } return 0; }
    if (at.size() == 1 && (at[0] == c2 || at[0] == -c2)) { if (bad) { *bad = st; assume(-c2, *bad); } return 0; }
    int a = at[0];
    if (conds[a].k == C_EQ && conds[a].l.t.size() > 1) { // below, equal, above
      Lin l = conds[a].l; State s0 = st, s1 = st, s2 = st;
      Lin lo = l; lo.c0 += 1; Lin hi = scale(l, -1); hi.c0 += 1;
      if (assume(a, s0) && casesG(c2, s0, d - 1, bad) != 1) return 0;
      if (assume(-a, s1) && assume(condLE(lo), s1) && casesG(c2, s1, d - 1, bad) != 1) return 0;
      if (assume(-a, s2) && assume(condLE(hi), s2) && casesG(c2, s2, d - 1, bad) != 1) return 0;
      return 1;
    }
    State s1 = st, s2 = st;
    bool f1 = assume(a, s1), f2 = assume(-a, s2);
    int r1 = f1 ? casesG(c2, s1, d - 1, bad) : 1; if (r1 != 1) return 0;
    int r2 = f2 ? casesG(c2, s2, d - 1, bad) : 1; return r2 == 1 ? 1 : 0;
  }
  // state c must hold. returns false if the path cannot continue
  bool require(const std::string &kind, const std::string &msg, int c, State &st) {
    if (kind != "CHECK" && (!classes.count(kind) || !inRepo())) { int d = decide(c, st); if (d == -1) { markPartial(st, ("other obligation: " + kind + ": " + msg).c_str()); return true; } if (d == 0) assume(c, st); return true; }
    if (kind == "CHECK" && classes.count("NOCHECK")) { // another property's business; what is proved may be used
      if (decide(c, st) == 0 && casesTop(c, st, 10, nullptr) == 1 && c > 0 && conds[c].k == C_EQ) rewriteBy(conds[c].l, st);
      return true;
    }
    ++obligations;
    State bad;
    int d = decide(c, st);
    if (d == 0) {
      d = casesTop(c, st, 10, &bad);
      if (d == 1 && c > 0 && conds[c].k == C_EQ) rewriteBy(conds[c].l, st); // usable later on
    } else if (d == -1) bad = st;
    if (d == 1) { ++discharged; ++checkMsgs[kind == "CHECK" ? msg : kind]; return true; }
    Finding f = mkFinding(kind, msg);
    if (d == -1 && !st.partial && st.depth == 0) { viols.push_back(f); violState = bad; return true; }
    if (pointCell && !inputs.empty()) f.msg += " [" + condStr(c) + "]";
    unks.push_back({f, c, d == -1 || st.partial || st.depth > 0});
    candidate(bad);
    hint(c);
    if (early && !pointCell) throw Abort{""};
    if (d == 0 && !assume(c, st)) return true;
    if (d == -1) markPartial(st, "obligation");
    return true;
  }

  // ------------------------------------------------------------ values
  AV &env(State &st, FInfo &fi, const Value *v) { return st.env[fi.num[v]]; }
  I bitsLo(unsigned w) { return w >= 127 ? -INF : -((I)1 << (w - 1)); }
  I bitsHi(unsigned w) { return w >= 127 ? INF : ((I)1 << (w - 1)) - 1; }

  AV constAV(const Constant *c, State &st) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() == 1) return mkBool(ci->isZero() ? -1 : 1);
      if (ci->getBitWidth() > 64) return mkTop();
      return mkInt((I)ci->getSExtValue());
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      bool lose; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
      return mkFC(f.convertToDouble());
    }
    if (isa<ConstantPointerNull>(c)) return mkPtr(0, linC(0));
    if (auto *f = dyn_cast<Function>(c)) { AV a; a.k = AV::FUNC; a.id = 0; (void)f; return a; }
    if (auto *g = dyn_cast<GlobalVariable>(c)) return mkPtr(globalObj(g, st), linC(0));
    if (isa<UndefValue>(c)) return AV();
    if (c->getType()->isPointerTy()) {
      APInt off(64, 0);
      auto *b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (b != c) if (auto *bc = dyn_cast<Constant>(b)) { AV p = constAV(bc, st); if (p.k == AV::PTR) return mkPtr(p.obj, L(p) + linC((I)off.getSExtValue())); }
      return mkPtr(-1, linC(0));
    }
    if (isa<ConstantAggregate>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantDataSequential>(c)) {
      std::vector<AV> v;
      unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->isArrayTy() ? c->getType()->getArrayNumElements() : 0;
      for (unsigned i = 0; i < n; ++i) v.push_back(constAV(c->getAggregateElement(i), st));
      AV a; a.k = AV::AGG; a.id = (int)aggs.size(); aggs.push_back(v); return a;
    }
    return mkTop();
  }
  int globalObj(const GlobalVariable *g, State &st) {
    auto it = globObj.find(g);
    int id;
    if (it != globObj.end()) id = it->second; else { id = nextObj++; globObj[g] = id; }
    if (g->isConstant()) {
      if (!cobjs.count(id)) {
        auto o = std::make_shared<Obj>(); o->k = Obj::CGLOB; o->name = demangle(g->getName().str());
        o->size = g->hasInitializer() ? (I)DL->getTypeAllocSize(g->getValueType()) : INF;
        o->init = g->hasInitializer() ? g->getInitializer() : nullptr;
        cobjs[id] = o;
      }
    } else if (!st.mem.count(id)) {
      auto o = std::make_shared<Obj>(); o->k = Obj::MGLOB; o->name = demangle(g->getName().str());
      o->size = (I)DL->getTypeAllocSize(g->getValueType());
      o->init = g->hasInitializer() ? g->getInitializer() : nullptr;
      st.mem[id] = o;
    }
    return id;
  }
  AV val(const Value *v, State &st, FInfo &fi) {
    if (auto *c = dyn_cast<Constant>(v)) return constAV(c, st);
    auto it = fi.num.find(v);
    if (it == fi.num.end()) return mkTop();
    AV a = st.env[it->second];
    return a;
  }
  // integer view of a value of width w
  Lin asInt(const AV &a, unsigned w, State &st) {
    if (a.k == AV::INT) return L(a);
    if (a.k == AV::BOOL) { int d = decide(a.id, st); if (d) return linC(d == 1); return indLin(a.id); }
    return linS(opaque("?" + std::to_string(fresh++), bitsLo(w), bitsHi(w)));
  }
  int asCond(const AV &a, State &st) {
    if (a.k == AV::BOOL) return a.id;
    if (a.k == AV::INT) { const Lin l = L(a); return -condEQ(l); }
    return condOpaque("unknown-bit");
  }
  FForm asF0(const AV &a, State &st) { if (a.k == AV::FP) { FForm f = ffs[a.id]; if (f.top && f.kind >= 0 && decide(condEQ(linS(f.kind)), st) == 1) { if (f.mag) { State t = st; return ffs[fabsF(ffs[f.fin], t).id]; } return ffs[f.fin]; } return f; } FForm f; f.cst = false; f.top = true; return f; }
  // at a single point every real is the one the machine computes
  FForm concF(FForm f, const State &st) {
    if (!point || f.cst || f.top || f.err != 0 || f.t.size() > 6) return f;
    R v = f.c0;
    for (auto &p : f.t) { auto r = rangeRSym(p.first, st); if (r.first != r.second || !std::isfinite(r.first)) return f; v += p.second * r.first; }
    double d = (double)v; if ((R)d != v) return f;
    FForm g; g.k = d; return g;
  }
  FForm asF(const AV &a, State &st) { return concF(asF0(a, st), st); }
  Obj *objOf(int id, State &st) {
    auto c = cobjs.find(id); if (c != cobjs.end()) return c->second.get();
    auto m = st.mem.find(id); if (m != st.mem.end()) return m->second.get();
    return nullptr;
  }
  Obj *wobj(int id, State &st) {
    auto m = st.mem.find(id); if (m == st.mem.end()) return nullptr;
    if (m->second.use_count() > 1) m->second = std::make_shared<Obj>(*m->second);
    return m->second.get();
  }
  int newObj(State &st, Obj::K k, I size, const std::string &name) {
    int id = nextObj++; auto o = std::make_shared<Obj>(); o->k = k; o->size = size; o->name = name; st.mem[id] = o; return id;
  }
  // ------------------------------------------------------------ memory
  AV topOf(Type *t) {
    if (t->isIntegerTy(1)) return mkBool(condOpaque("mem"));
    if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) return mkInt(linS(opaque("mem" + std::to_string(fresh++), bitsLo(t->getIntegerBitWidth()), bitsHi(t->getIntegerBitWidth()))));
    if (t->isDoubleTy() || t->isFloatTy()) return mkFTop();
    if (t->isPointerTy()) return mkPtr(-1, linC(0));
    return mkTop();
  }
  bool boundsOk(const AV &p, I sz, State &st, const char *what) {
    if (p.k != AV::PTR || p.obj == -1) return true;
    if (p.obj == 0) { require("OOB", std::string("null pointer ") + what, -1, st); return false; }
    Obj *o = objOf(p.obj, st);
    if (!o) return true;
    if (o->size >= INF && o->k != Obj::CSTR && o->k != Obj::SCHEMA) return true;
    const Lin off = L(p);
    Lin lim = (o->k == Obj::CSTR || o->k == Obj::SCHEMA) ? o->len + linC(1 - sz) : linC(o->size - sz);
    int c = condAnd(condLE(scale(off, -1)), condLE(off - lim));
    std::string m = std::string(what) + " outside " + (o->name.empty() ? "object" : o->name) + (o->k == Obj::CSTR || o->k == Obj::SCHEMA ? " (past its terminator)" : "");
    size_t nv = viols.size();
    require("OOB", m, c, st);
    return viols.size() == nv;
  }
  AV normalize(AV v, Type *t, State &st) { // view stored value v as type t
    if (v.k == AV::TOP || v.k == AV::UNDEF) return topOf(t);
    if (t->isIntegerTy(1)) { if (v.k == AV::BOOL) return v; if (v.k == AV::INT) { Lin l = L(v); return mkBool(-condEQ(l)); } return topOf(t); }
    if (t->isIntegerTy()) { if (v.k == AV::BOOL) return mkInt(asInt(v, 8, st)); if (v.k == AV::INT || v.k == AV::PACK) return v; return topOf(t); }
    if (t->isDoubleTy() || t->isFloatTy()) return v.k == AV::FP ? v : topOf(t);
    if (t->isPointerTy()) { if (v.k == AV::PTR || v.k == AV::FUNC) return v; return topOf(t); }
    return v;
  }
  AV loadConst(Obj *o, I off, Type *t, State &st) {
    auto *init = (const Constant *)o->init;
    if (!init) return topOf(t);
    Type *lt = t->isIntegerTy(1) ? Type::getInt8Ty(M->getContext()) : t;
    Constant *c = ConstantFoldLoadFromConst(const_cast<Constant *>(init), lt, APInt(64, (uint64_t)off, true), *DL);
    if (!c) return topOf(t);
    return normalize(constAV(c, st), t, st);
  }
  AV loadObj(Obj *o, I off, Type *t, I sz, State &st) {
    auto it = o->cells.find(off);
    if (it != o->cells.end() && it->second.size == sz) return normalize(it->second.v, t, st);
    // pack smaller cells
    if (t->isIntegerTy() && sz <= 8) {
      std::vector<std::pair<AV, int>> ps; I p = off; bool ok = true, allc = true; I cv = 0;
      while (p < off + sz) {
        auto c = o->cells.find(p);
        if (c == o->cells.end() || p + c->second.size > off + sz) {
          // padding / undefined bytes
          auto nx = o->cells.upper_bound(p); I e = nx == o->cells.end() ? off + sz : std::min(nx->first, off + sz);
          auto pv = o->cells.lower_bound(p); if (pv != o->cells.begin()) { --pv; if (pv->first + pv->second.size > p) { ok = false; break; } }
          if (o->init || c != o->cells.end()) { ok = false; break; }
          AV u; ps.push_back({u, (int)(e - p)}); allc = false; p = e; continue;
        }
        ps.push_back({c->second.v, (int)c->second.size});
        if (c->second.v.k == AV::INT && L(c->second.v).isConst() && allc) {
          I m = c->second.size >= 8 ? -1 : (((I)1 << (8 * c->second.size)) - 1);
          cv |= (L(c->second.v).c0 & m) << (8 * (p - off));
        } else allc = false;
        p += c->second.size;
      }
      if (ok && !ps.empty()) {
        if (allc) { if (sz < 16) { I sh = 128 - 8 * sz; cv = (I)((unsigned __int128)cv << sh) >> sh; } return mkInt(cv); }
        AV a; a.k = AV::PACK; a.id = (int)packs.size(); packs.push_back(ps); return a;
      }
    }
    // extract from a larger cell
    for (auto c = o->cells.begin(); c != o->cells.end(); ++c) {
      if (c->first <= off && off + sz <= c->first + c->second.size && c->second.size != sz) {
        AV v = c->second.v; I rel = off - c->first;
        if (v.k == AV::PACK) { I p = 0; for (auto &q : packs[v.id]) { if (p == rel && q.second == sz) return normalize(q.first, t, st); p += q.second; } }
        if (v.k == AV::INT && L(v).isConst() && t->isIntegerTy()) { I x = (L(v).c0 >> (8 * rel)); I sh = 128 - 8 * sz; x = (I)((unsigned __int128)x << sh) >> sh; return normalize(mkInt(x), t, st); }
        if (v.k == AV::INT && rel == 0 && t->isIntegerTy()) { Lin l = L(v); Rng r = rangeLin(l, st); if (r.lo >= bitsLo(8 * (unsigned)sz) && r.hi <= bitsHi(8 * (unsigned)sz)) return v; }
        return topOf(t);
      }
    }
    if (o->init && o->k == Obj::MGLOB && o->cells.lower_bound(off) == o->cells.end()) { bool any = false; for (auto &c : o->cells) if (c.first < off + sz && off < c.first + c.second.size) any = true; if (!any) return loadConst(o, off, t, st); }
    if (o->init && o->k == Obj::MGLOB) { bool any = false; for (auto &c : o->cells) if (c.first < off + sz && off < c.first + c.second.size) any = true; if (!any) return loadConst(o, off, t, st); }
    if (o->zero) return t->isIntegerTy() ? mkInt((I)0) : topOf(t);
    return topOf(t);
  }
  std::string shortForm(const Lin &off) {
    std::string s = linStr(off); if (s.size() <= 48) return s;
    uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    char b[32]; snprintf(b, sizeof b, "~%08llx", (unsigned long long)(h & 0xffffffffffull)); return b;
  }
  AV charAt(int objId, Obj *o, Lin off, State &st) {
    if (pointCell && !off.isConst()) { Rng q = rangeLin(off, st); if (q.isConst()) off = linC(q.lo); }
    int d = decide(condEQ(off - o->len), st);
    if (d == 1) return mkInt((I)0);
    if (o->k == Obj::SCHEMA) {
      for (auto &s : schemas[o->schema].segs) {
        Lin rel = off - s.start;
        if (s.kind == 1 && decide(condEQ(rel), st) == 1) return s.val;
        if (s.kind != 1 && decide(condLE(scale(rel, -1)), st) == 1 && decide(condLE(rel - s.len + linC(1)), st) == 1)
          return mkInt(linS(opaque("digit" + std::to_string(fresh++), s.kind == 0 ? '0' : '.', '9')));
      }
      return mkInt(linS(opaque("char" + std::to_string(fresh++), -128, 127)));
    }
    std::string nm = o->name + "[" + shortForm(off) + "]";
    std::string key = "CHR" + std::to_string(objId); putLin(key, off);
    auto it = symKey.find(key);
    int id;
    if (it != symKey.end()) id = it->second;
    else {
      // characters are inputs of their own (refinable)
      InputBound b; b.lo = -128; b.hi = 127;
      auto c = cell->b.find(nm); if (c != cell->b.end()) { b.lo = std::max(b.lo, c->second.lo); b.hi = std::min(b.hi, c->second.hi); }
      else if (pointCell) b.lo = b.hi = d == 1 ? 0 : ':';
      Sym s; s.k = S_CHR; s.name = nm; s.base = {b.lo, b.hi}; s.a = off; s.b = o->len; s.obj = (void *)1; s.input = (int)inputs.size();
      id = newSym(s, key); inputIdx[nm] = (int)inputs.size(); inputs.push_back({nm, b, id, true}); cellLines(st);
    }
    Rng r = rangeSym(id, st);
    if (d == -1 && r.lo == 0 && r.hi == 0) throw Abort{"infeasible"};
    if (d == -1) { if (r.lo == 0) { assume(condLE(linC(1) - linS(id)), st); } else if (r.hi == 0) assume(condLE(linS(id) + linC(1)), st); }
    if (r.lo == r.hi && r.lo != 0 && d == 0) { /* non-zero character: not the terminator */ assume(-condEQ(off - o->len), st); }
    if ((r.lo > 0 || r.hi < 0) && d == 0) assume(-condEQ(off - o->len), st);
    return mkInt(linS(id));
  }
  AV load(const AV &p, Type *t, State &st) {
    if (p.k != AV::PTR || p.obj == -1) return topOf(t);
    I sz = (I)DL->getTypeStoreSize(t);
    if (!boundsOk(p, sz, st, "read")) return topOf(t);
    Obj *o = objOf(p.obj, st);
    if (!o) return topOf(t);
    Lin off = L(p);
    if (!off.isConst()) { off = subst(off, st); Rng r = rangeLin(off, st); if (r.isConst()) off = linC(r.lo); }
    if (o->k == Obj::CSTR || o->k == Obj::SCHEMA) { if (sz != 1) return topOf(t); return charAt(p.obj, o, off, st); }
    if (t->isStructTy() || t->isArrayTy()) {
      if (!off.isConst()) return mkTop();
      std::vector<AV> v;
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned i = 0; i < n; ++i) {
        Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
        I eo = t->isStructTy() ? (I)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : (I)i * (I)DL->getTypeAllocSize(et);
        v.push_back(load(mkPtr(p.obj, off + linC(eo)), et, st));
      }
      AV a; a.k = AV::AGG; a.id = (int)aggs.size(); aggs.push_back(v); return a;
    }
    if (off.isConst()) return o->k == Obj::CGLOB ? loadConst(o, off.c0, t, st) : loadObj(o, off.c0, t, sz, st);
    // table lookup at a symbolic index
    Rng r = rangeLin(off, st);
    r = meet(r, {0, o->size - sz});
    I g = 0; for (auto &q : off.t) g = gcdI(g, q.second);
    if (!g) g = 1;
    I first = r.lo + (((off.c0 - r.lo) % g) + g) % g;
    if (r.hi >= INF || r.lo <= -INF || (r.hi - first) / g > 8192) return topOf(t);
    bool same = true; AV v0; Rng h; bool firstV = true, ints = true;
    for (I x = first; x <= r.hi; x += g) {
      AV v = o->k == Obj::CGLOB ? loadConst(o, x, t, st) : loadObj(o, x, t, sz, st);
      if (v.k != AV::INT) ints = false;
      Rng vr; if (v.k == AV::INT) vr = rangeLin(Lin(L(v)), st);
      if (firstV) { v0 = v; h = vr; firstV = false; }
      else { if (!(v == v0)) same = false; h = hull(h, vr); }
    }
    if (firstV) return topOf(t);
    if (same) return v0;
    { int c = condLE(off - linC(fdiv(first + r.hi, 2))); hint(c); }
    if (!ints) return topOf(t);
    Sym s; s.k = S_TAB; s.name = o->name; s.a = off; s.base = h;
    std::string key;
    if (o->k == Obj::CGLOB) { key = "TAB" + std::to_string(p.obj) + ":" + std::to_string((long)sz) + ":"; putLin(key, off); }
    int id = newSym(s, key);
    if (!key.empty()) { st.bnd[id] = st.bnd.count(id) ? meet(st.bnd[id], h) : h; syms[id].base = hull(syms[id].base, h); st.cache.clear(); }
    return mkInt(linS(id));
  }
  void clobber(Obj *o, I off, I sz) {
    while (!o->strs.empty() && o->strs.begin()->first <= -16) o->strs.erase(o->strs.begin()); // a text printed there
    for (auto it = o->cells.begin(); it != o->cells.end();) {
      I a = it->first, b = it->first + it->second.size;
      if (a < off + sz && off < b) {
        AV v = it->second.v;
        std::vector<std::pair<I, MCell>> keep;
        if (v.k == AV::PACK) { I p = a; for (auto &q : packs[v.id]) { if (p + q.second <= off || p >= off + sz) keep.push_back({p, {q.second, q.first}}); p += q.second; } }
        it = o->cells.erase(it);
        for (auto &k : keep) o->cells[k.first] = k.second;
        if (!keep.empty()) it = o->cells.begin();
      } else ++it;
    }
  }
  void storeObj(Obj *o, I off, I sz, AV v) {
    clobber(o, off, sz);
    for (auto it = o->strs.begin(); it != o->strs.end();) { if (it->first >= off && it->first < off + sz) it = o->strs.erase(it); else ++it; }
    if (v.k == AV::UNDEF) { if (o->init || o->zero) { AV t = mkTop(); o->cells[off] = {sz, t}; } return; }
    if (v.k == AV::PACK) { I p = off; for (auto q : packs[v.id]) { if (q.first.k != AV::UNDEF) o->cells[p] = {q.second, q.first}; p += q.second; } return; }
    o->cells[off] = {sz, v};
  }
  void store(const AV &p, AV v, Type *t, State &st) {
    if (p.k != AV::PTR || p.obj == -1) {
      // store through an unknown pointer: forget every escaped object (none of the
      // analysed code does this; be sound)
      if (p.k == AV::PTR || p.k == AV::TOP) for (auto &m : st.mem) if (m.second->k != Obj::CSTR && m.second->k != Obj::SCHEMA) { Obj *o = wobj(m.first, st); for (auto &c : o->cells) c.second.v = mkTop(); o->strs.clear(); }
      return;
    }
    I sz = (I)DL->getTypeStoreSize(t);
    if (!boundsOk(p, sz, st, "write")) return;
    Obj *o = wobj(p.obj, st);
    if (!o) { require("OOB", "write to constant object", -1, st); return; }
    if (o->k == Obj::CSTR || o->k == Obj::SCHEMA) { require("OOB", "write into the caller's text", -1, st); return; }
    Lin off = L(p);
    if (!off.isConst()) { off = subst(off, st); Rng r = rangeLin(off, st); if (r.isConst()) off = linC(r.lo); }
    if (!off.isConst()) { AV top = mkTop(); for (auto &c : o->cells) c.second.v = top; o->strs.clear(); hint(condLE(off)); if (o->init) { o->init = nullptr; } return; }
    if (v.k == AV::AGG) {
      auto elems = aggs[v.id];
      for (unsigned i = 0; i < elems.size(); ++i) {
        Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
        I eo = t->isStructTy() ? (I)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : (I)i * (I)DL->getTypeAllocSize(et);
        store(mkPtr(p.obj, off + linC(eo)), elems[i], et, st);
      }
      return;
    }
    storeObj(o, off.c0, sz, v);
  }
  void copyMem(const AV &d, const AV &s, I n, State &st) {
    if (n <= 0) return;
    boundsOk(s, n, st, "read"); boundsOk(d, n, st, "write");
    if (d.k != AV::PTR || d.obj <= 0) return;
    Obj *o = wobj(d.obj, st); if (!o) return;
    Lin doff = L(d); if (!doff.isConst()) { for (auto &c : o->cells) c.second.v = mkTop(); o->strs.clear(); return; }
    I D = doff.c0;
    Obj *so = s.k == AV::PTR && s.obj > 0 ? objOf(s.obj, st) : nullptr;
    if (!so) { clobber(o, D, n); if (o->init || o->zero) o->cells[D] = {n, mkTop()}; return; }
    Lin soff = L(s);
    if (so->k == Obj::CSTR || so->k == Obj::SCHEMA) {
      clobber(o, D, n); Obj keep = *so;
      for (I i = 0; i < n && n <= 64; ++i) { AV c = charAt(s.obj, &keep, soff + linC(i), st); o = wobj(d.obj, st); o->cells[D + i] = {1, c}; }
      return;
    }
    if (!soff.isConst()) { clobber(o, D, n); return; }
    I S = soff.c0;
    if (so->k == Obj::CGLOB) {
      // copy scalar by scalar following the initializer's type
      clobber(o, D, n);
      auto *init = (const Constant *)so->init; if (!init) return;
      std::function<void(Type *, I)> rec = [&](Type *t, I base) {
        I ts = (I)DL->getTypeAllocSize(t);
        if (base >= S + n || base + ts <= S) return;
        if (t->isStructTy()) { for (unsigned i = 0; i < t->getStructNumElements(); ++i) rec(t->getStructElementType(i), base + (I)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i)); return; }
        if (t->isArrayTy()) { I es = (I)DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); ++i) rec(t->getArrayElementType(), base + (I)i * es); return; }
        I sz = (I)DL->getTypeStoreSize(t);
        if (base < S || base + sz > S + n) return;
        AV v = loadConst(so, base, t, st); o = wobj(d.obj, st);
        o->cells[D + base - S] = {sz, v};
      };
      rec(init->getType(), 0);
      return;
    }
    Obj copy = *so;
    clobber(o, D, n);
    for (auto &c : copy.cells) {
      if (c.first >= S && c.first + c.second.size <= S + n) o->cells[D + c.first - S] = c.second;
      else if (c.first < S + n && S < c.first + c.second.size) {
        I a = std::max(c.first, S), b = std::min(c.first + c.second.size, S + n);
        Type *it = Type::getIntNTy(M->getContext(), (unsigned)(8 * (b - a)));
        AV v = (b - a) <= 8 ? loadObj(&copy, a, it, b - a, st) : mkTop();
        o = wobj(d.obj, st);
        storeObj(o, D + a - S, b - a, v);
      }
    }
    for (auto &x : copy.strs) if (x.first >= S && x.first < S + n) o->strs[D + x.first - S] = x.second;
  }

  // ------------------------------------------------------------ joins
  AV joinAV(int c, const AV &a, State &A, const AV &b, State &B, State &J) {
    if (a == b) return a;
    if (a.k == AV::UNDEF) return b.k == AV::UNDEF ? a : mkTop();
    if (b.k == AV::UNDEF) return mkTop();
    if ((a.k == AV::INT || a.k == AV::BOOL) && (b.k == AV::INT || b.k == AV::BOOL) && !(a.k == AV::BOOL && b.k == AV::BOOL)) {
      Lin x = asInt(a, 64, A), y = asInt(b, 64, B);
      return joinLin(c, x, A, y, B, J);
    }
    if (a.k == AV::BOOL && b.k == AV::BOOL) {
      int x = a.id, y = b.id;
      int dx = decide(x, A), dy = decide(y, B);
      if (dx) x = dx; if (dy) y = dy; // constants true(1)/false(-1)
      return mkBool(condIte(c, x, y));
    }
    if (a.k == AV::PTR && b.k == AV::PTR && a.obj == b.obj && a.obj > 0) {
      AV v = joinLin(c, L(a), A, L(b), B, J);
      return mkPtr(a.obj, L(v));
    }
    if (a.k == AV::PTR && b.k == AV::PTR) return mkPtr(-1, linC(0));
    if (a.k == AV::FP && b.k == AV::FP) {
      auto ra = rangeF(a.id, A), rb = rangeF(b.id, B);
      Sym s; s.k = S_ROP; s.name = "joined-real"; s.rlo = std::min(ra.first, rb.first); s.rhi = std::max(ra.second, rb.second);
      if (!(s.rlo > -1e300L && s.rhi < 1e300L)) return mkFTop();
      FForm f; f.cst = false; f.t.push_back({newSym(s), 1}); return mkF(f);
    }
    if (a.k == AV::AGG && b.k == AV::AGG) {
      auto va = aggs[a.id], vb = aggs[b.id];
      if (va.size() == vb.size()) { std::vector<AV> v; for (size_t i = 0; i < va.size(); ++i) v.push_back(joinAV(c, va[i], A, vb[i], B, J)); AV r; r.k = AV::AGG; r.id = (int)aggs.size(); aggs.push_back(v); return r; }
    }
    if (a.k == AV::PACK && b.k == AV::PACK) {
      auto va = packs[a.id], vb = packs[b.id];
      bool ok = va.size() == vb.size(); for (size_t i = 0; ok && i < va.size(); ++i) ok = va[i].second == vb[i].second;
      if (ok) { std::vector<std::pair<AV, int>> v; for (size_t i = 0; i < va.size(); ++i) v.push_back({joinAV(c, va[i].first, A, vb[i].first, B, J), va[i].second}); AV r; r.k = AV::PACK; r.id = (int)packs.size(); packs.push_back(v); return r; }
    }
    return mkTop();
  }
  AV joinLin(int c, Lin x, State &A, Lin y, State &B, State &J) {
    x = subst(x, A); y = subst(y, B);
    if (x == y) return mkInt(x);
    Rng ra = sharp(x, A), rb = sharp(y, B);
    if (ra.isConst()) x = linC(ra.lo);
    if (rb.isConst()) y = linC(rb.lo);
    if (x == y) return mkInt(x);
    Lin d = x - y, v; Rng h = hull(ra, rb);
    if (c < 0) { c = -c; std::swap(x, y); d = scale(d, -1); }
    v = joinGate(c, d, x, y);
    if (d.isConst()) { Rng n = rangeLin(v, J); if (h.hi < n.hi) { Lin f = v; f.c0 -= h.hi; addFact(J, f); } if (h.lo > n.lo) { Lin f = scale(v, -1); f.c0 += h.lo; addFact(J, f); } } // keep the sharper range
    if (v.t.size() == 1 && v.c0 == 0 && syms[v.t[0].first].k == S_ITE) { J.bnd[v.t[0].first] = h; J.cache.clear(); }
    for (auto &T : templates) { // relational join: stays within a text
      for (int k = 0; k <= 1; ++k) {
        Lin la = (&A == nullptr) ? x : x;
        (void)la;
      }
    }
    return mkInt(v);
  }
  Lin joinGate(int c, const Lin &d, const Lin &x, const Lin &y) {
    if (d.isConst()) return y + scale(indLin(c), d.c0);
    return gateSym(c, x, y);
  }
  Lin gateSym(int c, const Lin &x, const Lin &y) {
    Sym s; s.k = S_ITE; s.cond = c; s.a = x; s.b = y;
    std::string k = "J"; put(k, c); putLin(k, x); putLin(k, y);
    return linS(newSym(s, k));
  }
  // offsets into a text: keep "<= length" and ">= 0" across the join
  void relate(const AV &j, const AV &a, State &A, const AV &b, State &B, State &J) {
    if (j.k != AV::PTR || j.obj <= 0 || a.k != AV::PTR || b.k != AV::PTR) return;
    Obj *o = objOf(j.obj, J); if (!o || (o->k != Obj::CSTR && o->k != Obj::SCHEMA)) return;
    Lin T = o->len, v = L(j), x = L(a), y = L(b);
    for (int k = 1; k >= 0; --k) {
      Lin lx = x - T + linC(k), ly = y - T + linC(k);
      if (proveLE(lx, A) && proveLE(ly, B)) { Lin f = v - T + linC(k); if (!proveLE(f, J)) { addFact(J, f); tighten(f, J); } break; }
    }
    Lin nx = scale(x, -1), ny = scale(y, -1), nv = scale(v, -1);
    if (proveLE(nx, A) && proveLE(ny, B) && !proveLE(nv, J)) { addFact(J, nv); tighten(nv, J); }
  }
  State join(State A, State B, int c) {
    State J;
    for (auto &p : A.bnd) { auto q = B.bnd.find(p.first); if (q != B.bnd.end()) J.bnd[p.first] = hull(p.second, q->second); }
    size_t n = 0; while (n < A.facts.size() && n < B.facts.size() && A.facts[n] == B.facts[n]) { J.facts.push_back(A.facts[n]); ++n; }
    for (size_t i = n; i < A.facts.size() && i < n + 12; ++i) if (proveLE(A.facts[i], B)) addFact(J, A.facts[i]);
    for (size_t i = n; i < B.facts.size() && i < n + 12; ++i) if (proveLE(B.facts[i], A)) addFact(J, B.facts[i]);
    for (int x : A.cf) if (B.cf.count(x)) J.cf.insert(x);
    J.disj = A.disj;
    for (auto &p : A.rw) { auto q = B.rw.find(p.first); if (q != B.rw.end() && q->second == p.second) J.rw[p.first] = p.second; }
    for (auto &p : A.rb) { auto q = B.rb.find(p.first); if (q != B.rb.end()) J.rb[p.first] = {std::min(p.second.first, q->second.first), std::max(p.second.second, q->second.second)}; }
    J.visits = A.visits; for (auto &p : J.visits) { auto q = B.visits.find(p.first); if (q == B.visits.end() || q->second != p.second) p.second = -1; }
    for (auto &p : B.visits) if (!J.visits.count(p.first)) J.visits[p.first] = -1;
    J.partial = A.partial || B.partial; J.depth = A.depth; J.caught = A.caught; J.exc = A.exc == B.exc ? A.exc : "";
    for (auto &m : A.mem) {
      auto q = B.mem.find(m.first); if (q == B.mem.end()) continue;
      if (m.second == q->second) { J.mem[m.first] = m.second; continue; }
      auto o = std::make_shared<Obj>(*m.second); Obj &ob = *q->second;
      if (o->init != ob.init) o->init = nullptr;
      std::map<I, MCell> nc;
      for (auto &cl : o->cells) {
        auto f = ob.cells.find(cl.first);
        if (f != ob.cells.end() && f->second.size == cl.second.size) {
          AV v = joinAV(c, cl.second.v, A, f->second.v, B, J); relate(v, cl.second.v, A, f->second.v, B, J);
          nc[cl.first] = {cl.second.size, v};
        } else if (o->init || o->zero) nc[cl.first] = {cl.second.size, mkTop()};
      }
      if (o->init || o->zero) for (auto &cl : ob.cells) if (!nc.count(cl.first)) nc[cl.first] = {cl.second.size, mkTop()};
      o->cells.swap(nc);
      std::map<I, StrVal> ns;
      for (auto &s : o->strs) {
        auto f = ob.strs.find(s.first);
        if (f != ob.strs.end()) {
          if (f->second == s.second) ns[s.first] = s.second;
          else {
            // gate token values when the shapes agree
            StrVal x = s.second; bool ok = x.known && f->second.known && x.t.size() == f->second.t.size();
            for (size_t i = 0; ok && i < x.t.size(); ++i) {
              Tok &p = x.t[i]; const Tok &q2 = f->second.t[i];
              if (p == q2) continue;
              if (p.k == q2.k && p.s == q2.s && p.width == q2.width && p.fill == q2.fill && p.prec == q2.prec && p.fixed == q2.fixed) p.v = joinAV(c, p.v, A, q2.v, B, J);
              else ok = false;
            }
            if (!ok) { x = StrVal(); x.known = false; }
            ns[s.first] = x;
          }
        }
      }
      o->strs.swap(ns);
      J.mem[m.first] = o;
    }
    J.env.resize(A.env.size());
    for (size_t i = 0; i < A.env.size() && i < B.env.size(); ++i) {
      if (A.env[i] == B.env[i]) J.env[i] = A.env[i];
      else { J.env[i] = joinAV(c, A.env[i], A, B.env[i], B, J); relate(J.env[i], A.env[i], A, B.env[i], B, J); }
    }
    return J;
  }

  // ------------------------------------------------------------ execution
  std::pair<uint64_t, int> visit(const Instruction *in, Frame &fr, State &st) { // the n-th execution of an instruction under trace partitioning
    if (textObjs.empty() || !traced(fr.F)) return {0, -1};
    uint64_t h = 1469598103934665603ull; auto mix = [&](const void *p) { h = (h ^ (uint64_t)(uintptr_t)p) * 1099511628211ull; };
    for (auto *q : stack) mix(q);
    mix(in);
    int &n = st.visits[h]; if (n < 0) return {0, -1};
    return {h, n++};
  }
  void follow(const std::pair<uint64_t, int> &k, int c, int &d, State &st) {
    if (k.second < 0) return;
    auto tr = cell->trace.find(k); if (tr == cell->trace.end()) return;
    if (traceVerbose) traceLog.push_back((tr->second ? "+" : "-") + condStr(c) + (d ? " decided" : ""));
    if (d && (d == 1) != tr->second) throw Abort{"infeasible"};
    if (!d) { hint(c); if (!assume(tr->second ? c : -c, st)) throw Abort{"infeasible"}; markPartial(st, "trace"); d = tr->second ? 1 : -1; }
  }
  bool tracePoint(const std::pair<uint64_t, int> &k) {
    if (k.second < 0 || cell->trace.size() >= traceMax || pointCell) return false;
    traceAt = k; throw Abort{"trace"};
  }
  // functions that take text: their branches are told apart by trace partitioning
  std::map<const Function *, bool> tracedFn;
  bool traced(const Function *F) {
    auto it = tracedFn.find(F); if (it != tracedFn.end()) return it->second;
    std::string n = F->getName().str();
    bool r = n.rfind("_ZN", 0) == 0 && (n.find("Kc") != std::string::npos || n.find("Pc") != std::string::npos) && n.rfind("_ZNSt", 0) != 0 && n.rfind("_ZNKSt", 0) != 0;
    return tracedFn[F] = r;
  }
  std::optional<State> enter(Frame &fr, State st, const BasicBlock *from, const BasicBlock *to, const BasicBlock *stop) {
    phis(fr, st, from, to);
    if (to == stop) return st;
    return exec(fr, std::move(st), to, stop);
  }
  void phis(Frame &fr, State &st, const BasicBlock *from, const BasicBlock *to) {
    std::vector<std::pair<int, AV>> up;
    for (auto &i : *to) {
      auto *p = dyn_cast<PHINode>(&i); if (!p) break;
      up.push_back({fr.fi->num[p], val(p->getIncomingValueForBlock(from), st, *fr.fi)});
    }
    for (auto &u : up) st.env[u.first] = u.second;
  }
  // run the alternatives and join them at ip (null: they all run to completion)
  std::optional<State> forkArms(Frame &fr, std::vector<std::pair<State, const BasicBlock *>> arms, const BasicBlock *from, const BasicBlock *ip, int cond, bool partialIfAny) {
    std::optional<State> res; bool lost = false;
    if (traceVerbose) traceLog.push_back("fork on " + (cond ? condStr(cond) : std::string("-")) + " in " + fr.fi->dem.substr(0, 60));
    if (++forkCount > 20000) throw Abort{"too many undecided branches"};
    int depth0 = arms[0].first.depth;
    if (depth0 > 60) throw Abort{"undecided branches nested too deeply"};
    size_t k = 0;
    for (auto &a : arms) {
      a.first.depth = depth0 + 1;
      size_t sd = stack.size(); int cd = callDepth;
      std::optional<State> r;
      try { r = enter(fr, std::move(a.first), from, a.second, ip); }
      catch (Abort &x) { if (x.why != "infeasible") throw; stack.resize(sd); callDepth = cd; ++k; continue; } // this arm has no executions
      if (!r || !ip) { lost = true; ++k; continue; }
      if (!res) res = std::move(r);
      else res = join(std::move(*res), std::move(*r), k == 1 && cond ? cond : condOpaque("choice"));
      ++k;
    }
    if (res) { res->depth = depth0; if (lost || partialIfAny) markPartial(*res, "fork"); }
    return res;
  }
  std::optional<State> exec(Frame &fr, State st, const BasicBlock *bb, const BasicBlock *stop) {
    while (true) {
      const Instruction *term = bb->getTerminator();
      for (auto &ii : *bb) {
        const Instruction *i = &ii;
        if (isa<PHINode>(i)) continue;
        if (i == term) break;
        if (++steps > maxSteps) throw Abort{"step limit"};
        if (auto *ci = dyn_cast<CallInst>(i)) {
          stack.push_back(i);
          auto outs = doCall(fr, *ci, st);
          stack.pop_back();
          std::optional<State> cont;
          bool any = false;
          for (auto &o : outs) {
            if (o.thrown) { any = true; fr.outs.push_back(std::move(o)); }
            else { o.st.env[fr.fi->num[i]] = o.ret; cont = std::move(o.st); }
          }
          if (!cont) return std::nullopt;
          if (any && callDepth == 1 && early && !pointCell && !classes.count("NOCHECK") && !cont->partial) for (auto &o : fr.outs) if (o.thrown) candidate(o.st);
          if (any && callDepth == 1 && early && !pointCell && !classes.count("NOCHECK")) throw Abort{"an exception may leave the harness"};
          st = std::move(*cont); if (any) markPartial(st, "call");
          continue;
        }
        stack.push_back(i);
        AV r = simple(*i, st, *fr.fi, fr);
        stack.pop_back();
        if (!i->getType()->isVoidTy()) st.env[fr.fi->num[i]] = r;
      }
      if (++steps > maxSteps) throw Abort{"step limit"};
      // terminator
      if (auto *ri = dyn_cast<ReturnInst>(term)) {
        Out o; o.ret = ri->getReturnValue() ? val(ri->getReturnValue(), st, *fr.fi) : AV();
        o.st = std::move(st); fr.outs.push_back(std::move(o)); return std::nullopt;
      }
      if (auto *br = dyn_cast<BranchInst>(term)) {
        const BasicBlock *nx;
        if (br->isUnconditional()) nx = br->getSuccessor(0);
        else {
          AV cv = val(br->getCondition(), st, *fr.fi);
          int c = substC(asCond(cv, st), st);
          int d = decide(c, st);
          auto tkey = visit(br, fr, st);
          if (!d) { // is one side infeasible by case analysis on gates?
            std::vector<int> at; atoms(c, at, st);
            if (!(at.size() == 1 && (at[0] == c || at[0] == -c))) { int q = casesTop(c, st, 6, nullptr); if (q == 1) d = 1; else { q = casesTop(-c, st, 6, nullptr); if (q == 1) d = -1; } }
          }
          follow(tkey, c, d, st);
          if (d) nx = br->getSuccessor(d == 1 ? 0 : 1);
          else {
            hint(c);
            State a = st, b = st;
            bool fa = assume(c, a), fb = assume(-c, b);
            if (!fa && !fb) throw Abort{"infeasible"};
            if (!fa) { st = std::move(b); nx = br->getSuccessor(1); }
            else if (!fb) { st = std::move(a); nx = br->getSuccessor(0); }
            else if (tracePoint(tkey)) {}
            else {
              const BasicBlock *ip = nullptr; auto f = fr.fi->ipdom.find(bb); if (f != fr.fi->ipdom.end()) ip = f->second;
              std::vector<std::pair<State, const BasicBlock *>> arms;
              arms.push_back({std::move(a), br->getSuccessor(0)}); arms.push_back({std::move(b), br->getSuccessor(1)});
              auto r = forkArms(fr, std::move(arms), bb, ip, c, false);
              if (!r) return std::nullopt;
              st = std::move(*r); bb = ip; if (bb == stop) return st; continue;
            }
          }
        }
        phis(fr, st, bb, nx);
        bb = nx; if (bb == stop) return st; continue;
      }
      if (auto *sw = dyn_cast<SwitchInst>(term)) {
        Lin x = asInt(val(sw->getCondition(), st, *fr.fi), sw->getCondition()->getType()->getIntegerBitWidth(), st);
        std::vector<std::pair<State, const BasicBlock *>> arms;
        bool done = false; const BasicBlock *only = nullptr;
        for (auto &cs : sw->cases()) {
          int c = condEQ(x - linC(cs.getCaseValue()->getSExtValue()));
          int d = decide(c, st);
          if (d == 1) { if (arms.empty()) only = cs.getCaseSuccessor(); else arms.push_back({st, cs.getCaseSuccessor()}); done = true; break; }
          if (d == -1) continue;
          hint(c);
          State a = st; if (assume(c, a)) arms.push_back({std::move(a), cs.getCaseSuccessor()});
          if (!assume(-c, st)) { done = true; break; }
        }
        if (!done) { if (arms.empty()) only = sw->getDefaultDest(); else arms.push_back({st, sw->getDefaultDest()}); }
        if (arms.size() == 1 && !only) { st = std::move(arms[0].first); only = arms[0].second; arms.clear(); }
        if (arms.empty()) { phis(fr, st, bb, only); bb = only; if (bb == stop) return st; continue; }
        const BasicBlock *ip = nullptr; auto f = fr.fi->ipdom.find(bb); if (f != fr.fi->ipdom.end()) ip = f->second;
        auto r = forkArms(fr, std::move(arms), bb, ip, 0, false);
        if (!r) return std::nullopt;
        st = std::move(*r); bb = ip; if (bb == stop) return st; continue;
      }
      if (auto *iv = dyn_cast<InvokeInst>(term)) {
        stack.push_back(iv);
        auto outs = doCall(fr, *iv, st);
        stack.pop_back();
        std::vector<std::pair<State, const BasicBlock *>> arms;
        for (auto &o : outs) {
          if (!o.thrown) { o.st.env[fr.fi->num[iv]] = o.ret; arms.push_back({std::move(o.st), iv->getNormalDest()}); continue; }
          // does the landing pad take it?
          auto *lp = iv->getUnwindDest()->getLandingPadInst();
          bool takes = lp->isCleanup();
          for (unsigned k = 0; k < lp->getNumClauses(); ++k) if (lp->isCatch(k) && catches(lp->getClause(k), o.ex)) takes = true;
          for (unsigned k = 0; k < lp->getNumClauses(); ++k) if (lp->isFilter(k)) takes = true;
          if (!takes) { fr.outs.push_back(std::move(o)); continue; }
          o.st.exc = o.ex;
          arms.push_back({std::move(o.st), iv->getUnwindDest()});
        }
        if (arms.empty()) return std::nullopt;
        if (arms.size() == 1) { st = std::move(arms[0].first); const BasicBlock *nx = arms[0].second; phis(fr, st, bb, nx); bb = nx; if (bb == stop) return st; continue; }
        const BasicBlock *ip = nullptr; auto f = fr.fi->ipdom.find(bb); if (f != fr.fi->ipdom.end()) ip = f->second;
        auto r = forkArms(fr, std::move(arms), bb, ip, 0, true);
        if (!r) return std::nullopt;
        st = std::move(*r); bb = ip; if (bb == stop) return st; continue;
      }
      if (isa<ResumeInst>(term)) { Out o; o.thrown = true; o.ex = st.exc; o.st = std::move(st); fr.outs.push_back(std::move(o)); return std::nullopt; }
      if (isa<UnreachableInst>(term)) return std::nullopt;
      throw Abort{"unsupported terminator"};
    }
  }
  // ------------------------------------------------------------ exceptions
  static const std::map<std::string, std::string> &stdBases() {
    static const std::map<std::string, std::string> m = {
      {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
      {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
      {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
      {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
      {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
      {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
    return m;
  }
  bool derives(std::string ex, const std::string &base) {
    for (int k = 0; k < 10; ++k) {
      if (ex == base) return true;
      auto it = stdBases().find(ex);
      if (it != stdBases().end()) { ex = it->second; continue; }
      auto *g = M->getNamedGlobal(ex);
      if (g && g->hasInitializer() && g->getInitializer()->getNumOperands() >= 3) {
        auto *b = g->getInitializer()->getOperand(2)->stripPointerCasts();
        if (auto *bg = dyn_cast<GlobalVariable>(b)) { ex = bg->getName().str(); continue; }
      }
      return false;
    }
    return false;
  }
  bool catches(const Constant *clause, const std::string &ex) {
    if (isa<ConstantPointerNull>(clause)) return true;
    if (auto *g = dyn_cast<GlobalVariable>(clause->stripPointerCasts())) return derives(ex, g->getName().str());
    return false;
  }
  I typeId(const Value *g) {
    static std::map<std::string, I> ids;
    std::string n = isa<ConstantPointerNull>(g) ? "<all>" : g->stripPointerCasts()->getName().str();
    auto it = ids.find(n); if (it != ids.end()) return it->second;
    I v = (I)ids.size() + 1; ids[n] = v; return v;
  }

#include "ops.inc"
#include "calls.inc"
};
