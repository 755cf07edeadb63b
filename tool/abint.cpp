// abint: abstract interpreter for the ggdatetime library (static analysis).
// usage: abint module.bc --entry f [--entry g ...] --classes OVF,OOB --out f.json
//              [--max-cells N] [--time S] [--repo /repo/]
#include "interp.hpp"
#include <chrono>
#include <fstream>
#include <iostream>
#include <random>
#include <deque>

struct Result { int status; /*0 proved 1 refuted 2 unknown 3 empty*/ };

struct Driver {
  Interp I_;
  double tlimit = 60; long maxCells = 200000;
  unsigned seed = 1;
  bool verbose = false;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  double el() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  long totalObl = 0, totalDis = 0, totalSteps = 0, cells = 0, proved = 0, unknownCells = 0, emptyCells = 0, pointCells = 0;
  struct V { Finding f; std::string entry, cell; };
  std::vector<V> viols;
  std::map<std::string, std::pair<long, std::string>> unknowns;
  std::map<std::string, std::array<long, 4>> perEntry;
  std::map<std::string, std::set<std::string>> entryInputs;
  std::set<std::string> reachedAll;

  std::string cellStr(const Cell &c) {
    std::string s;
    for (auto &in : I_.inputs) {
      if (!s.empty()) s += ", ";
      char b[96];
      if (in.b.real) { if (in.b.rlo == in.b.rhi) snprintf(b, sizeof b, "%.17Lg", in.b.rlo); else snprintf(b, sizeof b, "[%.10Lg,%.10Lg]", in.b.rlo, in.b.rhi); s += in.name + "=" + b; }
      else s += in.name + "=" + (in.b.lo == in.b.hi ? i2s(in.b.lo) : "[" + i2s(in.b.lo) + "," + i2s(in.b.hi) + "]");
    }
    return s;
  }
  // ---- realisability of texts: build a text with the claimed tokens and check it with the host's strtol/strtod
  bool realisable(std::string &text) {
    if (I_.textObjs.empty()) return true;
    std::map<std::string, I> pt; State st;
    auto cv = [&](const Lin &l, I &o) { Rng r = I_.rangeLin(l, st); if (!r.isConst()) return false; o = r.lo; return true; };
    for (int id : I_.textObjs) {
      auto o = I_.cobjs[id]; I len; if (!cv(o->len, len) || len > 4096) return false;
      std::string s((size_t)len, '\1');
      std::vector<bool> set((size_t)len, false);
      auto put = [&](I p, char c) { if (p < 0 || p >= len) return false; if (set[(size_t)p] && s[(size_t)p] != c) return false; s[(size_t)p] = c; set[(size_t)p] = true; return true; };
      // explicit characters
      for (size_t i = 0; i < I_.syms.size(); ++i) if (I_.syms[i].k == S_CHR && I_.syms[i].name.compare(0, o->name.size() + 1, o->name + "[") == 0) {
        I p, c; if (!cv(I_.syms[i].a, p) || !cv(linS((int)i), c)) return false;
        if (p < len) { if (c == 0) return false; if (!put(p, (char)c)) return false; }
      }
      for (auto &t : I_.tokens) {
        I off, n, v, e; if (!cv(t.off, off) || !cv(t.n, n) || !cv(t.e, e)) return false;
        if (off < 0 || off + n > len) return false;
        if (n == 0) { if (off < len && !set[(size_t)off]) put(off, 'x'); continue; }
        std::string w;
        if (t.kind == 0) {
          if (!cv(t.v, v)) return false;
          w = e ? (v < 0 ? "-9" : "9") + std::string(20, '9') : i2s(v);
        } else {
          I cl; if (!cv(t.cls, cl)) return false;
          Rng r; (void)r; auto rr = I_.rangeRSym(t.v.t[0].first, st); if (rr.first != rr.second) return false;
          char b[64]; snprintf(b, sizeof b, "%.17g", (double)rr.first);
          w = cl == 1 ? "inf" : cl == 2 ? "-inf" : cl == 3 ? "nan" : b;
          if (e) return false;
        }
        if ((I)w.size() > n) {
          if (t.kind == 1) { char b[64]; auto rr = I_.rangeRSym(t.v.t[0].first, st); for (int p = 1; p < 18; ++p) { snprintf(b, sizeof b, "%.*g", p, (double)rr.first); if (strtod(b, nullptr) == (double)rr.first) break; } w = w == "inf" || w == "-inf" || w == "nan" ? w : b; }
          if ((I)w.size() > n) return false;
        }
        bool neg = w[0] == '-'; std::string dg = neg ? w.substr(1) : w;
        bool num = dg[0] >= '0' && dg[0] <= '9';
        // try zero padding, then blanks
        std::string z = num ? (neg ? "-" : "") + std::string((size_t)(n - (I)w.size()), '0') + dg : std::string((size_t)(n - (I)w.size()), ' ') + w;
        bool ok = true; for (I i = 0; i < n; ++i) if (!put(off + i, z[(size_t)i])) { ok = false; break; }
        if (!ok) return false;
      }
      for (I i = 0; i < len; ++i) if (!set[(size_t)i]) s[(size_t)i] = 'x';
      // verify with the host library
      for (auto &t : I_.tokens) {
        I off, n, v, e; cv(t.off, off); cv(t.n, n); cv(t.e, e);
        char *end; errno = 0;
        if (t.kind == 0) { cv(t.v, v); long x = strtol(s.c_str() + off, &end, 10); if (n == 0 && v != 0) return false; if ((I)x != v || end - (s.c_str() + off) != (long)n || (errno == ERANGE) != (e == 1)) return false; }
        else {
          double x = strtod(s.c_str() + off, &end); if (end - (s.c_str() + off) != (long)n || (errno == ERANGE) != (e == 1)) return false;
          I cl; cv(t.cls, cl); int h = std::isnan(x) ? 3 : std::isinf(x) ? (x > 0 ? 1 : 2) : 0; if (h != (int)cl) return false;
          if (!h) { auto rr = I_.rangeRSym(t.v.t[0].first, st); if (x != (double)rr.first) return false; }
        }
      }
      text += o->name + "=\"";
      for (char c : s) { char b[8]; if (c >= 32 && c < 127 && c != '"' && c != '\\') text += c; else { snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); text += b; } }
      text += "\"";
    }
    return true;
  }

  // ---- splitting
    bool splitInput(int sym, I thr, const Cell &c, std::vector<Cell> &o) { // x <= thr | x > thr
    auto &in = I_.inputs[I_.syms[sym].input];
    if (in.b.real) return false;
    if (thr < in.b.lo || thr >= in.b.hi) return false;
    Cell a = c, b = c; auto &x = a.b[in.name]; x = in.b; x.hi = thr; auto &y = b.b[in.name]; y = in.b; y.lo = thr + 1;
    ++a.depth; ++b.depth;
    o.push_back(a); o.push_back(b); return true;
  }
  bool splitReal(int sym, R thr, const Cell &c, std::vector<Cell> &o) {
    auto &in = I_.inputs[I_.syms[sym].input];
    if (!in.b.real || !(thr > in.b.rlo && thr < in.b.rhi)) return false;
    if (in.b.rhi - in.b.rlo < 1e-9L * std::max((R)1, fabsl(in.b.rhi))) return false;
    Cell a = c, b = c; auto &x = a.b[in.name]; x = in.b; x.rhi = thr; auto &y = b.b[in.name]; y = in.b; y.rlo = thr;
    ++a.depth; ++b.depth; o.push_back(a); o.push_back(b); return true;
  }
  bool isInput(int s) { return I_.syms[s].input >= 0 && I_.syms[s].k != S_RIN; }
  std::set<int> busy;
  bool splitLin(Lin l, bool eq, const Cell &c, std::vector<Cell> &o, int d = 0) {
    if (d > 12) return false;
    const State &st = I_.root;
    // gates first
    for (auto &p : l.t) { Sym s = I_.syms[p.first]; if ((s.k == S_ITE || s.k == S_IND) && I_.decide(s.cond, st) == 0) if (splitCond(s.cond, c, o, d + 1)) return true; }
    for (auto &p : l.t) { Sym s = I_.syms[p.first]; if (s.k == S_ITE) { int q = I_.decide(s.cond, st); if (q >= 0 && splitLin(s.a, false, c, o, d + 1)) return true; if (q <= 0 && splitLin(s.b, false, c, o, d + 1)) return true; } }
    // derived symbols, fewest values first
    std::vector<std::pair<I, int>> ds;
    for (auto &p : l.t) if (!isInput(p.first)) { Rng r = I_.rangeSym(p.first, st); if (r.lo < r.hi) ds.push_back({addS(r.hi, -r.lo), p.first}); }
    std::sort(ds.begin(), ds.end());
    for (auto &q : ds) {
      Sym s = I_.syms[q.second]; Rng r = I_.rangeSym(q.second, st);
      if (s.k == S_QUOT || s.k == S_TQUOT) {
        if (s.k == S_TQUOT) { Rng h = I_.rangeLin(s.a, st); if (h.lo < 0 && h.hi > 0) { Lin z = s.a; z.c0 += 1; if (splitLin(z, false, c, o, d + 1)) return true; if (splitLin(s.a, false, c, o, d + 1)) return true; } }
        I m = fdiv(r.lo + r.hi + 1, 2);
        if (r.lo <= -INF || r.hi >= INF) m = 0;
        Lin h = s.a; h.c0 -= s.c * m - 1; // h - c*m <= -1
        if (splitLin(h, false, c, o, d + 1)) return true;
      } else if (s.k == S_TAB) {
        Rng h = I_.rangeLin(s.a, st); Lin z = s.a; z.c0 -= fdiv(h.lo + h.hi, 2); if (splitLin(z, false, c, o, d + 1)) return true;
      } else if (s.k == S_MUL) {
        Rng x = I_.rangeLin(s.a, st), y = I_.rangeLin(s.b, st);
        Lin z = addS(x.hi, -x.lo) <= addS(y.hi, -y.lo) && !x.isConst() ? s.a : s.b; Rng h = I_.rangeLin(z, st); z.c0 -= fdiv(h.lo + h.hi, 2);
        if (splitLin(z, false, c, o, d + 1)) return true;
        z = s.a; h = I_.rangeLin(z, st); z.c0 -= fdiv(h.lo + h.hi, 2); if (splitLin(z, false, c, o, d + 1)) return true;
        z = s.b; h = I_.rangeLin(z, st); z.c0 -= fdiv(h.lo + h.hi, 2); if (splitLin(z, false, c, o, d + 1)) return true;
      } else if (s.k == S_TRUNC) {
        I m = fdiv(r.lo + r.hi + 1, 2);
        if (r.lo > -INF && r.hi < INF) { if (splitF(s.fp, (R)m, c, o, d + 1)) return true; }
      } else if (s.k == S_LOW) {
        Rng h = I_.rangeLin(s.a, st);
        for (I t : {(I)'A' - 1, (I)'Z', (I)'a' - 1, (I)'z', (I)-1}) if (t >= h.lo && t < h.hi) { Lin z = s.a; z.c0 -= t; if (splitLin(z, false, c, o, d + 1)) return true; }
      } else if (s.k == S_WRAP) {
        Rng h = I_.rangeLin(s.a, st); I span = (I)1 << (int)s.c, lo = -(span / 2);
        if (h.lo > -INF && h.hi < INF) { I k = fdiv(fdiv(h.lo + h.hi, 2) - lo, span); for (I kk : {k, k + 1}) { Lin z = s.a; z.c0 -= lo + kk * span - 1; if (splitLin(z, false, c, o, d + 1)) return true; } }
      } else if (s.k == S_OPQ) {
        // unknown: refine what it was computed from is not tracked
      }
    }
    // inputs
    std::vector<std::pair<I, std::pair<int, I>>> xs;
    for (auto &p : l.t) if (isInput(p.first)) { Rng r = I_.rangeSym(p.first, st); if (r.lo < r.hi) xs.push_back({mulS(p.second < 0 ? -p.second : p.second, r.hi - r.lo), {p.first, p.second}}); }
    std::sort(xs.begin(), xs.end(), [](auto &a, auto &b) { return a.first > b.first; });
    // two wide inputs: boxes cannot follow the diagonal, so split along the line itself
    if (c.lin.size() < 24) {
      int wide = 0; bool pure = true;
      for (auto &p : l.t) { if (!isInput(p.first)) pure = false; else { Rng r = I_.rangeSym(p.first, st); if (addS(r.hi, -r.lo) > 4000) ++wide; } }
      bool text = pure && l.t.size() >= 2;
      for (auto &p : l.t) if (pure) { auto &in = I_.inputs[I_.syms[p.first].input]; if (!in.env && in.name.find(".length") == std::string::npos) text = false; }
      if (pure && (wide >= 2 || text) && I_.decide(I_.condLE(l), st) == 0) {
        Cell a = c, b = c; ++a.depth; ++b.depth;
        std::vector<std::pair<std::string, I>> u, v;
        for (auto &p : l.t) { const std::string &n = I_.inputs[I_.syms[p.first].input].name; u.push_back({n, p.second}); v.push_back({n, -p.second}); }
        a.lin.push_back({u, l.c0}); b.lin.push_back({v, 1 - l.c0});
        o.push_back(a); o.push_back(b); return true;
      }
    }
    for (auto &x : xs) {
      int s = x.second.first; I co = x.second.second; Rng r = I_.rangeSym(s, st);
      Lin rest = l; rest.add(s, -co); Rng q = I_.rangeLin(rest, st);
      if (q.lo <= -INF || q.hi >= INF) q = {0, 0};
      I mid = fdiv(q.lo + q.hi, 2);
      // co*x + mid <= 0
      I t = co > 0 ? fdiv(-mid, co) : -fdiv(-mid, -co) - 1;
      // for co<0: true iff x >= ceil(mid/-co) ; threshold below it
      if (eq && co != 0) { if (t >= r.lo && t < r.hi && splitInput(s, t, c, o)) return true; if (t - 1 >= r.lo && t - 1 < r.hi && splitInput(s, t - 1, c, o)) return true; if (t + 1 >= r.lo && t + 1 < r.hi && splitInput(s, t + 1, c, o)) return true; }
      else if (q.lo < q.hi && addS(r.hi, -r.lo) > 64) { // first cut off what this input alone decides
        auto thr = [&](I v) { return co > 0 ? fdiv(-v, co) : -fdiv(-v, -co) - 1; };
        for (I e : {thr(q.lo), thr(q.hi)}) if (e >= r.lo && e < r.hi && splitInput(s, e, c, o)) return true;
      }
      if (!eq && t >= r.lo && t < r.hi && splitInput(s, t, c, o)) return true;
      if (xs.size() > 1 || d > 0 || eq) { I b = fdiv(r.lo + r.hi, 2); if (splitInput(s, b, c, o)) return true; }
    }
    return false;
  }
  bool splitF(int ff, R target, const Cell &c, std::vector<Cell> &o, int d) { // form crosses target
    FForm f = I_.ffs[ff]; const State &st = I_.root;
    if (f.top) { if (f.kind >= 0) { Lin l = linS(f.kind); return splitLin(l, true, c, o, d + 1); } return false; }
    if (f.cst) return false;
    std::vector<std::pair<R, std::pair<int, R>>> xs;
    for (auto &p : f.t) { auto r = I_.rangeRSym(p.first, st); if (r.second > r.first) xs.push_back({fabsl(p.second) * (r.second - r.first), {p.first, p.second}}); }
    std::sort(xs.begin(), xs.end(), [](auto &a, auto &b) { return a.first > b.first; });
    for (auto &x : xs) {
      int s = x.second.first; auto r = I_.rangeRSym(s, st);
      R lo = f.c0, hi = f.c0; for (auto &p : f.t) if (p.first != s) { auto q = I_.rangeRSym(p.first, st); lo += std::min(p.second * q.first, p.second * q.second); hi += std::max(p.second * q.first, p.second * q.second); }
      R t = (target - (lo + hi) / 2) / x.second.second;
      if (!(t > r.first && t < r.second)) t = (r.first + r.second) / 2;
      if (I_.syms[s].k == S_RIN) { if (splitReal(s, t, c, o)) return true; if (splitReal(s, (r.first + r.second) / 2, c, o)) return true; continue; }
      if (I_.syms[s].k == S_ROP) { if (I_.syms[s].fp && splitF(I_.syms[s].fp, 0, c, o, d + 1)) return true; if (I_.syms[s].fp2 && splitF(I_.syms[s].fp2, 0, c, o, d + 1)) return true; continue; }
      Lin l = linS(s); l.c0 = -(I)floorl(t);
      if (splitLin(l, false, c, o, d + 1)) return true;
    }
    return false;
  }
  bool splitCond(int c, const Cell &cell, std::vector<Cell> &o, int d = 0) {
    if (d > 14) return false;
    int a = c < 0 ? -c : c; Cond k = I_.conds[a]; const State &st = I_.root;
    if (k.k == C_AND) {
      if (I_.decide(k.a, st) == 0 && splitCond(k.a, cell, o, d + 1)) return true;
      if (I_.decide(k.b, st) == 0 && splitCond(k.b, cell, o, d + 1)) return true;
      return false;
    }
    if (k.k == C_LE || k.k == C_EQ) return splitLin(k.l, k.k == C_EQ, cell, o, d);
    if (k.k == C_FLT || k.k == C_FLE) return splitF(k.fp, 0, cell, o, d);
    return false;
  }

  // one abstract run of an entry over a cell
  Result run(Function *F, const Cell &c, std::vector<Cell> &children, std::string &why) {
    Interp &x = I_;
    x.reset(); x.cell = &c; x.viols.clear(); x.unks.clear(); x.cands.clear(); x.obligations = x.discharged = 0; x.steps = 0;
    x.nextObj = 1; x.errnoObj = 0; x.callDepth = 0; x.globObj.clear(); x.cobjs.clear(); x.stack.clear(); x.schemas.clear(); x.textObjs.clear(); x.templates.clear(); x.tokens.clear();
    x.assumedAway = false; x.linesDone.clear(); x.reached.clear(); x.forkCount = 0; x.lastThrow.reset(); x.violState.reset(); x.traceAt.reset(); x.traceLog.clear(); x.traceVerbose = verbose;
    x.pointCell = x.point = c.depth >= 1000;
    bool aborted = false;
    size_t nouts = 0; bool bad = false; std::vector<State> ends;
    try {
      State st;
      auto outs = x.callFn(F, {}, std::move(st), nullptr);
      nouts = outs.size(); if (!x.viols.empty()) for (auto &o : outs) ends.push_back(o.st);
      // an exception the harness does not expect: the operation refuses arguments it should accept
      if (!x.classes.count("NOCHECK")) {
        bool all = !outs.empty();
        for (auto &o : outs) if (o.thrown) bad = true; else all = false;
        if (bad && x.lastThrow) {
          if (all && outs.size() == 1 && !outs[0].st.partial && outs[0].st.depth == 0) x.viols.push_back(*x.lastThrow);
          else for (auto &o : outs) if (o.thrown) x.candidate(o.st);
        }
      }
    } catch (Abort &a) { if (a.why == "infeasible") { x.stack.clear(); return {3}; } aborted = true; why = a.why; }
    for (auto &r : x.reached) reachedAll.insert(r);
    x.stack.clear();
    if (aborted && why == "trace" && x.traceAt) {
      totalSteps += x.steps; totalObl += x.obligations; totalDis += x.discharged;
      for (bool d : {true, false}) { Cell k = c; ++k.depth; k.trace[*x.traceAt] = d; children.push_back(k); }
      return {2};
    }
    totalSteps += x.steps; totalObl += x.obligations; totalDis += x.discharged;
    if (!x.viols.empty()) {
      std::string text;
      if (!x.textObjs.empty()) {
        bool ok = realisable(text);
        if (!ok && c.depth >= 1000) { why = "no text realises this point"; return {2}; }
        if (!ok) { State s; if (x.violState) s = *x.violState; x.wantCands = true; x.pointCell = false; for (auto &q : ends) x.candidate(q); x.candidate(s); why = "needs a witness text: " + x.viols[0].kind + ": " + x.viols[0].msg + " at " + x.viols[0].loc; /* fallthrough to split */ }
        else { for (auto &f : x.viols) viols.push_back({f, F->getName().str(), cellStr(c) + (text.empty() ? "" : "; text " + text)}); return {1}; }
        if (!splitAny(c, children)) return {2};
        return {2};
      }
      if (!c.lin.empty() && c.depth < 1000) { // the lines of the cell may exclude all of it: a point must show the violation
        why = "needs a witness point: " + x.viols[0].msg; x.wantCands = true; x.pointCell = false; x.candidate(x.root); splitAny(c, children); return {2};
      }
      for (auto &f : x.viols) viols.push_back({f, F->getName().str(), cellStr(c)});
      return {1};
    }
    if (!aborted && x.unks.empty() && !bad) return {nouts == 0 && x.obligations == 0 ? 3 : 0};
    if (bad && why.empty()) why = "an exception may leave the harness";
    if (why.empty()) { why = x.unks[0].f.kind + ": " + x.unks[0].f.msg + " at " + x.unks[0].f.loc; if (verbose) why += " {" + x.condStr(x.unks[0].cond) + "}"; }
    if (c.depth >= 1000) return {2};
    // refine
    for (auto &u : x.unks) {
      if ((!u.control || !x.textObjs.empty()) && splitCond(u.cond, c, children)) return {2};
    }
    splitAny(c, children);
    return {2};
  }
  bool positional(int h) { // a condition about where in the text something is
    int a = h < 0 ? -h : h; const Cond &k = I_.conds[a];
    if (k.k != C_LE && k.k != C_EQ) return false;
    for (auto &p : k.l.t) {
      if (!isInput(p.first)) continue;
      const std::string &n = I_.inputs[I_.syms[p.first].input].name;
      if (n.find(".length") == std::string::npos && n.find(".chars") == std::string::npos) return false;
    }
    return true;
  }
  bool splitAny(const Cell &c, std::vector<Cell> &children) {
    const State &st = I_.root;
    if (!I_.textObjs.empty()) for (int h : I_.hints) if (I_.decide(h, st) == 0 && positional(h) && splitCond(h, c, children)) return true;
    for (int h : I_.hints) if (I_.decide(h, st) == 0 && splitCond(h, c, children)) return true;
    for (auto &u : I_.unks) if (splitCond(u.cond, c, children)) return true;
    // last resort: bisect the widest harness input
    int best = -1; I w = 0;
    for (auto &in : I_.inputs) if (!in.b.real && !in.env && in.b.hi - in.b.lo > w) { w = in.b.hi - in.b.lo; best = in.sym; }
    if (best >= 0) { auto &in = I_.inputs[I_.syms[best].input]; return splitInput(best, fdiv(in.b.lo + in.b.hi, 2), c, children); }
    return false;
  }

  void entry(Function *F, double tl) {
    double start = el(); const std::string name = F->getName().str();
    std::vector<Cell> work{Cell()}; std::deque<Cell> points; std::vector<Cell> stuck;
    std::set<std::string> seenPts;
    long n = 0; auto &pe = perEntry[name]; pe = {0, 0, 0, 0};
    size_t v0 = viols.size(); long tried = 0;
    std::mt19937_64 rng(seed);
    auto runPoint = [&](Cell c) {
      std::vector<Cell> ch; std::string why; c.depth = 1000; I_.wantCands = false;
      ++pointCells; auto r = run(F, c, ch, why); I_.wantCands = true;
      if (verbose) fprintf(stderr, "  point [%s] -> %d %s\n", cellDesc(c).c_str(), r.status, why.c_str());
      if (verbose) for (auto &t : I_.traceLog) fprintf(stderr, "    %s\n", t.c_str());
      return r.status;
    };
    while (!work.empty()) {
      if (n >= maxCells || el() - start > tl) break;
      Cell c = std::move(work.back()); work.pop_back();
      std::vector<Cell> ch; std::string why;
      ++n; ++cells;
      Result r = run(F, c, ch, why);
      if (r.status == 2 && ch.empty() && I_.cands.empty()) { I_.early = false; why.clear(); r = run(F, c, ch, why); I_.early = true; }
      if (verbose) fprintf(stderr, "%s [%s] -> %d %s\n", name.c_str(), cellStr(c).c_str(), r.status, why.c_str());
      if (verbose) for (auto &t : I_.traceLog) fprintf(stderr, "    %s\n", t.c_str());
      if (n == 1) for (auto &in : I_.inputs) { char b[96]; if (in.b.real) snprintf(b, sizeof b, " in [%.6Lg, %.6Lg]", in.b.rlo, in.b.rhi); entryInputs[name].insert(in.name + (in.b.real ? std::string(b) : " in [" + i2s(in.b.lo) + ", " + i2s(in.b.hi) + "]")); }
      if (r.status == 0) { ++proved; ++pe[0]; continue; }
      if (r.status == 3) { ++emptyCells; ++pe[3]; continue; }
      if (r.status == 1) { ++pe[1]; break; }
      // candidate points first
      std::vector<Cell> cands = I_.cands;
      std::string tag = why;
      bool stop = false;
      for (auto &p : cands) {
        if (tried > 400) break;
        std::string key; for (auto &b : p.b) key += b.first + i2s(b.second.lo) + ";";
        if (!seenPts.insert(key).second) continue;
        ++tried;
        if (runPoint(p) == 1) { ++pe[1]; stop = true; break; }
      }
      if (stop) break;
      if (ch.empty()) {
        ++unknownCells; ++pe[2];
        auto &u = unknowns[name + " | " + tag]; if (!u.first++) { u.second = cellDesc(c); }
        stuck.push_back(c); continue;
      }
      // depth first; keep order deterministic
      for (auto it = ch.rbegin(); it != ch.rend(); ++it) work.push_back(*it);
    }
    if (viols.size() == v0 && !work.empty()) {
      unknownCells += (long)work.size(); pe[2] += (long)work.size();
      auto &u = unknowns[name + " | budget"]; u.first += (long)work.size(); if (u.second.empty()) u.second = cellDesc(work.back());
    }
    // undecided remainder: points of the partition (corners and seeded choices)
    std::vector<Cell> rest = stuck; for (auto &c : work) { rest.push_back(c); if (rest.size() > 400) break; }
    if (viols.size() == v0 && !rest.empty()) {
      double s2 = el();
      std::set<std::string> names; std::vector<InputRec> base;
      { std::vector<Cell> ch; std::string why; I_.wantCands = false; run(F, rest[0], ch, why); I_.wantCands = true; base = I_.inputs; viols.resize(v0); }
      for (int k = 0; k < 1200 && el() - s2 < std::min(20.0, tl / 3 + 2); ++k) {
        Cell c = rest[rng() % rest.size()]; bool same = rng() % 3 == 0; int mode = (int)(rng() % 5);
        std::map<std::pair<I, I>, I> memo;
        for (auto &in : base) {
          auto &b = c.b[in.name]; auto it = rest[0].b.find(in.name);
          if (!b.real && b.lo == 0 && b.hi == 0 && it == rest[0].b.end()) b = in.b;
          if (in.b.real) { if (!b.real) b = in.b; R v = mode == 0 ? b.rlo : mode == 1 ? b.rhi : b.rlo + (b.rhi - b.rlo) * ((R)(rng() % 1000001) / 1000000.0L); double dv = (double)v; b.rlo = b.rhi = dv; b.real = true; continue; }
          I w = b.hi - b.lo; I v;
          switch ((mode + (same ? 0 : (int)(rng() % 3))) % 5) {
          case 0: v = b.lo; break; case 1: v = b.hi; break; case 2: v = b.lo + w / 2; break;
          case 3: v = b.lo + std::min(w, (I)(rng() % 4)); break;
          default: v = b.lo + (w > 0 ? (I)(rng() % (uint64_t)std::min(w + 1, (I)1 << 62)) : 0); break;
          }
          b.lo = b.hi = v;
        }
        if (runPoint(c) == 1) { ++pe[1]; break; }
      }
    }
  }
  std::string cellDesc(const Cell &c) { std::string s; for (auto &l : c.lin) { for (auto &t : l.first) s += i2s(t.second) + "*" + t.first + " + "; s += i2s(l.second) + " <= 0, "; } for (auto &b : c.b) { if (!s.empty()) s += ", "; char q[96]; if (b.second.real) { snprintf(q, sizeof q, "=[%.10Lg,%.10Lg]", b.second.rlo, b.second.rhi); s += b.first + q; } else s += b.first + (b.second.lo == b.second.hi ? "=" + i2s(b.second.lo) : "=[" + i2s(b.second.lo) + "," + i2s(b.second.hi) + "]"); } return s.empty() ? "whole domain" : s; }
};

static std::string js(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
  return o + "\"";
}
int main(int argc, char **argv) {
  Driver d; std::string bc, outf; std::vector<std::string> entries; std::string classes = "OVF,OOB,TERM,ASSERT,DIVZERO,FPCAST,CTYPE";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entries.push_back(nx()); else if (a == "--classes") classes = nx(); else if (a == "--out") outf = nx();
    else if (a == "--time") d.tlimit = atof(nx().c_str()); else if (a == "--max-cells") d.maxCells = atol(nx().c_str()); else if (a == "--repo") d.I_.repoPrefix = nx();
    else if (a == "--seed") d.seed = (unsigned)atol(nx().c_str()); else if (a == "-v") d.verbose = true; else bc = a;
  }
  { std::string s; for (char c : classes + ",") if (c == ',') { if (!s.empty()) d.I_.classes.insert(s); s.clear(); } else s += c; }
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(bc, err, C);
  if (!M) { err.print("abint", errs()); return 2; }
  d.I_.M = M.get(); d.I_.DL = &M->getDataLayout();
  if (entries.empty()) for (auto &f : *M) if (!f.isDeclaration() && f.getName().starts_with("E_")) entries.push_back(f.getName().str());
  if (entries.empty()) { fprintf(stderr, "abint: no entries\n"); return 2; }
  std::sort(entries.begin(), entries.end());
  for (size_t i = 0; i < entries.size(); ++i) {
    Function *F = M->getFunction(entries[i]);
    if (!F) { fprintf(stderr, "abint: no entry %s\n", entries[i].c_str()); return 2; }
    double left = d.tlimit - d.el(), share = std::max(left / (double)(entries.size() - i), 1.0);
    d.entry(F, std::min(left > 1 ? std::max(share, left * 0.5) : 1.0, 1e9));
  }
  std::ofstream o(outf.empty() ? "/dev/stdout" : outf);
  o << "{\n \"entries\": {";
  bool f1 = true;
  for (auto &p : d.perEntry) {
    o << (f1 ? "" : ",") << "\n  " << js(p.first) << ": {\"proved\": " << p.second[0] << ", \"refuted\": " << p.second[1] << ", \"undecided\": " << p.second[2] << ", \"empty\": " << p.second[3] << ", \"domain\": ["; f1 = false;
    bool f2 = true; for (auto &s : d.entryInputs[p.first]) { o << (f2 ? "" : ", ") << js(s); f2 = false; } o << "]}";
  }
  o << "\n },\n \"cells\": " << d.cells << ", \"proved_cells\": " << d.proved << ", \"undecided_cells\": " << d.unknownCells << ", \"empty_cells\": " << d.emptyCells << ", \"point_cells\": " << d.pointCells;
  o << ",\n \"obligations\": " << d.totalObl << ", \"discharged\": " << d.totalDis << ", \"steps\": " << d.totalSteps << ", \"seconds\": " << d.el();
  o << ",\n \"violations\": ["; f1 = true;
  for (auto &v : d.viols) { o << (f1 ? "" : ",") << "\n  {\"kind\": " << js(v.f.kind) << ", \"msg\": " << js(v.f.msg) << ", \"loc\": " << js(v.f.loc) << ", \"fn\": " << js(v.f.fn) << ", \"stack\": " << js(v.f.stack) << ", \"entry\": " << js(v.entry) << ", \"cell\": " << js(v.cell) << "}"; f1 = false; }
  o << "],\n \"undecided\": ["; f1 = true;
  for (auto &u : d.unknowns) { o << (f1 ? "" : ",") << "\n  {\"what\": " << js(u.first) << ", \"cells\": " << u.second.first << ", \"example\": " << js(u.second.second) << "}"; f1 = false; }
  o << "],\n \"functions\": ["; f1 = true;
  for (auto &s : d.I_.repoFuncs) { o << (f1 ? "" : ",") << "\n  " << js(s); f1 = false; }
  o << "],\n \"checks\": {"; f1 = true;
  for (auto &s : d.I_.checkMsgs) { o << (f1 ? "" : ",") << "\n  " << js(s.first) << ": " << s.second; f1 = false; }
  o << "},\n \"reached\": ["; f1 = true; for (auto &s : d.reachedAll) { o << (f1 ? "" : ", ") << js(s); f1 = false; }
  o << "],\n \"unmodelled\": {"; f1 = true;
  for (auto &s : d.I_.unmodelled) { o << (f1 ? "" : ",") << "\n  " << js(s.first) << ": " << s.second; f1 = false; }
  o << "}\n}\n";
  return d.viols.empty() ? 0 : 1;
}
