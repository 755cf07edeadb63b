// Symbol/form/condition tables, abstract states, and the decision procedures of
// the domain (interval + quotient elimination + linear facts; no solver).
#pragma once
#include "dom.hpp"

struct AV {
  enum K : uint8_t { UNDEF, TOP, INT, BOOL, PTR, FP, AGG, PACK, FUNC } k = UNDEF;
  int id = 0;  // lin id / cond id / fform id / agg id
  int obj = 0; // PTR: object id (0 null, -1 unknown)
  bool operator==(const AV &o) const { return k == o.k && id == o.id && obj == o.obj; }
};

struct InputBound { bool real = false; I lo = 0, hi = 0; R rlo = 0, rhi = 0; };
struct Cell {
  std::map<std::string, InputBound> b;
  std::vector<std::pair<std::vector<std::pair<std::string, I>>, I>> lin; // sum of coefficient*input + constant <= 0
  int depth = 0;
  std::map<std::pair<uint64_t, int>, bool> trace; // which way the n-th execution of a branch goes (trace partitioning)
};
struct InputRec { std::string name; InputBound b; int sym; bool env; };

struct Tok { // token of a modelled std::string
  enum K { LIT, CHR, INT, DBL, OPQ } k = OPQ;
  std::string s;   // LIT
  AV v;            // CHR/INT/DBL
  int width = 0, prec = -1; char fill = ' '; bool fixed = false;
  bool operator==(const Tok &o) const { return k == o.k && s == o.s && v == o.v && width == o.width && prec == o.prec && fill == o.fill && fixed == o.fixed; }
};
struct StrVal {
  std::vector<Tok> t;
  bool known = true;
  int width = 0, prec = 6; char fill = ' '; bool fixed = false; // stream formatting state
  bool operator==(const StrVal &o) const { return known == o.known && t == o.t && width == o.width && prec == o.prec && fill == o.fill && fixed == o.fixed; }
};

struct MCell { I size; AV v; bool operator==(const MCell &o) const { return size == o.size && v == o.v; } };
struct Obj {
  enum K { ALLOCA, HEAP, CGLOB, MGLOB, CSTR, ERRNO, SCHEMA } k = ALLOCA;
  I size = 0;
  std::map<I, MCell> cells;
  std::map<I, StrVal> strs;
  const void *init = nullptr; // llvm::Constant for globals
  Lin len;                    // CSTR: length of the text
  int schema = -1;
  std::string name;
  bool zero = false;
};

struct State {
  std::map<int, Rng> bnd;
  std::map<int, std::pair<R, R>> rb; // bounds of real symbols
  std::vector<Lin> facts;
  std::set<int> cf;
  std::map<int, std::vector<int>> disj;  // symbol -> assumed disjunctions of equalities over it (valid while in cf)
  std::map<int, Lin> rw;             // proved equalities, as rewriting rules
  std::map<int, std::shared_ptr<Obj>> mem;
  std::vector<AV> env;
  bool partial = false;
  int depth = 0;
  std::vector<std::string> caught;
  std::string exc; // exception in flight (in landing pad)
  std::map<uint64_t, int> visits; // executions so far of each branch under trace partitioning; -1: differs between joined paths
  mutable std::unordered_map<int, Rng> cache;
  State() {}
  State(const State &o) : bnd(o.bnd), rb(o.rb), facts(o.facts), cf(o.cf), disj(o.disj), rw(o.rw), mem(o.mem), env(o.env), partial(o.partial), depth(o.depth), caught(o.caught), exc(o.exc), visits(o.visits) {}
  State(State &&) = default;
  State &operator=(State &&) = default;
  State &operator=(const State &o) { State t(o); *this = std::move(t); return *this; }
};

inline int depthMax = getenv("ABINT_DEPTH") ? atoi(getenv("ABINT_DEPTH")) : 4;
struct Abort { std::string why; };

struct Ctx {
  std::vector<Sym> syms;
  std::unordered_map<std::string, int> symKey;
  std::vector<Lin> lins;
  std::unordered_map<size_t, std::vector<int>> linKey;
  std::vector<Cond> conds;
  std::unordered_map<std::string, int> condKey;
  std::vector<FForm> ffs;
  std::unordered_map<std::string, int> ffKey;
  std::vector<std::vector<AV>> aggs;
  std::vector<std::vector<std::pair<AV, int>>> packs;
  std::vector<InputRec> inputs;
  std::map<std::string, int> inputIdx;
  std::vector<int> hints;            // undecided conditions, in order met
  std::set<int> hintSet;
  const Cell *cell = nullptr;
  State root;                        // bounds and constraints of the cell
  long fresh = 0;

  void reset() {
    syms.clear(); symKey.clear(); lins.clear(); linKey.clear(); conds.clear(); condKey.clear();
    ffs.clear(); ffKey.clear(); aggs.clear(); packs.clear(); inputs.clear(); inputIdx.clear();
    hints.clear(); hintSet.clear(); fresh = 0; root = State();
    conds.push_back({}); conds.push_back({C_TRUE});
    lins.push_back({}); internLin(linC(0));
    ffs.push_back({});
  }
  static void put(std::string &s, I v) { s.append((const char *)&v, sizeof v); }
  static void put(std::string &s, int v) { s.append((const char *)&v, sizeof v); }
  static void putLin(std::string &s, const Lin &l) { put(s, l.c0); for (auto &p : l.t) { put(s, p.first); put(s, p.second); } s += '|'; }

  int internLin(const Lin &l) {
    size_t h = (size_t)(uint64_t)l.c0 * 0x9E3779B97F4A7C15ull;
    for (auto &p : l.t) h = (h ^ (size_t)p.first) * 0x100000001B3ull + (size_t)(uint64_t)p.second;
    auto &v = linKey[h];
    for (int i : v) if (lins[i] == l) return i;
    lins.push_back(l); v.push_back((int)lins.size() - 1);
    return (int)lins.size() - 1;
  }
  AV mkInt(const Lin &l) { AV a; a.k = AV::INT; a.id = internLin(l); return a; }
  AV mkInt(I c) { return mkInt(linC(c)); }
  AV mkBool(int c) { AV a; a.k = AV::BOOL; a.id = c; return a; }
  AV mkPtr(int obj, const Lin &off) { AV a; a.k = AV::PTR; a.obj = obj; a.id = internLin(off); return a; }
  AV mkTop() { AV a; a.k = AV::TOP; return a; }
  const Lin &L(const AV &a) { return lins[a.id]; }

  int newSym(Sym s, const std::string &key = "") {
    if (!key.empty()) { auto it = symKey.find(key); if (it != symKey.end()) return it->second; }
    syms.push_back(std::move(s));
    int id = (int)syms.size() - 1;
    if (!key.empty()) symKey[key] = id;
    return id;
  }
  int opaque(const std::string &name, I lo, I hi) {
    Sym s; s.k = S_OPQ; s.name = name; s.base = {lo, hi};
    return newSym(s);
  }
  bool point = false; // the cell is a single point
  static bool ends(const std::string &n, const char *e) { size_t k = strlen(e); return n.size() >= k && n.compare(n.size() - k, k, e) == 0; }
  int input(const std::string &name, I lo, I hi, bool env = false) {
    auto it = inputIdx.find(name);
    if (it != inputIdx.end()) return inputs[it->second].sym;
    InputBound b; b.lo = lo; b.hi = hi;
    auto c = cell->b.find(name);
    if (c != cell->b.end()) { b.lo = std::max(lo, c->second.lo); b.hi = std::min(hi, c->second.hi); }
    else if (point && env && b.lo < b.hi) { I v = ends(name, ".chars") || ends(name, ".value") ? 1 : 0; v = std::max(b.lo, std::min(b.hi, v)); b.lo = b.hi = v; } // not chosen by the point: any value will do
    Sym s; s.k = S_IN; s.name = name; s.base = {b.lo, b.hi}; s.input = (int)inputs.size();
    int id = newSym(s);
    inputIdx[name] = (int)inputs.size();
    inputs.push_back({name, b, id, env});
    return id;
  }
  int rinput(const std::string &name, R lo, R hi, bool env = false) {
    auto it = inputIdx.find(name);
    if (it != inputIdx.end()) return inputs[it->second].sym;
    InputBound b; b.real = true; b.rlo = lo; b.rhi = hi;
    auto c = cell->b.find(name);
    if (c != cell->b.end()) { b.rlo = std::max(lo, c->second.rlo); b.rhi = std::min(hi, c->second.rhi); }
    else if (point && env) b.rlo = b.rhi = 1;
    Sym s; s.k = S_RIN; s.name = name; s.rlo = b.rlo; s.rhi = b.rhi; s.input = (int)inputs.size();
    int id = newSym(s);
    inputIdx[name] = (int)inputs.size();
    inputs.push_back({name, b, id, env});
    return id;
  }

  // ---------- printing
  std::string linStr(const Lin &l, int d = 0) {
    std::string s; bool first = true;
    for (auto &p : l.t) {
      I c = p.second;
      if (!first) s += c < 0 ? " - " : " + "; else if (c < 0) s += "-";
      first = false;
      I a = c < 0 ? -c : c;
      if (a != 1) s += i2s(a) + "*";
      s += symStr(p.first, d);
    }
    if (l.c0 || first) { if (!first) s += l.c0 < 0 ? " - " : " + "; s += first ? i2s(l.c0) : i2s(l.c0 < 0 ? -l.c0 : l.c0); }
    return s;
  }
  std::string symStr(int i, int d = 0) {
    if (d > depthMax) return "..";
    Sym &s = syms[i];
    switch (s.k) {
    case S_IN: case S_RIN: return s.name;
    case S_QUOT: return "floor((" + linStr(s.a, d + 1) + ")/" + i2s(s.c) + ")";
    case S_TQUOT: return "trunc((" + linStr(s.a, d + 1) + ")/" + i2s(s.c) + ")";
    case S_MUL: return "(" + linStr(s.a, d + 1) + ")*(" + linStr(s.b, d + 1) + ")";
    case S_TAB: return s.name + "[" + linStr(s.a, d + 1) + "]";
    case S_ITE: return "ite(" + condStr(s.cond, d + 1) + "," + linStr(s.a, d + 1) + "," + linStr(s.b, d + 1) + ")";
    case S_IND: return "[" + condStr(s.cond, d + 1) + "]";
    case S_TRUNC: return "trunc(" + ffStr(s.fp, d + 1) + ")";
    case S_WRAP: return "wrap(" + linStr(s.a, d + 1) + ")";
    case S_LOW: return "case(" + linStr(s.a, d + 1) + ")";
    default: return s.name.empty() ? "s" + std::to_string(i) : s.name;
    }
  }
  std::string ffStr(int f, int d = 0) {
    FForm &x = ffs[f]; char b[64];
    if (x.top) return "real?";
    if (x.cst) { snprintf(b, sizeof b, "%.17g", x.k); return b; }
    std::string s;
    for (auto &p : x.t) { snprintf(b, sizeof b, "%.12Lg*", p.second); s += (s.empty() ? "" : " + ") + std::string(b) + symStr(p.first, d + 1); }
    snprintf(b, sizeof b, " + %.12Lg", x.c0); return s + b;
  }
  std::string condStr(int c, int d = 0) {
    if (d > depthMax + 1) return "..";
    if (c == 1) return "true"; if (c == -1) return "false";
    if (c < 0) {
      Cond &k = conds[-c];
      if (k.k == C_LE) return linStr(k.l, d + 1) + " > 0";
      if (k.k == C_EQ) return linStr(k.l, d + 1) + " != 0";
      return "!(" + condStr(-c, d + 1) + ")";
    }
    Cond &k = conds[c];
    switch (k.k) {
    case C_LE: return linStr(k.l, d + 1) + " <= 0";
    case C_EQ: return linStr(k.l, d + 1) + " == 0";
    case C_AND: return "(" + condStr(k.a, d + 1) + " && " + condStr(k.b, d + 1) + ")";
    case C_OR: return "(" + condStr(k.a, d + 1) + " || " + condStr(k.b, d + 1) + ")";
    case C_FLT: return ffStr(k.fp, d + 1) + " < 0";
    case C_FLE: return ffStr(k.fp, d + 1) + " <= 0";
    default: return k.name;
    }
  }

  // ---------- conditions
  int newCond(Cond c, const std::string &key) {
    auto it = condKey.find(key); if (it != condKey.end()) return it->second;
    conds.push_back(std::move(c)); condKey[key] = (int)conds.size() - 1;
    return (int)conds.size() - 1;
  }
  int condOpaque(const std::string &n) { Cond c; c.k = C_OPQ; c.name = n + "#" + std::to_string(fresh++); conds.push_back(c); return (int)conds.size() - 1; }
  int condLE(Lin l) { // l <= 0
    if (l.isConst()) return l.c0 <= 0 ? 1 : -1;
    I g = 0; for (auto &p : l.t) g = gcdI(g, p.second);
    if (g > 1) { for (auto &p : l.t) p.second /= g; l.c0 = -fdiv(-l.c0, g); }
    if (l.t[0].second < 0) { // canonical sign:  l<=0  <=>  !(1-l <= 0)
      Lin n = scale(l, -1); n.c0 += 1;
      std::string k = "L"; putLin(k, n);
      Cond c; c.k = C_LE; c.l = n; return -newCond(c, k);
    }
    std::string k = "L"; putLin(k, l);
    Cond c; c.k = C_LE; c.l = l; return newCond(c, k);
  }
  // c + 256*[c < 0] for a character c: in 0..255
  bool ucharView(const Lin &l, Lin *ch = nullptr) {
    if (l.t.size() != 2 || l.c0 != 0) return false;
    for (int q = 0; q < 2; ++q) {
      auto &x = l.t[(size_t)q], &y = l.t[(size_t)(1 - q)]; const Sym &g = syms[y.first];
      if (g.k != S_IND || x.second != 1 || y.second != 256) continue;
      int sg = g.cond < 0 ? -1 : 1; const Cond &gc = conds[g.cond * sg];
      if (gc.k != C_LE || gc.l.t.size() != 1 || gc.l.t[0].first != x.first) continue;
      I co = gc.l.t[0].second; if (!(co == 1 && sg == 1 && gc.l.c0 == 1) && !(co == -1 && sg == -1 && gc.l.c0 == 0)) continue;
      if (ch) *ch = linS(x.first); Rng b = structural(x.first, State()); return b.lo >= -128 && b.hi <= 127;
    }
    return false;
  }
  int condEQ(Lin l) {
    if (l.isConst()) return l.c0 == 0 ? 1 : -1;
    // zero tests of text characters are tests of the position
    if (l.c0 == 0 && l.t.size() == 1) {
      Sym &s = syms[l.t[0].first];
      if (s.k == S_CHR && s.obj) return condEQ(s.a - s.b); // offset == length
      if (s.k == S_LOW) return condEQ(s.a);
    }
    if (l.t.size() == 1 && (l.t[0].second == 1 || l.t[0].second == -1)) { // case-folded character against a constant
      Sym s = syms[l.t[0].first]; I k = l.t[0].second == 1 ? -l.c0 : l.c0;
      if (s.k == S_LOW) {
        bool up = s.c != 0; I A = up ? 'a' : 'A', Z = up ? 'z' : 'Z', B = up ? 'A' : 'a', Y = up ? 'Z' : 'z', d = up ? 32 : -32;
        if (k >= A && k <= Z) return -1; // never produced
        Lin x = s.a; x.c0 -= k;
        if (k >= B && k <= Y) { Lin y = s.a; y.c0 -= k + d; return condOr(condEQ(x), condEQ(y)); }
        return condEQ(x);
      }
      if (s.k == S_WRAP && s.c == 8 && s.a.t.size() == 1 && s.a.t[0].second == 1 && s.a.c0 == 0) { // (char)tolower((unsigned char)c) == k
        const Sym q = syms[s.a.t[0].first];
        if (q.k == S_LOW && ucharView(q.a)) {
          if (k < s.base.lo || k > s.base.hi) return -1;
          Lin x = s.a; x.c0 = -(k < 0 ? k + 256 : k); return condEQ(x);
        }
      }
    }
    if (l.t.size() == 2) { // unsigned view of a character: c + 2^w*[c < 0] == k
      for (int q = 0; q < 2; ++q) {
        auto &x = l.t[(size_t)q], &y = l.t[(size_t)(1 - q)]; const Sym &g = syms[y.first];
        if (g.k != S_IND || (x.second != 1 && x.second != -1)) continue;
        I m = y.second * x.second, k = -l.c0 * x.second;
        if (m != 256) continue;
        int sg = g.cond < 0 ? -1 : 1; const Cond &gc = conds[g.cond * sg];
        if (gc.k != C_LE || gc.l.t.size() != 1 || gc.l.t[0].first != x.first) continue;
        I co = gc.l.t[0].second; if (!(co == 1 && sg == 1 && gc.l.c0 == 1) && !(co == -1 && sg == -1 && gc.l.c0 == 0)) continue; // c <= -1
        Rng b = structural(x.first, State()); if (b.lo < -128 || b.hi > 127) continue;
        if (k < 0 || k > 255) return -1;
        int id = x.first; Lin n = linS(id); n.c0 = k < 128 ? -k : 256 - k; return condEQ(n);
      }
    }
    I g = 0; for (auto &p : l.t) g = gcdI(g, p.second);
    if (g > 1) { if (l.c0 % g) return -1; for (auto &p : l.t) p.second /= g; l.c0 /= g; }
    if (l.t[0].second < 0) l = scale(l, -1);
    if (l.t.size() == 1) { // a choice between alternatives one of which settles the matter
      const Sym s = syms[l.t[0].first];
      if (s.k == S_IND) { I k = -l.c0; return k == 0 ? -s.cond : k == 1 ? s.cond : -1; }
      if (s.k == S_ITE) {
        Lin x = s.a, y = s.b; x.c0 += l.c0; y.c0 += l.c0;
        bool cx = x.isConst(), cy = y.isConst();
        if (cx || cy) {
          int ex = condEQ(x), ey = condEQ(y);
          return condOr(condAnd(s.cond, ex), condAnd(-s.cond, ey));
        }
      }
    }
    std::string k = "E"; putLin(k, l);
    Cond c; c.k = C_EQ; c.l = l; return newCond(c, k);
  }
  int condAnd(int a, int b) {
    if (a == -1 || b == -1) return -1; if (a == 1) return b; if (b == 1) return a;
    if (a == b) return a; if (a == -b) return -1;
    if (a > b) std::swap(a, b);
    std::string k = "A"; put(k, a); put(k, b);
    Cond c; c.k = C_AND; c.a = a; c.b = b; return newCond(c, k);
  }
  int condOr(int a, int b) { return -condAnd(-a, -b); }
  int condIte(int c, int a, int b) {
    if (c == 1) return a; if (c == -1) return b; if (a == b) return a;
    return condOr(condAnd(c, a), condAnd(-c, b));
  }

  // ---------- ranges
  Rng rangeSym(int s, const State &st) {
    auto it = st.cache.find(s); if (it != st.cache.end()) return it->second;
    Rng r = structural(s, st);
    auto b = st.bnd.find(s); if (b != st.bnd.end()) r = meet(r, b->second);
    st.cache[s] = r; return r;
  }
  Rng structural(int i, const State &st) {
    switch (syms[i].k) {
    case S_IN: case S_OPQ: case S_CHR: case S_WRAP: return syms[i].base;
    case S_TAB: return syms[i].base;
    case S_LOW: { Rng h = rangeLin(Lin(syms[i].a), st); return syms[i].c ? Rng{std::min(h.lo, (I)'A'), h.hi} : Rng{h.lo, std::max(h.hi, (I)'z')}; }
    case S_QUOT: { Rng h = rangeLin(Lin(syms[i].a), st); I c = syms[i].c; return {h.lo <= -INF ? -INF : fdiv(h.lo, c), h.hi >= INF ? INF : fdiv(h.hi, c)}; }
    case S_TQUOT: { Rng h = rangeLin(Lin(syms[i].a), st); I c = syms[i].c; return {h.lo <= -INF ? -INF : h.lo / c, h.hi >= INF ? INF : h.hi / c}; }
    case S_MUL: {
      Rng a = rangeLin(Lin(syms[i].a), st), b = rangeLin(Lin(syms[i].b), st);
      I v[4] = {mulS(a.lo, b.lo), mulS(a.lo, b.hi), mulS(a.hi, b.lo), mulS(a.hi, b.hi)};
      return {*std::min_element(v, v + 4), *std::max_element(v, v + 4)};
    }
    case S_ITE: {
      int c = syms[i].cond; Lin a = syms[i].a, b = syms[i].b;
      return hull(rangeLin(a, st), rangeLin(b, st)); (void)c;
    }
    case S_IND: return {0, 1};
    case S_TRUNC: {
      auto p = rangeF(syms[i].fp, st);
      I m = syms[i].c; // 0 trunc 1 floor 2 ceil 3 round
      auto f = [&](R x) -> I { if (x >= 1e30L) return INF; if (x <= -1e30L) return -INF; R y = m == 0 ? truncl(x) : m == 1 ? floorl(x) : m == 2 ? ceill(x) : roundl(x); return (I)y; };
      return meet({f(p.first), f(p.second)}, syms[i].base);
    }
    case S_RIN: case S_ROP: { R lo = floorl(syms[i].rlo), hi = ceill(syms[i].rhi); return {lo < -1e30L ? -INF : (I)lo, hi > 1e30L ? INF : (I)hi}; }
    }
    return {};
  }
  Rng naive(const Lin &l, const State &st) {
    Rng r{l.c0, l.c0};
    for (auto &p : l.t) {
      Rng s = rangeSym(p.first, st);
      I a = mulS(p.second, s.lo), b = mulS(p.second, s.hi);
      r.lo = addS(r.lo, std::min(a, b)); r.hi = addS(r.hi, std::max(a, b));
    }
    return r;
  }
  Rng rangeLin(const Lin &l, const State &st, int d = 0) {
    Rng r = naive(l, st);
    if (l.t.size() < 2 || d > 3 || r.isConst()) return r;
    for (auto &p : l.t) {
      const Sym &s = syms[p.first];
      if (s.k != S_QUOT && s.k != S_TQUOT) continue;
      bool tq = s.k == S_TQUOT; I c = s.c, k = 1;
      const Lin h = s.a;
      if (p.second % c) { // scale the form so that the quotient cancels against its dividend
        k = c / gcdI(p.second, c);
        if (k > 1000000000 || !share(l, h)) continue;
        bool big = l.c0 > ((I)1 << 80) || l.c0 < -((I)1 << 80); for (auto &q : l.t) if (q.second > ((I)1 << 80) || q.second < -((I)1 << 80)) big = true;
        if (big) continue;
      }
      I m = p.second * k / c;
      Lin rest = k == 1 ? l : scale(l, k); rest.add(p.first, -p.second * k);
      rest = rest + scale(h, m);
      if (k > 1 && rest.t.size() >= l.t.size()) continue;
      Rng x = rangeLin(rest, st, d + 1);
      I rl = 0, rh = c - 1;
      if (tq) { Rng hr = naive(h, st); rl = hr.lo < 0 ? -(c - 1) : 0; rh = hr.hi > 0 ? c - 1 : 0; }
      I a = mulS(-m, rl), b = mulS(-m, rh);
      Rng z{addS(x.lo, std::min(a, b)), addS(x.hi, std::max(a, b))};
      if (k > 1) { if (z.lo > -INF) z.lo = -fdiv(-z.lo, k); if (z.hi < INF) z.hi = fdiv(z.hi, k); }
      r = meet(r, z);
      if (r.lo >= r.hi) return r;
    }
    return r;
  }
  std::pair<R, R> rangeRSym(int s, const State &st) {
    if (syms[s].k == S_RIN || syms[s].k == S_ROP) {
      std::pair<R, R> p{syms[s].rlo, syms[s].rhi};
      auto it = st.rb.find(s); if (it != st.rb.end()) { p.first = std::max(p.first, it->second.first); p.second = std::min(p.second, it->second.second); }
      return p;
    }
    Rng r = rangeSym(s, st);
    return {r.lo <= -INF ? -HUGE_VALL : (R)r.lo, r.hi >= INF ? HUGE_VALL : (R)r.hi};
  }
  std::pair<R, R> rangeF(int f, const State &st) { FForm x = ffs[f]; return rangeFF(x, st, 0); }
  std::pair<R, R> rangeFF(const FForm &f, const State &st, int d) {
    if (f.top) return {-HUGE_VALL, HUGE_VALL};
    if (f.cst) { if (std::isnan(f.k)) return {-HUGE_VALL, HUGE_VALL}; return {f.k, f.k}; }
    R lo = f.c0, hi = f.c0;
    for (auto &p : f.t) {
      auto s = rangeRSym(p.first, st);
      R a = p.second * s.first, b = p.second * s.second;
      lo += std::min(a, b); hi += std::max(a, b);
    }
    lo -= f.err; hi += f.err;
    if (d < 6) for (int i = (int)f.t.size() - 1; i >= 0; --i) {
      const Sym &s = syms[f.t[i].first]; R a = f.t[i].second;
      FForm g; R e0, e1;
      if (s.k == S_QUOT || s.k == S_TQUOT) {
        g.cst = false; g.c0 = (R)s.a.c0 / (R)s.c;
        for (auto &p : s.a.t) g.t.push_back({p.first, (R)p.second / (R)s.c});
        e0 = -((R)s.c - 1) / (R)s.c; e1 = 0;
        if (s.k == S_TQUOT) { Rng hr = naive(s.a, st); e1 = hr.lo < 0 ? -e0 : 0; if (hr.hi <= 0) e0 = 0; }
      } else if (s.k == S_TRUNC && !ffs[s.fp].top && !ffs[s.fp].cst) {
        g = ffs[s.fp];
        auto gr = s.c == 0 ? rangeFF(g, st, d + 3) : std::pair<R, R>{-1, 1};
        if (s.c == 1) { e0 = -1; e1 = 0; } else if (s.c == 2) { e0 = 0; e1 = 1; }
        else if (s.c == 3) { e0 = -0.5L; e1 = 0.5L; }
        else { e0 = gr.second > 0 ? -std::min((R)1, gr.second) : 0; e1 = gr.first < 0 ? std::min((R)1, -gr.first) : 0; } // toward zero
        e0 -= g.err; e1 += g.err;
      } else continue;
      FForm r = f; r.t.erase(r.t.begin() + i);
      r.c0 += a * g.c0;
      for (auto &p : g.t) addTerm(r, p.first, a * p.second, st);
      auto x = rangeFF(r, st, d + 1);
      lo = std::max(lo, x.first + std::min(a * e0, a * e1));
      hi = std::min(hi, x.second + std::max(a * e0, a * e1));
      break; // eliminate outermost only; recursion handles the rest
    }
    return {lo, hi};
  }
  // f += c*x; what rounding the coefficient loses is charged to f.err
  void addTerm(FForm &f, int s, R c, const State &st) {
    for (size_t i = 0; i < f.t.size(); ++i) if (f.t[i].first == s) {
      R o = f.t[i].second, n = o + c, lost = 0;
      if (n - o != c || n - c != o) lost = 1.1e-19L * std::max(fabsl(n), std::min(fabsl(o), fabsl(c)));
      if (n != 0 && fabsl(n) <= 1e-18L * (fabsl(c) + 1e-300L)) { lost += fabsl(n); n = 0; }
      if (lost != 0) { auto r = rangeRSym(s, st); f.err += lost * std::max(fabsl(r.first), fabsl(r.second)); }
      if (n == 0) f.t.erase(f.t.begin() + i); else f.t[i].second = n;
      return;
    }
    auto it = std::lower_bound(f.t.begin(), f.t.end(), std::make_pair(s, (R)-HUGE_VALL), [](auto &a, auto &b) { return a.first < b.first; });
    if (c != 0) f.t.insert(it, {s, c});
  }

  // ---------- deciding
  static bool share(const Lin &a, const Lin &b) {
    size_t i = 0, j = 0;
    while (i < a.t.size() && j < b.t.size()) { if (a.t[i].first == b.t[j].first) return true; if (a.t[i].first < b.t[j].first) ++i; else ++j; }
    return false;
  }
  bool proveLE(const Lin &l, const State &st, bool facts = true) {
    if (rangeLin(l, st).hi <= 0) return true;
    if (!facts || st.facts.empty()) return false;
    for (auto &f : st.facts) if (share(l, f)) {
      Lin d = l - f;
      if (rangeLin(d, st).hi <= 0) return true;
    }
    int budget = 600;
    return proveBy(l, st, 3, budget);
  }
  // multiples of a fact worth subtracting from l: once, and as often as cancels one of its symbols
  void multiples(const Lin &l, const Lin &f, std::vector<I> &o) {
    o.clear(); o.push_back(1);
    size_t i = 0, j = 0;
    while (i < l.t.size() && j < f.t.size()) {
      if (l.t[i].first < f.t[j].first) { ++i; continue; } if (l.t[i].first > f.t[j].first) { ++j; continue; }
      I a = l.t[i].second, b = f.t[j].second; ++i; ++j;
      if ((a < 0) != (b < 0) || a % b) continue;
      I k = a / b; if (k > 1 && k < ((I)1 << 50) && std::find(o.begin(), o.end(), k) == o.end()) o.push_back(k);
    }
  }
  bool proveBy(const Lin &l, const State &st, int d, int &budget) {
    std::vector<std::pair<const Lin *, I>> next; std::vector<I> ks;
    for (auto &f : st.facts) if (share(l, f)) {
      multiples(l, f, ks);
      for (I k : ks) {
        if (--budget < 0) return false;
        Lin e = k == 1 ? l - f : l - scale(f, k);
        if (rangeLin(e, st).hi <= 0) return true;
        next.push_back({&f, k});
      }
    }
    if (d <= 1) return false;
    for (auto &q : next) {
      Lin e = q.second == 1 ? l - *q.first : l - scale(*q.first, q.second);
      if (e.t.size() > 6) continue;
      if (d == 2 && e.t.size() > 5) continue;
      if (proveBy(e, st, d - 1, budget)) return true;
      if (budget < 0) return false;
    }
    return false;
  }
  // 1 true, -1 false, 0 unknown
  int decide(int c, const State &st) {
    if (c == 1) return 1; if (c == -1) return -1;
    if (c < 0) return -decide(-c, st);
    if (!st.cf.empty()) { if (st.cf.count(c)) return 1; if (st.cf.count(-c)) return -1; }
    CondKind k = conds[c].k;
    if (k == C_LE) {
      Lin l = conds[c].l;
      Rng r = rangeLin(l, st);
      if (r.hi <= 0) return 1; if (r.lo > 0) return -1;
      if (!st.facts.empty()) {
        if (proveLE(l, st)) return 1;
        Lin n = scale(l, -1); n.c0 += 1;
        if (proveLE(n, st)) return -1;
      }
      return 0;
    }
    if (k == C_EQ) {
      Lin l = conds[c].l;
      Rng r = rangeLin(l, st);
      if (r.lo > 0 || r.hi < 0) return -1;
      if (r.lo == 0 && r.hi == 0) return 1;
      if (l.t.size() == 1 && l.t[0].second == 1) { // a value outside a disjunction that holds
        auto dj = st.disj.find(l.t[0].first);
        if (dj != st.disj.end()) for (int q : dj->second) if (st.cf.count(q) && !isValue(q, -l.c0)) return -1;
      }
      // congruence through quotients: l = rem-like forms handled by range
      if (!st.facts.empty()) {
        Lin n = scale(l, -1);
        Lin a = l; a.c0 += 1; Lin b = n; b.c0 += 1; // l<=-1, -l<=-1
        if (proveLE(a, st) || proveLE(b, st)) return -1;
        if (proveLE(l, st) && proveLE(n, st)) return 1;
      }
      return 0;
    }
    if (k == C_AND) {
      int a = decide(conds[c].a, st); if (a == -1) return -1;
      int b = decide(conds[c].b, st); if (b == -1) return -1;
      if (a == 1 && b == 1) return 1;
      if (!st.disj.empty()) { // one of the values a disjunction that holds allows?
        int s; Rng r;
        if (valuesOf(-c, s, r)) {
          auto dj = st.disj.find(s);
          if (dj != st.disj.end() && plainValues(-c)) for (int q : dj->second) if (st.cf.count(q)) {
            std::vector<I> vs; valueList(q, vs); bool all = true; for (I v : vs) if (!isValue(-c, v)) all = false;
            if (all) return -1;
          }
        }
      }
      return 0;
    }
    if (k == C_FLT || k == C_FLE) {
      auto p = rangeF(conds[c].fp, st);
      if (k == C_FLT) { if (p.second < 0) return 1; if (p.first >= 0) return -1; }
      else { if (p.second <= 0) return 1; if (p.first > 0) return -1; }
      return 0;
    }
    return 0;
  }
  // facts on one symbol live in its bounds
  static void addFact(State &st, const Lin &l) { if (l.t.size() > 1 && std::find(st.facts.begin(), st.facts.end(), l) == st.facts.end()) st.facts.push_back(l); }
  bool tighten(const Lin &l, State &st, int d = 0) { // l <= 0
    for (auto &p : l.t) {
      Rng cur = rangeSym(p.first, st);
      I rest = l.c0;
      for (auto &q : l.t) if (q.first != p.first) {
        Rng s = rangeSym(q.first, st);
        rest = addS(rest, std::min(mulS(q.second, s.lo), mulS(q.second, s.hi)));
      }
      if (rest <= -INF) continue;
      Rng n = cur;
      if (p.second > 0) n.hi = std::min(n.hi, fdiv(-rest, p.second));
      else n.lo = std::max(n.lo, -fdiv(-rest, -p.second));
      if (n.lo > n.hi) return false;
      if (n.lo != cur.lo || n.hi != cur.hi) {
        st.bnd[p.first] = st.bnd.count(p.first) ? meet(st.bnd[p.first], n) : n;
        st.cache.clear();
        const Sym s = syms[p.first];
        if (s.k == S_QUOT && d < 4) {
          if (n.hi < INF && n.hi != cur.hi) { Lin h = s.a; h.c0 -= s.c * n.hi + s.c - 1; if (!tighten(h, st, d + 1)) return false; }
          if (n.lo > -INF && n.lo != cur.lo) { Lin h = scale(s.a, -1); h.c0 += s.c * n.lo; if (!tighten(h, st, d + 1)) return false; }
        }
      }
    }
    return true;
  }
  bool assume(int c, State &st) {
    int d = decide(c, st);
    if (d == 1) return true; if (d == -1) return false;
    st.cf.insert(c);
    int a = c < 0 ? -c : c; CondKind k = conds[a].k;
    if (k == C_LE) {
      Lin l = conds[a].l; if (c < 0) { l = scale(l, -1); l.c0 += 1; }
      addFact(st, l); return tighten(l, st);
    }
    if (k == C_EQ && c > 0) {
      Lin l = conds[a].l, n = scale(l, -1);
      addFact(st, l); addFact(st, n);
      return tighten(l, st) && tighten(n, st);
    }
    if (k == C_EQ && c < 0) {
      Lin l = conds[a].l; Rng r = rangeLin(l, st);
      if (r.lo == 0 || proveLE(scale(l, -1), st)) { Lin n = scale(l, -1); n.c0 += 1; addFact(st, n); return tighten(n, st); }
      if (r.hi == 0 || proveLE(l, st)) { l.c0 += 1; addFact(st, l); return tighten(l, st); }
      return true;
    }
    if (k == C_AND) {
      int x = conds[a].a, y = conds[a].b;
      if (c > 0) return assume(x, st) && assume(y, st);
      if (decide(x, st) == 1) return assume(-y, st);
      if (decide(y, st) == 1) return assume(-x, st);
      // one symbol equal to one of several values: keep the hull
      int s1 = 0, s2 = 0; Rng r1, r2;
      if (valuesOf(-x, s1, r1) && valuesOf(-y, s2, r2) && s1 == s2) {
        st.disj[s1].push_back(c);
        Rng h = hull(r1, r2); Lin u = linS(s1), v = scale(u, -1); u.c0 = -h.hi; v.c0 = h.lo;
        return tighten(u, st) && tighten(v, st);
      }
    }
    if (k == C_FLT || k == C_FLE) { // form <= 0 or form >= 0: bound a lone symbol
      const FForm f = ffs[conds[a].fp];
      if (!f.cst && !f.top && f.t.size() == 1) {
        R co = f.t[0].second, cc = f.c0 * (c > 0 ? 1 : -1); if (c < 0) co = -co;
        R b = (f.err - cc) / co; // co*x + cc <= err
        b += (co > 0 ? 1 : -1) * fabsl(b) * 1e-17L;
        int s = f.t[0].first;
        if (syms[s].k == S_RIN || syms[s].k == S_ROP) {
          auto cur = rangeRSym(s, st);
          if (co > 0) cur.second = std::min(cur.second, b); else cur.first = std::max(cur.first, b);
          if (cur.first > cur.second) return false;
          st.rb[s] = cur; st.cache.clear();
        } else {
          Lin l = linS(s);
          if (co > 0 && fabsl(b) < 1e30L) { l.c0 = -(I)floorl(b); return tighten(l, st); }
          if (co < 0 && fabsl(b) < 1e30L) { l = scale(l, -1); l.c0 = (I)ceill(b); return tighten(l, st); }
        }
      }
    }
    return true;
  }
  // a disjunction of equalities of one symbol with constants
  bool valuesOf(int c, int &s, Rng &r) {
    if (c > 0 && conds[c].k == C_EQ && conds[c].l.t.size() == 1 && conds[c].l.t[0].second == 1) { s = conds[c].l.t[0].first; r = {-conds[c].l.c0, -conds[c].l.c0}; return true; }
    if (c > 0 && conds[c].k == C_AND) { int x = conds[c].a, y = conds[c].b; return valuesOf(x, s, r) || valuesOf(y, s, r); } // implied
    if (c < 0 && conds[-c].k == C_AND) { int s1, s2; Rng r1, r2; int x = conds[-c].a, y = conds[-c].b; if (!valuesOf(-x, s1, r1) || !valuesOf(-y, s2, r2) || s1 != s2) return false; s = s1; r = hull(r1, r2); return true; }
    return false;
  }
  bool plainValues(int c) { return c > 0 ? conds[c].k == C_EQ : conds[-c].k == C_AND && plainValues(-conds[-c].a) && plainValues(-conds[-c].b); } // exactly, not just implied
  void valueList(int c, std::vector<I> &o) {
    if (c > 0 && conds[c].k == C_AND) { int s; Rng r; valueList(valuesOf(conds[c].a, s, r) ? conds[c].a : conds[c].b, o); return; }
    if (c > 0) { o.push_back(-conds[c].l.c0); return; }
    valueList(-conds[-c].a, o); valueList(-conds[-c].b, o);
  }
  bool isValue(int c, I k) { // c: a disjunction accepted by valuesOf
    if (c > 0 && conds[c].k == C_AND) { int s; Rng r; return isValue(valuesOf(conds[c].a, s, r) ? conds[c].a : conds[c].b, k); }
    if (c > 0) return -conds[c].l.c0 == k;
    return isValue(-conds[-c].a, k) || isValue(-conds[-c].b, k);
  }
  void hint(int c) { if (c < 0) c = -c; if (hintSet.insert(c).second) hints.push_back(c); }

  // range using the linear facts of the state once
  Rng sharp(const Lin &x, const State &st) {
    Rng r = rangeLin(x, st);
    int k = 0;
    for (size_t i = st.facts.size(); i-- > 0 && k < 12;) {
      const Lin &f = st.facts[i]; if (!share(x, f)) continue;
      ++k;
      r.hi = std::min(r.hi, rangeLin(x - f, st).hi); r.lo = std::max(r.lo, rangeLin(x + f, st).lo);
    }
    return r;
  }

  // ---------- integer arithmetic
  Lin quotFloor(const Lin &f, I c, const State &st) { // c > 0
    if (f.isConst()) return linC(fdiv(f.c0, c));
    Lin g, h;
    g.c0 = fdiv(f.c0, c); h.c0 = f.c0 - g.c0 * c;
    for (auto &p : f.t) {
      I r = p.second % c; // symmetric residue in (-c/2, c/2]
      if (2 * r > c) r -= c; else if (2 * r <= -c) r += c;
      I q = (p.second - r) / c;
      if (q) g.t.push_back({p.first, q});
      if (r) h.t.push_back({p.first, r});
    }
    if (h.isConst()) return g; // 0 <= h.c0 < c
    I gg = c; for (auto &p : h.t) gg = gcdI(gg, p.second);
    if (gg > 1) { for (auto &p : h.t) p.second /= gg; h.c0 = fdiv(h.c0, gg); c /= gg; }
    Rng r = sharp(h, st);
    if (r.lo > -INF && r.hi < INF && fdiv(r.lo, c) == fdiv(r.hi, c)) { g.c0 += fdiv(r.lo, c); return g; }
    for (int i = (int)h.t.size() - 1; i >= 0; --i) {
      const Sym &s = syms[h.t[i].first];
      if (s.k == S_QUOT && h.t[i].second == 1 && s.c < ((I)1 << 62) / c) {
        Lin y = h; y.add(h.t[i].first, -1);
        Lin n = s.a + scale(y, s.c); I nc = s.c * c;
        return g + quotFloor(n, nc, st);
      }
    }
    std::string k = "Q"; putLin(k, h); put(k, c);
    Sym s; s.k = S_QUOT; s.a = h; s.c = c;
    g.add(newSym(s, k), 1);
    return g;
  }
  Lin quotTrunc(const Lin &f, I c, const State &st) {
    if (c < 0) return scale(quotTrunc(f, -c, st), -1);
    if (c == 1) return f;
    if (f.isConst()) return linC(f.c0 / c);
    { bool div = f.c0 % c == 0; for (auto &p : f.t) if (p.second % c) div = false;
      if (div) { Lin g = f; g.c0 /= c; for (auto &p : g.t) p.second /= c; return g; } }
    Rng r = sharp(f, st);
    if (r.lo > -INF && r.hi < INF && r.lo / c == r.hi / c) return linC(r.lo / c);
    Lin nf = scale(f, -1);
    if (r.lo >= 0 || (!st.facts.empty() && proveLE(nf, st))) return quotFloor(f, c, st);
    if (r.hi <= 0 || (!st.facts.empty() && proveLE(f, st))) return scale(quotFloor(nf, c, st), -1);
    std::string k = "T"; putLin(k, f); put(k, c);
    Sym s; s.k = S_TQUOT; s.a = f; s.c = c;
    hint(condLE(f));
    return linS(newSym(s, k));
  }
  Lin mul(const Lin &a, const Lin &b, const State &st) {
    if (a.isConst()) return scale(b, a.c0);
    if (b.isConst()) return scale(a, b.c0);
    Rng ra = rangeLin(a, st), rb = rangeLin(b, st);
    if (ra.isConst()) return scale(b, ra.lo);
    if (rb.isConst()) return scale(a, rb.lo);
    if (a.t.size() * b.t.size() <= 12) { // sum of products of two symbols
      Lin r = linC(a.c0 * b.c0);
      for (auto &p : a.t) r.add(p.first, p.second * b.c0);
      for (auto &q : b.t) r.add(q.first, q.second * a.c0);
      for (auto &p : a.t) for (auto &q : b.t) r = r + scale(mul1(linS(std::min(p.first, q.first)), linS(std::max(p.first, q.first))), p.second * q.second);
      return r;
    }
    return mul1(a, b);
  }
  Lin mul1(const Lin &a, const Lin &b) {
    Lin x = a, y = b;
    std::string kx, ky; putLin(kx, x); putLin(ky, y);
    if (ky < kx) { std::swap(x, y); std::swap(kx, ky); }
    Sym s; s.k = S_MUL; s.a = x; s.b = y;
    return linS(newSym(s, "M" + kx + "*" + ky));
  }
  // a / c (C++ truncation) for a divisor that is not a constant; false: signs unknown
  bool quotBy(Lin a, Lin c, State &st, Lin &q, Lin &prod) {
    int sg = 1;
    auto sign = [&](const Lin &l) { Rng r = sharp(l, st); if (r.lo >= 0) return 1; if (r.hi <= 0) return -1; if (proveLE(scale(l, -1), st)) return 1; if (proveLE(l, st)) return -1; return 0; };
    int sc = sign(c), sa = sign(a);
    if (!sc) { hint(condLE(c)); return false; }
    if (!sa) { hint(condLE(a)); Lin z = a; z.c0 += 1; hint(condLE(z)); return false; }
    if (sc < 0) { c = scale(c, -1); sg = -sg; }
    if (sa < 0) { a = scale(a, -1); sg = -sg; }
    Rng ra = sharp(a, st), rc = sharp(c, st);
    if (rc.lo < 1) rc.lo = 1;
    if (ra.hi >= INF) return false;
    I hi = ra.hi < 0 ? 0 : ra.hi / rc.lo;
    { I lo = 0, h = hi + 1; // smallest K with a < K*c
      while (lo + 1 < h) { I k = lo + (h - lo) / 2; Lin l = a - scale(c, k); l.c0 += 1; if (proveLE(l, st)) h = k; else lo = k; }
      hi = std::min(hi, h - 1); }
    std::string k = "DV"; putLin(k, a); putLin(k, c); put(k, hi);
    Sym s; s.k = S_OPQ; s.name = "quot"; s.base = {0, hi};
    Lin qs = linS(newSym(s, k)), p = mul(qs, c, st);
    Lin f = p - a, g = a - p - c; g.c0 += 1;
    addFact(st, f); tighten(f, st); addFact(st, g); tighten(g, st);
    q = scale(qs, sg); prod = scale(p, sa); // c*q has the sign of a
    return true;
  }
  int ind(int c) {
    Sym s; s.k = S_IND; s.cond = c; std::string k = "I"; put(k, c);
    return newSym(s, k);
  }
  Lin indLin(int c) { // 0/1
    if (c == 1) return linC(1); if (c == -1) return linC(0);
    if (c < 0) return linC(1) - linS(ind(-c));
    return linS(ind(c));
  }

  // ---------- reals
  int internF(FForm f) {
    if (!f.cst && !f.top && f.t.empty() && f.err == 0) { double k = (double)f.c0; if ((R)k == f.c0) { f = FForm(); f.k = k; } }
    std::string k;
    if (f.top) k = "top" + std::to_string(fresh++);
    else if (f.cst) { k = "c"; k.append((const char *)&f.k, 8); }
    else { k = "f"; k.append((const char *)&f.c0, 10); k.append((const char *)&f.err, 10); for (auto &p : f.t) { put(k, p.first); k.append((const char *)&p.second, 10); } }
    auto it = ffKey.find(k); if (it != ffKey.end()) return it->second;
    ffs.push_back(f); ffKey[k] = (int)ffs.size() - 1;
    return (int)ffs.size() - 1;
  }
  AV mkF(const FForm &f) { AV a; a.k = AV::FP; a.id = internF(f); return a; }
  AV mkFC(double d) { FForm f; f.k = d; return mkF(f); }
  AV mkFTop() { FForm f; f.cst = false; f.top = true; return mkF(f); }
  FForm lift(const FForm &f) { if (!f.cst) return f; FForm g; g.cst = false; g.c0 = f.k; return g; }
  static bool dyadic(const FForm &f) {
    if (f.err != 0) return false;
    const R S = 1048576.0L;
    if (f.c0 * S != truncl(f.c0 * S)) return false;
    for (auto &p : f.t) if (p.second * S != truncl(p.second * S)) return false;
    return true;
  }
  bool intSyms(const FForm &f) { for (auto &p : f.t) if (syms[p.first].k == S_RIN || syms[p.first].k == S_ROP) return false; return true; }
  void roundErr(FForm &f, const State &st) { // error of one double rounding of f
    auto r = rangeFF(f, st, 0);
    R m = std::max(fabsl(r.first), fabsl(r.second));
    if (dyadic(f) && intSyms(f) && m * 1048576.0L < 9007199254740992.0L) return;
    bool integral = f.err == 0 && f.c0 == truncl(f.c0) && intSyms(f); for (auto &p : f.t) if (p.second != truncl(p.second)) integral = false;
    if (integral && m <= 9007199254740992.0L) return;
    f.err += m * 1.12e-16L;
  }
  FForm fromLin(const Lin &l, const State &st) {
    FForm f;
    if (l.isConst()) { f.k = (double)l.c0; return f; }
    if (point) { Rng r = rangeLin(l, st); if (r.isConst()) { f.k = (double)r.lo; return f; } }
    f.cst = false; f.c0 = (R)l.c0;
    for (auto &p : l.t) f.t.push_back({p.first, (R)p.second});
    roundErr(f, st);
    return f;
  }
  FForm toFloat(FForm f, const State &st) { // rounding to single precision
    if (f.cst) { f.k = (double)(float)f.k; return f; }
    if (!f.top) {
      auto r = rangeFF(f, st, 0); R m = std::max(fabsl(r.first), fabsl(r.second));
      if (m < 3e38L) {
        if (!(m <= 16777216.0L && f.err == 0 && intSyms(f) && f.c0 == truncl(f.c0) && std::all_of(f.t.begin(), f.t.end(), [](const std::pair<int, R> &p) { return p.second == truncl(p.second); }))) f.err += m * 5.97e-8L + 1e-45L;
        return f;
      }
    }
    FForm t; t.cst = false; t.top = true; return t;
  }
  FForm fadd(const FForm &a0, const FForm &b0, int sgn, const State &st) {
    if (a0.cst && b0.cst) { FForm f; f.k = sgn > 0 ? a0.k + b0.k : a0.k - b0.k; return f; }
    if (a0.top || b0.top || (a0.cst && !std::isfinite(a0.k)) || (b0.cst && !std::isfinite(b0.k))) { FForm f; f.cst = false; f.top = true; return f; }
    if (b0.cst && b0.k == 0) return a0;
    if (a0.cst && a0.k == 0 && sgn > 0) return b0;
    FForm a = lift(a0), b = lift(b0), f; f.cst = false; f = a;
    f.c0 += sgn * b.c0; f.err += b.err;
    for (auto &p : b.t) addTerm(f, p.first, sgn * p.second, st);
    roundErr(f, st); return f;
  }
  static R coefErr(R a, R q, double k, bool div) {
    R rest = div ? fmal(q, (R)k, -a) : fmal(a, (R)k, -q);
    return rest == 0 ? 0 : fabsl(q) * 1.1e-19L;
  }
  FForm fmulc(const FForm &a, double k, bool div, const State &st) {
    FForm f;
    if (a.cst) { f.k = div ? a.k / k : a.k * k; return f; }
    if (a.top || !std::isfinite(k) || (div && k == 0)) { f.cst = false; f.top = true; return f; }
    if (k == 1) return a;
    R m = div ? 1.0L / (R)k : (R)k;
    f = a; f.c0 = div ? a.c0 / (R)k : a.c0 * (R)k; f.err = a.err * fabsl(m);
    R cerr = coefErr(a.c0, f.c0, k, div); // the coefficients themselves are rounded (64 bits)
    for (auto &p : f.t) {
      R q = div ? p.second / (R)k : p.second * (R)k, e = coefErr(p.second, q, k, div); p.second = q;
      if (e != 0) { auto r = rangeRSym(p.first, st); cerr += e * std::max(fabsl(r.first), fabsl(r.second)); }
    }
    f.err += cerr;
    int e; double fr = frexp(k, &e);
    if (fr == 0.5 || fr == -0.5) return f; // power of two: exact
    roundErr(f, st);
    return f;
  }
};
