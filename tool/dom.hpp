// Abstract domain of the static analyser "abint": hash-consed affine forms over
// symbols (inputs, quotients, gated joins, table loads, ...) with intervals.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <functional>
#include <algorithm>
#include <optional>

typedef __int128 I;
typedef long double R;
static const I INF = (I)1 << 120;

inline std::string i2s(I v) {
  if (v >= INF) return "+inf";
  if (v <= -INF) return "-inf";
  bool n = v < 0;
  if (n) v = -v;
  std::string s;
  do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v);
  return n ? "-" + s : s;
}
inline I fdiv(I a, I b) { // b>0 floor
  I q = a / b;
  if (a % b < 0) --q;
  return q;
}
inline I gcdI(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
inline I clampI(I v) { return v > INF ? INF : (v < -INF ? -INF : v); }
inline I addS(I a, I b) { if (a >= INF || b >= INF) return INF; if (a <= -INF || b <= -INF) return -INF; return clampI(a + b); }
inline I mulS(I a, I b) { // saturating
  if (a == 0 || b == 0) return 0;
  bool neg = (a < 0) != (b < 0);
  I x = a < 0 ? -a : a, y = b < 0 ? -b : b;
  if (x >= INF || y >= INF || x > INF / y) return neg ? -INF : INF;
  return neg ? -(x * y) : x * y;
}

struct Rng { I lo = -INF, hi = INF; bool isConst() const { return lo == hi; } };
inline Rng meet(Rng a, Rng b) { return {std::max(a.lo, b.lo), std::min(a.hi, b.hi)}; }
inline Rng hull(Rng a, Rng b) { return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }

struct Lin {
  I c0 = 0;
  std::vector<std::pair<int, I>> t; // sorted by symbol id, nonzero coefficients
  bool isConst() const { return t.empty(); }
  bool operator==(const Lin &o) const { return c0 == o.c0 && t == o.t; }
  void add(int s, I c) {
    if (!c) return;
    auto it = std::lower_bound(t.begin(), t.end(), std::make_pair(s, (I)-INF), [](auto &a, auto &b) { return a.first < b.first; });
    if (it != t.end() && it->first == s) { it->second += c; if (!it->second) t.erase(it); }
    else t.insert(it, {s, c});
  }
};
inline Lin operator+(const Lin &a, const Lin &b) {
  Lin r; r.c0 = a.c0 + b.c0;
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].first < a.t[i].first) r.t.push_back(b.t[j++]);
    else { I c = a.t[i].second + b.t[j].second; if (c) r.t.push_back({a.t[i].first, c}); ++i; ++j; }
  }
  return r;
}
inline Lin scale(const Lin &a, I k) {
  Lin r; if (!k) return r;
  r.c0 = a.c0 * k; r.t = a.t;
  for (auto &p : r.t) p.second *= k;
  return r;
}
inline Lin operator-(const Lin &a, const Lin &b) { return a + scale(b, -1); }
inline Lin linC(I c) { Lin r; r.c0 = c; return r; }
inline Lin linS(int s) { Lin r; r.t.push_back({s, 1}); return r; }

enum SymKind { S_IN, S_RIN, S_QUOT, S_TQUOT, S_MUL, S_TAB, S_ITE, S_IND, S_TRUNC, S_OPQ, S_WRAP, S_ROP, S_CHR, S_LOW };
struct Sym {
  SymKind k;
  std::string name;
  Lin a, b;      // operands
  I c = 0;       // divisor / mode
  int cond = 0;  // ITE/IND
  int fp = 0, fp2 = 0; // TRUNC/ROP operand
  Rng base;      // declared bounds (inputs, opaque, tab)
  R rlo = 0, rhi = 0; // real symbols
  int input = -1; // index into inputs
  void *obj = nullptr;
};

// real-valued affine form
struct FForm {
  bool cst = true, top = false;
  bool mag = false;                   // magnitude of such a value
  int kind = -1, fin = 0;             // possibly non-finite value: class symbol, finite form
  double k = 0;                       // exact constant
  std::vector<std::pair<int, R>> t;   // terms
  R c0 = 0, err = 0;
};

enum CondKind { C_TRUE, C_LE, C_EQ, C_AND, C_OR, C_OPQ, C_FLT /* real form < 0 */, C_FLE };
struct Cond {
  CondKind k;
  Lin l;
  int a = 0, b = 0; // children (signed cond ids)
  int fp = 0;
  std::string name;
};
