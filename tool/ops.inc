// ---- simple instructions (included inside struct Interp) ----
AV fit(Lin r, unsigned w, bool signedNoWrap, const char *op, State &st) {
  I lo = bitsLo(w), hi = bitsHi(w);
  Rng g = rangeLin(r, st);
  if (g.lo >= lo && g.hi <= hi) return mkInt(r);
  if (signedNoWrap) {
    int c = condAnd(condLE(r - linC(hi)), condLE(linC(lo) - r));
    require("OVF", std::string("signed integer overflow in ") + op, c, st);
    if (r.isConst()) { I x = r.c0; I sh = 128 - w; x = (I)((unsigned __int128)x << sh) >> sh; return mkInt(x); }
    return mkInt(r);
  }
  return wrap(r, w, st);
}
AV wrap(Lin r, unsigned w, State &st) {
  I lo = bitsLo(w), hi = bitsHi(w);
  Rng g = rangeLin(r, st);
  if (g.lo >= lo && g.hi <= hi) return mkInt(r);
  // a whole number of turns?
  I span = (I)1 << w;
  if (g.lo > -INF && g.hi < INF) {
    I k0 = fdiv(g.lo - lo, span), k1 = fdiv(g.hi - lo, span);
    if (k0 == k1) return mkInt(r - linC(k0 * span));
    hint(condLE(r - linC(lo + (k0 + 1) * span - 1)));
  }
  Sym s; s.k = S_WRAP; s.a = r; s.c = w; s.base = {lo, hi};
  std::string k = "W"; putLin(k, r); put(k, (I)w);
  return mkInt(linS(newSym(s, k)));
}
// unsigned view of a signed-represented value
Lin asUnsigned(const Lin &l, unsigned w, State &st) {
  Rng g = rangeLin(l, st);
  if (g.lo >= 0) return l;
  if (g.hi < 0) return l + linC((I)1 << w);
  int c = condLE(scale(l, -1)); // l >= 0
  int d = decide(c, st);
  if (d == 1) return l;
  if (d == -1) return l + linC((I)1 << w);
  hint(c);
  return l + scale(indLin(-c), (I)1 << w);
}
AV binop(const BinaryOperator &b, State &st, FInfo &fi) {
  Type *t = b.getType();
  AV x = val(b.getOperand(0), st, fi), y = val(b.getOperand(1), st, fi);
  if (t->isDoubleTy() || t->isFloatTy()) {
    FForm a = asF(x, st), c = asF(y, st);
    AV z;
    switch (b.getOpcode()) {
    case Instruction::FAdd: z = mkF(fadd(a, c, 1, st)); break;
    case Instruction::FSub: z = mkF(fadd(a, c, -1, st)); break;
    case Instruction::FMul:
      z = c.cst ? mkF(fmulc(a, c.k, false, st)) : a.cst ? mkF(fmulc(c, a.k, false, st)) : fop2("*", x.id, y.id, a, c, st); break;
    case Instruction::FDiv:
      z = c.cst ? mkF(fmulc(a, c.k, true, st)) : fop2("/", x.id, y.id, a, c, st); break;
    default: return mkFTop();
    }
    return t->isFloatTy() ? mkF(toFloat(asF(z, st), st)) : z;
  }
  if (!t->isIntegerTy()) return mkTop();
  unsigned w = t->getIntegerBitWidth();
  if (w == 1) {
    int a = asCond(x, st), c = asCond(y, st);
    switch (b.getOpcode()) {
    case Instruction::And: case Instruction::Mul: return mkBool(condAnd(a, c));
    case Instruction::Or: return mkBool(condOr(a, c));
    case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkBool(condOr(condAnd(a, -c), condAnd(-a, c)));
    default: return mkBool(condOpaque("bit"));
    }
  }
  if (w > 64) return mkTop();
  if (x.k == AV::PACK && b.getOpcode() == Instruction::LShr && y.k == AV::INT && L(y).isConst()) {
    I sh = L(y).c0 / 8, p = 0; std::vector<std::pair<AV, int>> r;
    for (auto &q : packs[x.id]) { if (p >= sh) r.push_back(q); p += q.second; }
    AV z = mkInt((I)0); if (sh) r.push_back({z, (int)sh});
    AV a; a.k = AV::PACK; a.id = (int)packs.size(); packs.push_back(r); return a;
  }
  Lin a = asInt(x, w, st), c = asInt(y, w, st);
  if (!a.isConst()) a = subst(a, st);
  if (!c.isConst()) c = subst(c, st);
  Rng rc = rangeLin(c, st), ra = rangeLin(a, st);
  if (rc.isConst()) c = linC(rc.lo);
  if (ra.isConst()) a = linC(ra.lo);
  bool nsw = isa<OverflowingBinaryOperator>(b) && b.hasNoSignedWrap();
  switch (b.getOpcode()) {
  case Instruction::Add: return fit(a + c, w, nsw, "addition", st);
  case Instruction::Sub: return fit(a - c, w, nsw, "subtraction", st);
  case Instruction::Mul: return fit(mul(a, c, st), w, nsw, "multiplication", st);
  case Instruction::SDiv: case Instruction::SRem: {
    bool rem = b.getOpcode() == Instruction::SRem;
    require("DIVZERO", "division by zero", -condEQ(c), st);
    if (c.isConst() && c.c0 != 0) {
      Lin q = quotTrunc(a, c.c0, st);
      if (rem) return mkInt(a - scale(q, c.c0));
      return fit(q, w, true, "division", st);
    }
    { Lin q, pr; if (quotBy(a, c, st, q, pr)) { if (rem) return mkInt(a - pr); return fit(q, w, true, "division", st); } }
    Rng r = rangeLin(a, st);
    I m = std::max(r.hi < 0 ? -r.hi : r.hi, r.lo < 0 ? -r.lo : r.lo);
    std::string k = rem ? "SREM" : "SDIV"; putLin(k, a); putLin(k, c);
    Sym s; s.k = S_OPQ; s.name = rem ? "rem" : "quot";
    Rng cr = rangeLin(c, st);
    if (rem) { I mc = std::max(cr.hi < 0 ? -cr.hi : cr.hi, cr.lo < 0 ? -cr.lo : cr.lo); m = std::min(m, mc - 1); s.base = {r.lo < 0 ? -m : 0, r.hi > 0 ? m : 0}; }
    else s.base = {-m, m};
    hint(condLE(c - linC(fdiv(cr.lo + cr.hi, 2))));
    return mkInt(linS(newSym(s, k)));
  }
  case Instruction::UDiv: case Instruction::URem: {
    bool rem = b.getOpcode() == Instruction::URem;
    require("DIVZERO", "division by zero", -condEQ(c), st);
    a = asUnsigned(a, w, st); c = asUnsigned(c, w, st);
    if (c.isConst() && c.c0 > 0) { Lin q = quotFloor(a, c.c0, st); return wrap(rem ? a - scale(q, c.c0) : q, w, st); }
    return topOf(t);
  }
  case Instruction::Shl:
    if (c.isConst() && c.c0 >= 0 && c.c0 < w) return nsw ? fit(scale(a, (I)1 << c.c0), w, true, "shift", st) : wrap(scale(a, (I)1 << c.c0), w, st);
    return topOf(t);
  case Instruction::AShr:
    if (c.isConst() && c.c0 >= 0 && c.c0 < w) return mkInt(quotFloor(a, (I)1 << c.c0, st));
    return topOf(t);
  case Instruction::LShr:
    if (c.isConst() && c.c0 >= 0 && c.c0 < w) return wrap(quotFloor(asUnsigned(a, w, st), (I)1 << c.c0, st), w, st);
    return topOf(t);
  case Instruction::And: {
    if (a.isConst()) std::swap(a, c);
    if (a.isConst()) return mkInt(a.c0 & c.c0);
    if (c.isConst() && c.c0 >= 0 && ((c.c0 + 1) & c.c0) == 0) { I m = c.c0 + 1; if (m == 1) return mkInt((I)0); return mkInt(a - scale(quotFloor(a, m, st), m)); }
    if (c.isConst() && c.c0 == -1) return mkInt(a);
    if (c.isConst() && c.c0 < 0 && ((-c.c0) & (-c.c0 - 1)) == 0) { I m = -c.c0; return mkInt(scale(quotFloor(a, m, st), m)); }
    if (c.isConst() && c.c0 > 0 && (c.c0 & (c.c0 - 1)) == 0) { // single bit
      I m = c.c0; Lin hi2 = quotFloor(a, m, st); return mkInt(scale(hi2 - scale(quotFloor(a, 2 * m, st), 2), m)); }
    return boundedOp("and", a, c, ra.lo >= 0 || rc.lo >= 0 ? Rng{0, ra.lo >= 0 && rc.lo >= 0 ? std::min(ra.hi, rc.hi) : (ra.lo >= 0 ? ra.hi : rc.hi)} : Rng{bitsLo(w), bitsHi(w)});
  }
  case Instruction::Or: {
    if (a.isConst() && c.isConst()) return mkInt(a.c0 | c.c0);
    if (a.isConst()) std::swap(a, c);
    if (c.isConst() && c.c0 == 0) return mkInt(a);
    // boolean-like operands (0/1): a|b = a+b-a*b
    Rng r1 = rangeLin(a, st), r2 = rangeLin(c, st);
    if (r1.lo >= 0 && r1.hi <= 1 && r2.lo >= 0 && r2.hi <= 1) return mkInt(indLin(condOr(-condEQ(a), -condEQ(c))));
    if (c.isConst() && c.c0 > 0) { // disjoint bits: a multiple of 2^k, c < 2^k
      I m = 1; while (m <= c.c0) m <<= 1; bool ok = a.c0 % m == 0; for (auto &p : a.t) if (p.second % m) ok = false; if (ok) return mkInt(a + c); }
    return boundedOp("or", a, c, Rng{bitsLo(w), bitsHi(w)});
  }
  case Instruction::Xor:
    if (a.isConst() && c.isConst()) return mkInt(a.c0 ^ c.c0);
    if (a.isConst()) std::swap(a, c);
    if (c.isConst() && c.c0 == -1) return mkInt(linC(-1) - a);
    return boundedOp("xor", a, c, Rng{bitsLo(w), bitsHi(w)});
  default: return topOf(t);
  }
}
AV boundedOp(const char *n, const Lin &a, const Lin &c, Rng r) {
  std::string k = n; putLin(k, a); putLin(k, c);
  Sym s; s.k = S_OPQ; s.name = n; s.base = r;
  return mkInt(linS(newSym(s, k)));
}
AV fop2(const char *op, int ia, int ib, const FForm &a, const FForm &c, State &st) {
  if (a.top || c.top) return mkFTop();
  if (a.cst && c.cst) { return mkFC(op[0] == '*' ? a.k * c.k : a.k / c.k); }
  auto ra = rangeFF(a, st, 0), rb = rangeFF(c, st, 0);
  if (op[0] == '/' && rb.first <= 0 && rb.second >= 0) return mkFTop();
  R v[4];
  if (op[0] == '*') { v[0] = ra.first * rb.first; v[1] = ra.first * rb.second; v[2] = ra.second * rb.first; v[3] = ra.second * rb.second; }
  else { v[0] = ra.first / rb.first; v[1] = ra.first / rb.second; v[2] = ra.second / rb.first; v[3] = ra.second / rb.second; }
  Sym s; s.k = S_ROP; s.name = op; s.fp = ia; s.fp2 = ib;
  s.rlo = *std::min_element(v, v + 4); s.rhi = *std::max_element(v, v + 4);
  if (!(std::isfinite((double)s.rlo) && std::isfinite((double)s.rhi))) return mkFTop();
  R m = std::max(fabsl(s.rlo), fabsl(s.rhi)) * 1.2e-16L; s.rlo -= m; s.rhi += m;
  std::string k = std::string("R") + op; put(k, ia); put(k, ib);
  FForm f; f.cst = false; f.t.push_back({newSym(s, k), 1}); return mkF(f);
}
// integer from a real (mode: 0 trunc 1 floor 2 ceil 3 round); sign: exact integer forms map back to affine integers
bool exactInt(const FForm &f, Lin &out) {
  if (f.cst) { if (!std::isfinite(f.k) || f.k != std::trunc(f.k) || std::fabs(f.k) > 9.2e18) return false; out = linC((I)f.k); return true; }
  if (f.top || f.err != 0 || !intSyms(f)) return false;
  if (f.c0 != truncl(f.c0)) return false;
  out = linC((I)f.c0);
  for (auto &p : f.t) { if (p.second != truncl(p.second)) return false; out.add(p.first, (I)p.second); }
  return true;
}
Lin intOf(const AV &v, int mode, State &st) {
  FForm f = asF(v, st);
  Lin o; if (exactInt(f, o)) return o;
  if (f.cst && std::isfinite(f.k)) { R y = mode == 0 ? truncl((R)f.k) : mode == 1 ? floorl((R)f.k) : mode == 2 ? ceill((R)f.k) : roundl((R)f.k); if (fabsl(y) < 1e30L) return linC((I)y); }
  if (f.top || (f.cst && !std::isfinite(f.k))) return linS(opaque("real-to-int" + std::to_string(fresh++), -INF, INF));
  Sym s; s.k = S_TRUNC; s.fp = v.id; s.c = mode;
  std::string k = "F"; put(k, v.id); put(k, mode);
  int id = newSym(s, k);
  Rng r = rangeSym(id, st); if (r.isConst()) return linC(r.lo);
  return linS(id);
}
AV cmp(ICmpInst::Predicate p, const Value *va, const Value *vb, State &st, FInfo &fi) {
  AV x = val(va, st, fi), y = val(vb, st, fi);
  if (va->getType()->isPointerTy()) {
    if (x.k != AV::PTR || y.k != AV::PTR || x.obj == -1 || y.obj == -1) return mkBool(condOpaque("pointer comparison"));
    if (x.obj != y.obj) {
      if (p == ICmpInst::ICMP_EQ) return mkBool(-1);
      if (p == ICmpInst::ICMP_NE) return mkBool(1);
      return mkBool(condOpaque("pointer comparison"));
    }
    Lin d = L(x) - L(y); int c;
    switch (p) {
    case ICmpInst::ICMP_EQ: c = condEQ(d); break; case ICmpInst::ICMP_NE: c = -condEQ(d); break;
    case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: c = condLE(d + linC(1)); break;
    case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: c = condLE(d); break;
    case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: c = -condLE(d); break;
    default: c = -condLE(d + linC(1)); break;
    }
    return mkBool(c);
  }
  if (!va->getType()->isIntegerTy()) return mkBool(condOpaque("cmp"));
  unsigned w = va->getType()->getIntegerBitWidth();
  if (w == 1) {
    int a = asCond(x, st), c = asCond(y, st); int xr = condOr(condAnd(a, -c), condAnd(-a, c));
    if (p == ICmpInst::ICMP_EQ) return mkBool(-xr);
    if (p == ICmpInst::ICMP_NE) return mkBool(xr);
    if (p == ICmpInst::ICMP_ULT || p == ICmpInst::ICMP_SGT) return mkBool(condAnd(-a, c));
    if (p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_SLT) return mkBool(condAnd(a, -c));
    return mkBool(condOpaque("cmp"));
  }
  if (w > 64) return mkBool(condOpaque("cmp"));
  // comparing a widened flag with 0
  Lin a = asInt(x, w, st), c = asInt(y, w, st);
  if (ICmpInst::isUnsigned(p)) { a = asUnsigned(a, w, st); c = asUnsigned(c, w, st); }
  a = subst(a, st); c = subst(c, st);
  Lin d = a - c; int r;
  switch (p) {
  case ICmpInst::ICMP_EQ: r = eqLin(d); break;
  case ICmpInst::ICMP_NE: r = -eqLin(d); break;
  case ICmpInst::ICMP_SLT: case ICmpInst::ICMP_ULT: r = condLE(d + linC(1)); break;
  case ICmpInst::ICMP_SLE: case ICmpInst::ICMP_ULE: r = condLE(d); break;
  case ICmpInst::ICMP_SGT: case ICmpInst::ICMP_UGT: r = -condLE(d); break;
  default: r = -condLE(d + linC(1)); break;
  }
  return mkBool(indCmp(r));
}
// comparisons of a single 0/1 gate with a constant are the gate's condition
int indCmp(int c) {
  int a = c < 0 ? -c : c, sg = c < 0 ? -1 : 1; Cond k = conds[a];
  if ((k.k == C_LE || k.k == C_EQ) && k.l.t.size() == 1 && syms[k.l.t[0].first].k == S_IND) {
    I co = k.l.t[0].second, v0 = k.l.c0, v1 = k.l.c0 + co;
    bool t0 = k.k == C_LE ? v0 <= 0 : v0 == 0, t1 = k.k == C_LE ? v1 <= 0 : v1 == 0;
    int g = syms[k.l.t[0].first].cond;
    if (t0 && t1) return sg; if (!t0 && !t1) return -sg;
    return sg * (t1 ? g : -g);
  }
  return c;
}
int eqLin(const Lin &d) { return condEQ(d); }
AV fcmpOp(const FCmpInst &f, State &st, FInfo &fi) {
  AV x = val(f.getOperand(0), st, fi), y = val(f.getOperand(1), st, fi);
  FForm a = asF(x, st), b = asF(y, st);
  auto p = f.getPredicate();
  if ((a.top && a.kind >= 0 && !b.top) || (b.top && b.kind >= 0 && !a.top)) {
    bool left = a.top; const FForm &k = left ? a : b; const FForm &o = left ? b : a;
    if (!o.cst || std::isfinite(o.k)) {
      auto fin = [&](FCmpInst::Predicate q) { FForm u = ffs[k.fin]; return left ? fcmpForms(q, u, o, st) : fcmpForms(q, o, u, st); };
      bool unord = p >= FCmpInst::FCMP_UNO; // unordered predicates are true on NaN
      int base = p & 7; bool gt = base & 2, lt = base & 4;
      if (!left) std::swap(gt, lt);
      int k0 = condEQ(linS(k.kind)), k1 = condEQ(linS(k.kind) - linC(1)), k2 = condEQ(linS(k.kind) - linC(2)), k3 = condEQ(linS(k.kind) - linC(3));
      int c;
      if (!k.mag) c = condAnd(k0, fin(p));
      else { // |v|: both v and -v
        bool eq = base & 1; FForm u = ffs[k.fin], m = fmulc(u, -1.0, false, st); m.err = u.err;
        auto both = [&](FCmpInst::Predicate q, bool all) { int s1 = fcmpForms(q, u, o, st), s2 = fcmpForms(q, m, o, st); return all ? condAnd(s1, s2) : condOr(s1, s2); };
        int f;
        if (lt && gt) f = eq ? 1 : -both(FCmpInst::FCMP_OEQ, false);
        else if (lt) f = both(eq ? FCmpInst::FCMP_OLE : FCmpInst::FCMP_OLT, true);
        else if (gt) f = both(eq ? FCmpInst::FCMP_OGE : FCmpInst::FCMP_OGT, false);
        else f = eq ? both(FCmpInst::FCMP_OEQ, false) : -1;
        c = condAnd(k0, f);
        k1 = condOr(condEQ(linS(k.kind) - linC(1)), condEQ(linS(k.kind) - linC(2))); k2 = -1;
      }
      if (gt) c = condOr(c, k1);
      if (lt) c = condOr(c, k2);
      if (unord) c = condOr(c, k3);
      hint(k0);
      return mkBool(c);
    }
  }
  if (!a.cst && !a.top && !b.top && (!b.cst || std::isfinite(b.k))) return mkBool(fcmpForms(p, a, b, st));
  if (!b.cst && !b.top && a.cst && std::isfinite(a.k)) return mkBool(fcmpForms(p, a, b, st));
  if (a.cst && b.cst) {
    double u = a.k, v = b.k; bool un = std::isnan(u) || std::isnan(v), r = false;
    switch (p) {
    case FCmpInst::FCMP_OEQ: r = !un && u == v; break; case FCmpInst::FCMP_UEQ: r = un || u == v; break;
    case FCmpInst::FCMP_ONE: r = !un && u != v; break; case FCmpInst::FCMP_UNE: r = un || u != v; break;
    case FCmpInst::FCMP_OLT: r = !un && u < v; break; case FCmpInst::FCMP_ULT: r = un || u < v; break;
    case FCmpInst::FCMP_OLE: r = !un && u <= v; break; case FCmpInst::FCMP_ULE: r = un || u <= v; break;
    case FCmpInst::FCMP_OGT: r = !un && u > v; break; case FCmpInst::FCMP_UGT: r = un || u > v; break;
    case FCmpInst::FCMP_OGE: r = !un && u >= v; break; case FCmpInst::FCMP_UGE: r = un || u >= v; break;
    case FCmpInst::FCMP_ORD: r = !un; break; case FCmpInst::FCMP_UNO: r = un; break;
    default: r = p == FCmpInst::FCMP_TRUE; break;
    }
    return mkBool(r ? 1 : -1);
  }
  if (a.top || b.top || (a.cst && !std::isfinite(a.k)) || (b.cst && !std::isfinite(b.k))) {
    if (x == y && (p == FCmpInst::FCMP_OEQ || p == FCmpInst::FCMP_ORD)) return mkBool(condOpaque("ordered"));
    return mkBool(condOpaque("real comparison"));
  }
  return mkBool(condOpaque("real comparison"));
}
int fcmpForms(FCmpInst::Predicate p, const FForm &a, const FForm &b, State &st) {
  FForm d; // exact difference: a comparison does not round
  { FForm x = lift(a), y = lift(b); d = x; d.c0 -= y.c0; d.err += y.err; for (auto &q : y.t) addTerm(d, q.first, -q.second, st); }
  auto mk = [&](CondKind k, const FForm &g) -> int {
    Lin l; if (exactInt(g, l)) return k == C_FLT ? condLE(l + linC(1)) : condLE(l);
    if (g.t.empty() && g.err == 0) return (k == C_FLT ? g.c0 < 0 : g.c0 <= 0) ? 1 : -1;
    int id = internF(g); std::string key = k == C_FLT ? "Fl" : "Fe"; put(key, id);
    Cond c; c.k = k; c.fp = id; return newCond(c, key);
  };
  FForm n = d; n.c0 = -n.c0; for (auto &q : n.t) q.second = -q.second;
  switch (p) {
  case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: return mk(C_FLT, d);
  case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: return mk(C_FLE, d);
  case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: return mk(C_FLT, n);
  case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: return mk(C_FLE, n);
  case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: return condAnd(mk(C_FLE, d), mk(C_FLE, n));
  case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: return -condAnd(mk(C_FLE, d), mk(C_FLE, n));
  case FCmpInst::FCMP_ORD: return 1;
  case FCmpInst::FCMP_UNO: return -1;
  default: return condOpaque("real comparison");
  }
}
AV simple(const Instruction &i, State &st, FInfo &fi, Frame &fr) {
  if (auto *b = dyn_cast<BinaryOperator>(&i)) return binop(*b, st, fi);
  if (auto *l = dyn_cast<LoadInst>(&i)) return load(val(l->getPointerOperand(), st, fi), l->getType(), st);
  if (auto *s = dyn_cast<StoreInst>(&i)) { store(val(s->getPointerOperand(), st, fi), val(s->getValueOperand(), st, fi), s->getValueOperand()->getType(), st); return AV(); }
  if (auto *a = dyn_cast<AllocaInst>(&i)) {
    I sz = (I)DL->getTypeAllocSize(a->getAllocatedType());
    if (auto *n = dyn_cast<ConstantInt>(a->getArraySize())) sz *= n->getSExtValue(); else sz = INF;
    int id = newObj(st, Obj::ALLOCA, sz, a->hasName() ? a->getName().str() : "local variable");
    fr.objs.push_back(id);
    return mkPtr(id, linC(0));
  }
  if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
    AV p = val(g->getPointerOperand(), st, fi);
    if (p.k != AV::PTR || p.obj == -1) return mkPtr(-1, linC(0));
    Lin off = L(p);
    for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) {
      if (StructType *s = gi.getStructTypeOrNull()) off.c0 += (I)DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
      else { Lin ix = asInt(val(gi.getOperand(), st, fi), gi.getOperand()->getType()->getIntegerBitWidth(), st); off = off + scale(ix, (I)DL->getTypeAllocSize(gi.getIndexedType())); }
    }
    off = subst(off, st);
    return mkPtr(p.obj, off);
  }
  if (auto *c = dyn_cast<ICmpInst>(&i)) return cmp(c->getPredicate(), c->getOperand(0), c->getOperand(1), st, fi);
  if (auto *c = dyn_cast<FCmpInst>(&i)) return fcmpOp(*c, st, fi);
  if (auto *c = dyn_cast<CastInst>(&i)) {
    AV x = val(c->getOperand(0), st, fi); Type *d = c->getType(), *s = c->getOperand(0)->getType();
    switch (c->getOpcode()) {
    case Instruction::SExt:
      if (s->isIntegerTy(1)) return mkInt(scale(asInt(x, 1, st), -1));
      if (x.k == AV::PACK) return mkTop();
      return mkInt(asInt(x, s->getIntegerBitWidth(), st));
    case Instruction::ZExt:
      if (s->isIntegerTy(1)) return mkInt(asInt(x, 1, st));
      if (x.k == AV::PACK) { auto v = packs[x.id]; AV z = mkInt((I)0); int pad = (int)(d->getIntegerBitWidth() - s->getIntegerBitWidth()) / 8; if (pad) v.push_back({z, pad}); AV a; a.k = AV::PACK; a.id = (int)packs.size(); packs.push_back(v); return a; }
      return mkInt(asUnsigned(asInt(x, s->getIntegerBitWidth(), st), s->getIntegerBitWidth(), st));
    case Instruction::Trunc: {
      unsigned w = d->getIntegerBitWidth();
      if (x.k == AV::PACK) {
        std::vector<std::pair<AV, int>> r; int p = 0;
        for (auto &q : packs[x.id]) { if (p + q.second <= (int)w / 8) r.push_back(q); p += q.second; }
        if (r.size() == 1 && r[0].second == (int)w / 8) return normalize(r[0].first, d, st);
        AV a; a.k = AV::PACK; a.id = (int)packs.size(); packs.push_back(r); return a;
      }
      if (w == 1) {
        if (x.k == AV::BOOL) return x;
        if (x.k == AV::INT) {
          Lin l = L(x); Rng r = rangeLin(l, st);
          if (r.lo >= 0 && r.hi <= 1) return mkBool(indCmp(-condEQ(l)));
          Lin rem = l - scale(quotFloor(l, 2, st), 2); return mkBool(indCmp(-condEQ(rem)));
        }
        return mkBool(condOpaque("bit"));
      }
      if (x.k == AV::BOOL) return x;
      if (x.k != AV::INT) return topOf(d);
      Lin l = L(x);
      Rng r = rangeLin(l, st);
      if (!(r.lo >= bitsLo(w) && r.hi <= bitsHi(w)) && classes.count("NARROW") && inRepo())
        require("NARROW", "value does not fit the narrower integer type", condAnd(condLE(l - linC(bitsHi(w))), condLE(linC(bitsLo(w)) - l)), st);
      return wrap(l, w, st);
    }
    case Instruction::SIToFP: case Instruction::UIToFP: {
      unsigned w = s->getIntegerBitWidth(); Lin n = subst(asInt(x, w, st), st);
      FForm f = fromLin(c->getOpcode() == Instruction::SIToFP ? n : asUnsigned(n, w, st), st);
      return mkF(d->isFloatTy() ? toFloat(f, st) : f);
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      unsigned w = d->getIntegerBitWidth();
      I lo = c->getOpcode() == Instruction::FPToSI ? bitsLo(w) : 0, hi = c->getOpcode() == Instruction::FPToSI ? bitsHi(w) : ((I)1 << w) - 1;
      FForm f = asF(x, st);
      if (f.top || (f.cst && !std::isfinite(f.k))) {
        require("FPCAST", "conversion of an unbounded real number to an integer", f.top ? condOpaque("real fits") : -1, st);
        return topOf(d);
      }
      Lin v = intOf(mkF(f), 0, st);
      require("FPCAST", "real number does not fit the integer type", condAnd(condLE(v - linC(hi)), condLE(linC(lo) - v)), st);
      return wrap(v, w, st);
    }
    case Instruction::FPExt: return x.k == AV::FP ? x : mkFTop();
    case Instruction::FPTrunc: return x.k == AV::FP && d->isFloatTy() ? mkF(toFloat(asF(x, st), st)) : mkFTop();
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return x;
    case Instruction::PtrToInt:
      if (x.k == AV::PTR && x.obj > 0) { // address = opaque base + offset, so differences cancel
        Sym b; b.k = S_OPQ; b.name = "address"; b.base = {(I)4096, (I)1 << 47};
        return mkInt(L(x) + linS(newSym(b, "ADDR" + std::to_string(x.obj))));
      }
      if (x.k == AV::PTR && x.obj == 0) return mkInt(L(x));
      return topOf(d);
    case Instruction::IntToPtr: {
      if (x.k == AV::INT) { Lin l = L(x); for (auto &p : l.t) if (syms[p.first].name == "address" && p.second == 1) for (auto &m : symKey) if (m.second == p.first && m.first.compare(0, 4, "ADDR") == 0) { Lin o = l; o.add(p.first, -1); return mkPtr(atoi(m.first.c_str() + 4), o); } }
      return mkPtr(-1, linC(0));
    }
    default: return topOf(d);
    }
  }
  if (auto *s = dyn_cast<SelectInst>(&i)) {
    int c = substC(asCond(val(s->getCondition(), st, fi), st), st);
    int d = decide(c, st);
    auto tkey = visit(&i, fr, st); follow(tkey, c, d, st);
    if (d == 1) return val(s->getTrueValue(), st, fi);
    if (d == -1) return val(s->getFalseValue(), st, fi);
    hint(c);
    State a = st, b = st; bool fa = assume(c, a), fb = assume(-c, b);
    AV x = val(s->getTrueValue(), st, fi), y = val(s->getFalseValue(), st, fi);
    if (!fa) return y; if (!fb) return x;
    tracePoint(tkey);
    AV j = joinAV(c, x, a, y, b, st); relate(j, x, a, y, b, st);
    return j;
  }
  if (auto *e = dyn_cast<ExtractValueInst>(&i)) {
    AV a = val(e->getAggregateOperand(), st, fi);
    for (unsigned k : e->indices()) { if (a.k != AV::AGG || k >= aggs[a.id].size()) return topOf(i.getType()); a = aggs[a.id][k]; }
    if (a.k == AV::UNDEF || a.k == AV::TOP) return topOf(i.getType());
    return a;
  }
  if (auto *e = dyn_cast<InsertValueInst>(&i)) {
    AV a = val(e->getAggregateOperand(), st, fi), v = val(e->getInsertedValueOperand(), st, fi);
    if (e->getNumIndices() != 1) return mkTop();
    unsigned n = e->getType()->isStructTy() ? e->getType()->getStructNumElements() : e->getType()->getArrayNumElements();
    std::vector<AV> x = a.k == AV::AGG ? aggs[a.id] : std::vector<AV>(n);
    x[e->getIndices()[0]] = v;
    AV r; r.k = AV::AGG; r.id = (int)aggs.size(); aggs.push_back(x); return r;
  }
  if (auto *lp = dyn_cast<LandingPadInst>(&i)) {
    I sel = 0;
    for (unsigned k = 0; k < lp->getNumClauses(); ++k) if (lp->isCatch(k) && catches(lp->getClause(k), st.exc)) { sel = typeId(lp->getClause(k)); break; }
    std::vector<AV> x{mkPtr(-1, linC(0)), mkInt(sel)};
    AV r; r.k = AV::AGG; r.id = (int)aggs.size(); aggs.push_back(x); return r;
  }
  if (isa<FreezeInst>(&i)) return val(i.getOperand(0), st, fi);
  if (i.getOpcode() == Instruction::FNeg) { FForm f = asF(val(i.getOperand(0), st, fi), st); if (f.cst) return mkFC(-f.k); FForm n = fmulc(f, -1.0, false, st); n.err = f.err; return mkF(n); }
  if (i.getType()->isVoidTy()) return AV();
  return topOf(i.getType());
}
