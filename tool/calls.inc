// ---- calls (included inside struct Interp) ----
std::vector<Out> one(State &st, AV r) { std::vector<Out> v(1); v[0].st = std::move(st); v[0].ret = r; return v; }
bool cstrOf(const AV &p, std::string &s, State &st) { // text of a constant string
  if (p.k != AV::PTR || p.obj <= 0) return false;
  auto it = cobjs.find(p.obj); if (it == cobjs.end()) return false;
  auto *c = (const Constant *)it->second->init; if (!c) return false;
  Lin off = L(p); if (!off.isConst()) return false;
  if (auto *z = dyn_cast<ConstantAggregateZero>(c)) { (void)z; s = ""; return true; }
  auto *d = dyn_cast<ConstantDataSequential>(c); if (!d || !d->isString()) return false;
  s = d->getAsString().str(); if (off.c0 < 0 || off.c0 > (I)s.size()) return false;
  s = s.substr((size_t)off.c0); auto z = s.find('\0'); if (z != std::string::npos) s.resize(z);
  return true;
}
std::vector<Out> callFn(Function *F, std::vector<AV> args, State st, const CallBase *cb) {
  if (++callDepth > 120) { callDepth = 0; throw Abort{"call depth"}; }
  FInfo &fi = info(F);
  if (fi.repo) repoFuncs.insert(fi.dem + "\t" + fi.file + ":" + std::to_string(fi.line));
  Frame fr; fr.F = F; fr.fi = &fi;
  std::vector<AV> saved = std::move(st.env);
  st.env.assign(fi.num.size(), AV());
  int d0 = st.depth;
  unsigned n = 0;
  for (auto &a : F->args()) {
    AV v = n < args.size() ? args[n] : AV();
    if (a.hasByValAttr() && v.k == AV::PTR) {
      I sz = (I)DL->getTypeAllocSize(a.getParamByValType());
      int id = newObj(st, Obj::ALLOCA, sz, "argument"); fr.objs.push_back(id);
      AV p = mkPtr(id, linC(0)); copyMem(p, v, sz, st); v = p;
    }
    st.env[fi.num[&a]] = v; ++n;
  }
  exec(fr, std::move(st), &F->getEntryBlock(), nullptr);
  --callDepth;
  std::vector<Out> res;
  for (auto &o : fr.outs) {
    if (o.st.depth > d0) { o.st.depth = d0; markPartial(o.st, "return"); }
    o.st.env.clear();
    bool merged = false;
    for (auto &r : res) if (r.thrown == o.thrown && r.ex == o.ex) {
      int c = condOpaque("exit of " + fi.dem.substr(0, 40));
      State A = std::move(r.st), B = std::move(o.st);
      State J = join(A, B, c);
      AV v = o.thrown ? AV() : joinAV(c, r.ret, A, o.ret, B, J);
      if (!o.thrown) relate(v, r.ret, A, o.ret, B, J);
      r.st = std::move(J); r.ret = v; merged = true; break;
    }
    if (!merged) res.push_back(std::move(o));
  }
  for (auto &r : res) { for (int id : fr.objs) r.st.mem.erase(id); r.st.env = saved; }
  return res;
}
std::vector<Out> terminateHere(const std::string &kind, const std::string &msg, State &st) {
  require(kind, msg, -1, st);
  return {};
}
// value of text starting at p as an integer token; sets n (characters consumed), v, e (range error 0/1)
bool tokenInt(const AV &p, State &st, Lin &n, Lin &v, Lin &e) {
  Obj *o = objOf(p.obj, st); Lin off = L(p);
  if (o->k == Obj::CSTR) {
    std::string nm = o->name + ".int@" + shortForm(off);
    int sn = input(nm + ".chars", 0, (I)1 << 20, true), sv = input(nm + ".value", bitsLo(64), bitsHi(64), true), se = input(nm + ".erange", 0, 1, true);
    n = linS(sn); v = subst(linS(sv), st); e = linS(se); cellLines(st);
    Lin f = off + n - o->len; if (!proveLE(f, st)) { if (rangeLin(f, st).lo > 0) throw Abort{"infeasible"}; st.facts.push_back(f); if (!tighten(f, st)) throw Abort{"infeasible"}; }
    tokens.push_back({0, off, n, v, e, Lin()});
    return true;
  }
  if (o->k == Obj::SCHEMA) {
    auto &segs = schemas[o->schema].segs; int sign = 0; Lin pos = off;
    for (size_t i = 0; i < segs.size(); ++i) {
      Lin rel = pos - segs[i].start;
      if (!(rel.isConst() && rel.c0 == 0)) continue;
      if (segs[i].kind == 0) {
        v = L(segs[i].val); if (sign < 0) v = scale(v, -1);
        n = segs[i].start + segs[i].len - off; e = linC(0); return true;
      }
      if (segs[i].kind == 2) { // digits of the integer part, then something else
        v = intOf(segs[i].val, 0, st); if (sign < 0) v = scale(v, -1);
        int s = opaque("intpart.len" + std::to_string(fresh++), 1, 1 << 20); n = segs[i].start + linS(s) - off; e = linC(0);
        Lin f = linS(s) - segs[i].len; st.facts.push_back(f); tighten(f, st);
        return true;
      }
      // separator character
      if (sign) { n = linC(0); v = linC(0); e = linC(0); return true; }
      Lin c = asInt(segs[i].val, 8, st);
      int ws = condOr(condEQ(c - linC(32)), condAnd(condLE(linC(9) - c), condLE(c - linC(13))));
      int d = decide(ws, st);
      if (d == 0) { hint(condLE(c - linC(8))); hint(condLE(c - linC(13))); hint(condLE(c - linC(31))); hint(condLE(c - linC(32))); return false; }
      if (d == 1) { pos = pos + linC(1); continue; }
      int pl = decide(condEQ(c - linC('+')), st), mi = decide(condEQ(c - linC('-')), st);
      if (!pl || !mi) { hint(condLE(c - linC('+' - 1))); hint(condLE(c - linC('+'))); hint(condLE(c - linC('-' - 1))); hint(condLE(c - linC('-'))); return false; }
      if (pl == 1 || mi == 1) { sign = pl == 1 ? 1 : -1; pos = pos + linC(1); continue; }
      n = linC(0); v = linC(0); e = linC(0); return true;
    }
    { Lin rel = pos - schemas[o->schema].len; if (rel.isConst() && rel.c0 == 0) { n = linC(0); v = linC(0); e = linC(0); return true; } }
    return false;
  }
  return false;
}
struct TokRec { int kind; Lin off, n, v, e, cls; };
std::vector<TokRec> tokens;
AV errnoPtr(State &st) {
  if (!errnoObj) errnoObj = nextObj++;
  if (!st.mem.count(errnoObj)) {
    auto o = std::make_shared<Obj>(); o->k = Obj::ERRNO; o->size = 4; o->name = "errno";
    int s = input("errno.before", 0, 133, true);
    o->cells[0] = {4, mkInt(linS(s))}; st.mem[errnoObj] = o;
  }
  return mkPtr(errnoObj, linC(0));
}
void setErrnoIf(const Lin &e, State &st) { // e in {0,1}
  AV p = errnoPtr(st);
  int c = condEQ(e - linC(1));
  int d = decide(c, st);
  if (d == -1) return;
  Obj *o = wobj(errnoObj, st);
  AV nv = mkInt((I)34);
  if (d == 0) { AV old = o->cells[0].v; State A = st, B = st; assume(c, A); assume(-c, B); nv = joinAV(c, nv, A, old, B, st); o = wobj(errnoObj, st); }
  o->cells[0] = {4, nv};
}
int isAlphaCond(const Lin &c) { return condOr(condAnd(condLE(linC('A') - c), condLE(c - linC('Z'))), condAnd(condLE(linC('a') - c), condLE(c - linC('z')))); }
int isDigitCond(const Lin &c) { return condAnd(condLE(linC('0') - c), condLE(c - linC('9'))); }
int isSpaceCond(const Lin &c) { return condOr(condEQ(c - linC(32)), condAnd(condLE(linC(9) - c), condLE(c - linC(13)))); }
Lin lower(const Lin &c, State &st, bool up) {
  I A = up ? 'a' : 'A', Z = up ? 'z' : 'Z', d = up ? -32 : 32;
  Rng r = rangeLin(c, st);
  if (r.lo >= A && r.hi <= Z) return c + linC(d);
  if (r.hi < A || r.lo > Z) return c;
  Sym s; s.k = S_LOW; s.a = c; s.c = up; std::string k = up ? "UP" : "LO"; putLin(k, c);
  hint(condLE(c - linC(A - 1))); hint(condLE(c - linC(Z)));
  return linS(newSym(s, k));
}
Lin strLen(const AV &p, State &st) {
  std::string s;
  if (cstrOf(p, s, st)) return linC((I)s.size());
  if (p.k == AV::PTR && p.obj > 0) {
    Obj *o = objOf(p.obj, st);
    if (o && (o->k == Obj::CSTR || o->k == Obj::SCHEMA)) { boundsOk(p, 1, st, "read"); return o->len - L(p); }
    Lin off = L(p);
    if (o && off.isConst() && o->size - off.c0 <= 4096) {
      std::vector<int> zs; I i = off.c0; bool closed = false;
      Type *i8 = Type::getInt8Ty(M->getContext());
      for (; i < o->size; ++i) {
        AV c = load(mkPtr(p.obj, linC(i)), i8, st);
        int z = condEQ(asInt(c, 8, st)); int d = decide(z, st);
        if (d == -1) { zs.push_back(-1); continue; }
        if (d == 1) { closed = true; break; }
        zs.push_back(z); hint(z);
      }
      if (!closed) { // may run off the end
        int any = -1; for (int z : zs) any = condOr(any, z);
        require("OOB", "string without terminator read to the end of " + o->name, any, st);
      }
      Lin r = linC(i - off.c0);
      for (int k = (int)zs.size() - 1; k >= 0; --k) if (zs[k] != -1) { r = joinGate(zs[k] > 0 ? zs[k] : -zs[k], (zs[k] > 0 ? linC(k) - r : r - linC(k)), zs[k] > 0 ? linC(k) : r, zs[k] > 0 ? r : linC(k)); }
      return r;
    }
  }
  return linS(opaque("strlen" + std::to_string(fresh++), 0, (I)1 << 30));
}
AV charOf(const AV &p, const Lin &i, State &st) { return load(mkPtr(p.obj, L(p) + i), Type::getInt8Ty(M->getContext()), st); }
// comparison of two texts, optionally ignoring case, at most nmax characters; returns condition "equal" or 0 if unknown
bool textEqual(const AV &a, const AV &b, I nmax, bool icase, bool stopAtNul, State &st, int &res) {
  int eq = 1; int alive = 1; (void)alive;
  State s = st;
  for (I i = 0; i < nmax; ++i) {
    if (i > 64) return false;
    AV x = charOf(a, linC(i), s), y = charOf(b, linC(i), s);
    if (x.k != AV::INT || y.k != AV::INT) return false;
    Lin cx = L(x), cy = L(y);
    int zx = condEQ(cx), zy = condEQ(cy);
    Lin lx = icase ? lower(cx, s, false) : cx, ly = icase ? lower(cy, s, false) : cy;
    int e = condEQ(lx - ly); int d = decide(e, s);
    if (stopAtNul) {
      int dx = decide(zx, s), dy = decide(zy, s);
      if (dx == 1 && dy == 1) break;
      if ((dx == 1 && dy == -1) || (dx == -1 && dy == 1)) { eq = -1; break; }
    }
    if (d == -1) { eq = -1; break; }
    if (d == 0) { hint(e); eq = condAnd(eq, e); if (!assume(e, s)) { eq = -1; break; } }
    if (stopAtNul) { int dx = decide(zx, s); if (dx == 1) break; if (dx == 0) { hint(zx); eq = condAnd(eq, eq); if (decide(zy, s) == 0) return false; if (decide(zy, s) == 1) break; } }
  }
  res = eq; return true;
}

std::vector<Out> doCall(Frame &fr, const CallBase &cb, State st) {
  Function *F = cb.getCalledFunction();
  if (!F) F = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCastsAndAliases()); // constructor aliases
  std::vector<AV> a;
  for (auto &u : cb.args()) {
    if (u->getType()->isMetadataTy()) return one(st, AV());
    a.push_back(val(u.get(), st, *fr.fi));
  }
  Type *rt = cb.getType();
  if (!F) {
    // call through a pointer: not used by the analysed code
    ++unmodelled["<indirect call>"];
    for (auto &v : a) havoc(v, st);
    return one(st, rt->isVoidTy() ? AV() : topOf(rt));
  }
  const std::string nm = F->getName().str();
  if (nm.compare(0, 5, "llvm.") == 0) return intrinsic(nm, cb, a, st);
  if (nm.compare(0, 2, "V_") == 0) return harness(nm, cb, a, st);
  // ---- runtime
  if (nm == "__clang_call_terminate" || nm == "_ZSt9terminatev") return terminateHere("TERM", "exception reaches a non-throwing boundary: program terminates", st);
  if (nm == "abort" || nm == "_exit" || nm == "exit") return terminateHere("TERM", nm + "() called", st);
  if (nm == "__assert_fail") { std::string m; cstrOf(a[0], m, st); return terminateHere("ASSERT", "assertion fails: " + m, st); }
  if (nm == "__cxa_allocate_exception") { I sz = a[0].k == AV::INT && L(a[0]).isConst() ? L(a[0]).c0 : 64; return one(st, mkPtr(newObj(st, Obj::HEAP, sz, "exception object"), linC(0))); }
  if (nm == "__cxa_free_exception" || nm == "__cxa_end_catch") { if (nm == "__cxa_end_catch" && !st.caught.empty()) st.caught.pop_back(); return one(st, AV()); }
  if (nm == "__cxa_begin_catch") { st.caught.push_back(st.exc); return one(st, mkPtr(-1, linC(0))); }
  if (nm == "__cxa_throw") {
    lastThrow = mkFinding("CHECK", "an exception (" + cb.getArgOperand(1)->stripPointerCasts()->getName().str() + ") leaves an operation whose arguments are valid");
    Out o; o.thrown = true; o.ex = cb.getArgOperand(1)->stripPointerCasts()->getName().str(); o.st = std::move(st);
    std::vector<Out> v; v.push_back(std::move(o)); return v;
  }
  if (nm == "__cxa_rethrow") { Out o; o.thrown = true; o.ex = st.caught.empty() ? "" : st.caught.back(); o.st = std::move(st); std::vector<Out> v; v.push_back(std::move(o)); return v; }
  if (nm == "__cxa_guard_acquire") return one(st, mkInt((I)1));
  if (nm == "__cxa_guard_release" || nm == "__cxa_guard_abort" || nm == "__cxa_atexit") return one(st, rt->isVoidTy() ? AV() : topOf(rt));
  if (nm == "__errno_location") return one(st, errnoPtr(st));
  // ---- libc
  if (nm == "sprintf" || nm == "snprintf") { AV r = printTo(nm, a, st); return one(st, r); }
  if (nm == "strlen" && bufText(a[0], st)) { Lin n; std::vector<Tok> t = bufText(a[0], st)->t; if (textLen(t, n, st)) return one(st, mkInt(n)); return one(st, topOf(rt)); }
  if (nm == "strlen") return one(st, mkInt(strLen(a[0], st)));
  if (nm == "abs" || nm == "labs" || nm == "llabs") return one(st, absOf(a[0], rt->getIntegerBitWidth(), true, st));
  if (nm == "tolower" || nm == "toupper" || nm == "isalpha" || nm == "isdigit" || nm == "isspace" || nm == "isupper" || nm == "islower" || nm == "isalnum" || nm == "ispunct" || nm == "isprint" || nm == "isxdigit") {
    Lin c = asInt(a[0], 32, st);
    require("CTYPE", nm + "() argument outside unsigned char and EOF", condAnd(condLE(linC(-1) - c), condLE(c - linC(255))), st);
    if (nm == "tolower" || nm == "toupper") { return one(st, mkInt(lower(c, st, nm == "toupper"))); }
    int k = 0;
    { Lin ch; if (ucharView(c, &ch)) c = ch; } // the classes of the C locale lie within 0..127
    if (nm == "isalpha") k = isAlphaCond(c); else if (nm == "isdigit") k = isDigitCond(c); else if (nm == "isspace") k = isSpaceCond(c);
    else if (nm == "isupper") k = condAnd(condLE(linC('A') - c), condLE(c - linC('Z'))); else if (nm == "islower") k = condAnd(condLE(linC('a') - c), condLE(c - linC('z')));
    else if (nm == "isalnum") k = condOr(isAlphaCond(c), isDigitCond(c));
    if (!k) { return one(st, topOf(rt)); }
    int d = decide(k, st); if (d) return one(st, mkInt((I)(d == 1 ? 1 : 0)));
    return one(st, mkInt(indLin(k)));
  }
  if (nm == "strtol" || nm == "strtoll" || nm == "__isoc23_strtol" || nm == "__isoc23_strtoll" || nm == "atoi" || nm == "atol") {
    bool plain = nm[0] == 'a';
    if (a[0].k == AV::PTR && a[0].obj == 0) { require("OOB", "null text passed to " + nm, -1, st); return one(st, topOf(rt)); }
    bool base10 = plain || (a[2].k == AV::INT && L(a[2]).isConst() && L(a[2]).c0 == 10);
    Obj *o = a[0].k == AV::PTR && a[0].obj > 0 ? objOf(a[0].obj, st) : nullptr;
    Type *pt = PointerType::getUnqual(M->getContext());
    if (o && (o->k == Obj::CSTR || o->k == Obj::SCHEMA)) {
      bool ok = boundsOk(a[0], 1, st, "read");
      Lin n, v, e;
      if (ok && base10 && tokenInt(a[0], st, n, v, e)) {
        if (!plain && !(a[1].k == AV::PTR && a[1].obj == 0)) store(a[1], mkPtr(a[0].obj, L(a[0]) + n), pt, st);
        setErrnoIf(e, st);
        if (plain && rt->isIntegerTy(32)) return one(st, wrap(v, 32, st));
        return one(st, mkInt(v));
      }
      // unknown result within the text
      int s = opaque("chars" + std::to_string(fresh++), 0, 1 << 20);
      Lin f = L(a[0]) + linS(s) - objOf(a[0].obj, st)->len; st.facts.push_back(f); tighten(f, st);
      if (!plain && !(a[1].k == AV::PTR && a[1].obj == 0)) store(a[1], mkPtr(a[0].obj, L(a[0]) + linS(s)), pt, st);
      setErrnoIf(linS(opaque("erange" + std::to_string(fresh++), 0, 1)), st);
      return one(st, topOf(rt));
    }
    if (!plain && a[1].k == AV::PTR && a[1].obj > 0) store(a[1], mkPtr(-1, linC(0)), pt, st);
    setErrnoIf(linS(opaque("erange" + std::to_string(fresh++), 0, 1)), st);
    return one(st, topOf(rt));
  }
  if (nm == "strtod" || nm == "atof" || nm == "strtold") {
    bool plain = nm == "atof";
    Obj *o = a[0].k == AV::PTR && a[0].obj > 0 ? objOf(a[0].obj, st) : nullptr;
    Type *pt = PointerType::getUnqual(M->getContext());
    AV r = mkFTop(); Lin n; bool haveN = false; Lin e = linS(opaque("erange" + std::to_string(fresh++), 0, 1));
    if (o && (o->k == Obj::CSTR || o->k == Obj::SCHEMA)) {
      boundsOk(a[0], 1, st, "read"); Lin off = L(a[0]); o = objOf(a[0].obj, st);
      if (o->k == Obj::CSTR) {
        std::string q = o->name + ".real@" + shortForm(off);
        int sn = input(q + ".chars", 0, (I)1 << 20, true), sk = input(q + ".class", 0, 3, true), se = input(q + ".erange", 0, 1, true);
        int sv = rinput(q + ".value", -1.7976931348623157e308L, 1.7976931348623157e308L, true);
        n = linS(sn); haveN = true; e = linS(se); cellLines(st);
        FForm fin; fin.cst = false; fin.t.push_back({sv, 1}); AV fa = mkF(fin);
        FForm f; f.cst = false; f.top = true; f.kind = sk; f.fin = fa.id;
        if (rangeSym(sk, st).lo == 0 && rangeSym(sk, st).hi == 0) r = fa; else r = mkF(f);
        Lin g = off + n - o->len; if (rangeLin(g, st).lo > 0) throw Abort{"infeasible"}; st.facts.push_back(g); if (!tighten(g, st)) throw Abort{"infeasible"};
        tokens.push_back({1, off, n, linS(sv), e, linS(sk)});
      } else {
        bool found = false; int sign = 0; Lin pos = off; bool unknown = false, none = false;
        for (auto &sg : schemas[o->schema].segs) {
          Lin rel = pos - sg.start; if (!(rel.isConst() && rel.c0 == 0)) continue;
          if (sg.kind == 1) {
            if (sign) { none = true; break; }
            Lin c = asInt(sg.val, 8, st); int d = decide(isSpaceCond(c), st), pl = decide(condEQ(c - linC('+')), st), mi = decide(condEQ(c - linC('-')), st);
            if (d == 1) { pos = pos + linC(1); continue; }
            if (d == 0 || !pl || !mi) { hint(condLE(c - linC(8))); hint(condLE(c - linC(13))); hint(condLE(c - linC(31))); hint(condLE(c - linC(32))); hint(condLE(c - linC('+' - 1))); hint(condLE(c - linC('+'))); hint(condLE(c - linC('-' - 1))); hint(condLE(c - linC('-'))); unknown = true; break; }
            if (pl == 1 || mi == 1) { sign = pl == 1 ? 1 : -1; pos = pos + linC(1); continue; }
            none = true; break; // '.' or letters cannot start a number followed by our segments: harness separators exclude them
          }
          found = true;
          if (sg.kind == 2) { r = sg.val; n = sg.start + sg.len - off; }
          else { r = mkF(fromLin(L(sg.val), st)); n = sg.start + sg.len - off; /* followed by a separator that cannot continue the number */ }
          if (sign < 0) r = mkF(fmulc(ffs[r.id], -1.0, false, st));
          haveN = true; e = linC(0); break;
        }
        if (!found && !unknown) { n = linC(0); haveN = true; e = linC(0); r = mkFC(0.0); (void)none; }
      }
      if (!plain && !(a[1].k == AV::PTR && a[1].obj == 0)) {
        if (!haveN) { int s = opaque("chars" + std::to_string(fresh++), 0, 1 << 20); n = linS(s); Lin f = L(a[0]) + n - objOf(a[0].obj, st)->len; st.facts.push_back(f); tighten(f, st); }
        store(a[1], mkPtr(a[0].obj, L(a[0]) + n), pt, st);
      }
    } else if (!plain && a[1].k == AV::PTR && a[1].obj > 0) store(a[1], mkPtr(-1, linC(0)), pt, st);
    setErrnoIf(e, st);
    return one(st, r);
  }
  if (a.size() == 2 && (nm.compare(0, 9, "_ZSt3maxI") == 0 || nm.compare(0, 9, "_ZSt3minI") == 0) && strchr("ilmjstax", nm[9]) && nm[10] == 'E') { // std::max / std::min of integers
    unsigned w = strchr("ij", nm[9]) ? 32 : strchr("lmx", nm[9]) ? 64 : strchr("st", nm[9]) ? 16 : 8; bool un = strchr("mjt", nm[9]) != nullptr;
    Type *t = IntegerType::get(M->getContext(), w);
    Lin x = asInt(load(a[0], t, st), w, st), y = asInt(load(a[1], t, st), w, st), ux = x, uy = y; if (un) { ux = asUnsigned(x, w, st); uy = asUnsigned(y, w, st); }
    int c = nm[5] == 'm' && nm[6] == 'a' ? condLE(uy - ux) : condLE(ux - uy); int d = decide(c, st); // first argument wins ties
    if (d) return one(st, d == 1 ? a[0] : a[1]);
    hint(c); State A = st, B = st; bool fa = assume(c, A), fb = assume(-c, B);
    if (!fa || !fb) return one(st, fa ? a[0] : a[1]);
    AV j = joinLin(c, x, A, y, B, st); AV o = mkPtr(newObj(st, Obj::HEAP, w / 8, "max/min"), linC(0)); store(o, j, t, st);
    return one(st, o);
  }
  if (nm == "strncpy") {
    Lin l = asInt(a[2], 64, st); Rng r = rangeLin(l, st);
    if (r.isConst() && r.lo <= 64 && a[0].k == AV::PTR && a[1].k == AV::PTR) {
      Type *i8 = Type::getInt8Ty(M->getContext());
      int ended = -1; std::vector<AV> cs; // condition: the terminator was met before
      for (I i = 0; i < r.lo; ++i) {
        AV p = mkPtr(a[1].obj, L(a[1]) + linC(i)), c;
        if (decide(ended, st) == 1) { cs.push_back(mkInt((I)0)); continue; }
        Obj *so = a[1].obj > 0 ? objOf(a[1].obj, st) : nullptr;
        if (so && (so->k == Obj::CSTR || so->k == Obj::SCHEMA)) { // ended before i: the terminator lies below off + i
          if (i == 0) { if (!boundsOk(p, 1, st, "read")) { cs.push_back(mkTop()); continue; } so = objOf(a[1].obj, st); }
          else { ended = condLE(so->len - L(p) + linC(1)); hint(ended); require("OOB", "read outside " + so->name + " (past its terminator)", condOr(ended, condLE(L(p) - so->len)), st); so = objOf(a[1].obj, st); }
          int d = decide(ended, st);
          if (d == 1) { cs.push_back(mkInt((I)0)); continue; }
          c = charAt(a[1].obj, so, L(p), st);
          if (d == 0 && c.k == AV::INT) { Lin v = L(c); int g = ended > 0 ? ended : -ended; Lin x = ended > 0 ? linC(0) : v, y = ended > 0 ? v : linC(0); c = mkInt(joinGate(g, x - y, x, y)); }
          cs.push_back(c); continue;
        }
        if (ended == -1) { c = load(p, i8, st); if (c.k == AV::INT) { int z = condEQ(L(c)); int d = decide(z, st); ended = d == 1 ? 1 : d == -1 ? -1 : z; if (!d) hint(z); } else ended = condOpaque("end"); cs.push_back(c); continue; }
        if (so) require("OOB", "read outside " + so->name, condOr(ended, condAnd(condLE(scale(L(p), -1)), condLE(L(p) - linC(so->size - 1)))), st);
        cs.push_back(mkTop()); ended = condOpaque("end");
      }
      for (I i = 0; i < r.lo; ++i) store(mkPtr(a[0].obj, L(a[0]) + linC(i)), cs[(size_t)i], i8, st);
      return one(st, a[0]);
    }
  }
  if (nm == "memcpy" || nm == "memmove") { Lin n = asInt(a[2], 64, st); memCopy(a[0], a[1], n, st); return one(st, a[0]); }
  if (nm == "strcasecmp" || nm == "strncasecmp" || nm == "strcmp" || nm == "strncmp" || nm == "memcmp") {
    bool hasN = nm != "strcasecmp" && nm != "strcmp"; I n = 1000000;
    if (hasN) { Lin l = asInt(a[2], 64, st); Rng r = rangeLin(l, st); if (!r.isConst()) { hint(condLE(l - linC(fdiv(std::max(r.lo, (I)0) + std::min(r.hi, (I)64), 2)))); return one(st, topOf(rt)); } n = r.lo; }
    int eq; if (a[0].k == AV::PTR && a[1].k == AV::PTR && a[0].obj > 0 && a[1].obj > 0 && textEqual(a[0], a[1], n, nm.find("case") != std::string::npos, nm[0] == 's', st, eq)) {
      if (eq == 1) return one(st, mkInt((I)0));
      Lin ne = indLin(-eq); // nonzero iff different (sign not modelled: use only as zero test)
      if (eq == -1) { int s = opaque("cmp" + std::to_string(fresh++), 1, 255); return one(st, mkInt(linS(s))); }
      return one(st, mkInt(ne));
    }
    return one(st, topOf(rt));
  }
  if (nm == "floor" || nm == "ceil" || nm == "trunc" || nm == "round" || nm == "rint" || nm == "nearbyint") return one(st, roundF(nm, a[0], st));
  if (nm == "lround" || nm == "llround" || nm == "lrint" || nm == "llrint") {
    FForm f = asF(a[0], st);
    if (f.top) { require("FPCAST", "rounding an unbounded real number", condOpaque("fits"), st); return one(st, topOf(rt)); }
    Lin v = intOf(mkF(f), 3, st);
    require("FPCAST", "real number does not fit the integer type", condAnd(condLE(v - linC(bitsHi(64))), condLE(linC(bitsLo(64)) - v)), st);
    return one(st, mkInt(v));
  }
  if (nm == "modf") {
    FForm f = asF(a[0], st);
    if (!f.top) {
      Lin w = intOf(mkF(f), 0, st); FForm wi = fromLin(w, st);
      if (f.cst) { double ip, fp = std::modf(f.k, &ip); store(a[1], mkFC(ip), Type::getDoubleTy(M->getContext()), st); return one(st, mkFC(fp)); }
      store(a[1], mkF(wi), Type::getDoubleTy(M->getContext()), st);
      FForm d = lift(f); FForm y = lift(wi); d.c0 -= y.c0; for (auto &q : y.t) addTerm(d, q.first, -q.second, st);
      return one(st, mkF(d));
    }
    store(a[1], mkFTop(), Type::getDoubleTy(M->getContext()), st); return one(st, mkFTop());
  }
  if (nm == "fabs") { FForm f = asF(a[0], st); return one(st, fabsF(f, st)); }
  // ---- C++ library
  std::vector<Out> r;
  if (modelStd(F, nm, cb, a, st, r)) return r;
  if (!F->isDeclaration()) return callFn(F, a, std::move(st), &cb);
  ++unmodelled[dem(F)];
  for (auto &v : a) havoc(v, st);
  return one(st, rt->isVoidTy() ? AV() : topOf(rt));
}
void havoc(const AV &p, State &st) {
  if (p.k != AV::PTR || p.obj <= 0) return;
  auto m = st.mem.find(p.obj); if (m == st.mem.end() || m->second->k == Obj::CSTR || m->second->k == Obj::SCHEMA) return;
  Obj *o = wobj(p.obj, st); for (auto &c : o->cells) c.second.v = mkTop(); o->strs.clear(); o->init = nullptr;
}
void memCopy(const AV &d, const AV &s, const Lin &n, State &st) {
  Rng r = rangeLin(n, st);
  if (r.isConst()) { copyMem(d, s, r.lo, st); return; }
  // symbolic length: bounds obligations for the largest, contents forgotten
  hint(condLE(n - linC(fdiv(std::max(r.lo, (I)0) + std::min(r.hi, (I)4096), 2))));
  for (int k = 0; k < 2; ++k) {
    const AV &p = k ? d : s; if (p.k != AV::PTR || p.obj <= 0) continue; Obj *o = objOf(p.obj, st); if (!o) continue;
    Lin end = L(p) + n; Lin lim = (o->k == Obj::CSTR || o->k == Obj::SCHEMA) ? o->len + linC(1) : linC(o->size);
    require("OOB", std::string(k ? "write" : "read") + " outside " + o->name, condAnd(condLE(scale(L(p), -1)), condLE(end - lim)), st);
  }
  havoc(d, st);
}
AV absOf(const AV &v, unsigned w, bool poisonMin, State &st) {
  Lin x = asInt(v, w, st);
  if (poisonMin) require("OVF", "absolute value of the most negative integer", -condEQ(x - linC(bitsLo(w))), st);
  int c = condLE(scale(x, -1)); int d = decide(c, st);
  if (d == 1) return mkInt(x); if (d == -1) return mkInt(scale(x, -1));
  hint(c);
  Lin v2 = joinGate(c > 0 ? c : -c, c > 0 ? scale(x, 2) : scale(x, -2), c > 0 ? x : scale(x, -1), c > 0 ? scale(x, -1) : x);
  if (v2.t.size() == 1 && syms[v2.t[0].first].k == S_ITE) { Rng r = rangeLin(x, st); I m = std::max(r.hi, r.lo <= -INF ? INF : -r.lo); int id = v2.t[0].first; st.bnd[id] = {0, m}; st.cache.clear(); }
  return mkInt(v2);
}
AV fabsF(const FForm &f, State &st) {
  if (f.top && f.kind >= 0) { FForm g = f; g.mag = true; return mkF(g); }
  if (f.top) return mkFTop();
  if (f.cst) return mkFC(std::fabs(f.k));
  auto r = rangeFF(f, st, 0);
  if (r.first >= 0) return mkF(f);
  if (r.second <= 0) { FForm n = fmulc(f, -1.0, false, st); n.err = f.err; return mkF(n); }
  Sym s; s.k = S_ROP; s.name = "|real|"; s.rlo = 0; s.rhi = std::max(fabsl(r.first), fabsl(r.second));
  FForm g; g.cst = false; int id = internF(f); std::string k = "ABS"; put(k, id); g.t.push_back({newSym(s, k), 1}); return mkF(g);
}
AV roundF(const std::string &nm, const AV &v, State &st) {
  FForm f = asF(v, st);
  if (f.top) return mkFTop();
  int mode = nm == "trunc" ? 0 : nm == "floor" ? 1 : nm == "ceil" ? 2 : 3;
  if (f.cst) return mkFC(mode == 0 ? std::trunc(f.k) : mode == 1 ? std::floor(f.k) : mode == 2 ? std::ceil(f.k) : nm == "round" ? std::round(f.k) : std::nearbyint(f.k));
  return mkF(fromLin(intOf(mkF(f), mode, st), st));
}
std::vector<Out> intrinsic(const std::string &nm, const CallBase &cb, std::vector<AV> &a, State &st) {
  Type *rt = cb.getType();
  auto is = [&](const char *p) { return nm.compare(0, strlen(p), p) == 0; };
  if (is("llvm.dbg") || is("llvm.lifetime") || is("llvm.assume") || is("llvm.stack") || is("llvm.donothing") || is("llvm.experimental.noalias")) return one(st, rt->isVoidTy() ? AV() : topOf(rt));
  if (is("llvm.memcpy") || is("llvm.memmove")) { memCopy(a[0], a[1], asInt(a[2], 64, st), st); return one(st, AV()); }
  if (is("llvm.memset")) {
    Lin n = asInt(a[2], 64, st); Rng r = rangeLin(n, st);
    if (a[0].k == AV::PTR && a[0].obj > 0) {
      if (r.isConst()) {
        boundsOk(a[0], r.lo, st, "write"); Obj *o = wobj(a[0].obj, st);
        Lin off = L(a[0]); bool z = a[1].k == AV::INT && L(a[1]).isConst() && L(a[1]).c0 == 0;
        if (o && off.isConst()) { clobber(o, off.c0, r.lo); if (z && off.c0 == 0 && r.lo >= o->size) { o->zero = true; o->init = nullptr; } else if (z && r.lo <= 64) for (I i = 0; i < r.lo; ++i) o->cells[off.c0 + i] = {1, mkInt((I)0)}; else if (r.lo <= 256) { AV b = a[1]; for (I i = 0; i < r.lo; ++i) o->cells[off.c0 + i] = {1, b}; } }
      } else havoc(a[0], st);
    }
    return one(st, AV());
  }
  if (is("llvm.eh.typeid.for")) return one(st, mkInt(typeId(cb.getArgOperand(0))));
  if (is("llvm.abs")) { bool poison = true; if (auto *c = dyn_cast<ConstantInt>(cb.getArgOperand(1))) poison = c->isOne(); return one(st, absOf(a[0], rt->getIntegerBitWidth(), poison, st)); }
  if (is("llvm.smax") || is("llvm.smin") || is("llvm.umax") || is("llvm.umin")) {
    unsigned w = rt->getIntegerBitWidth(); Lin x = asInt(a[0], w, st), y = asInt(a[1], w, st);
    bool mx = nm[6] == 'a' || nm.find("max") != std::string::npos;
    Lin ux = x, uy = y; if (nm[5] == 'u') { ux = asUnsigned(x, w, st); uy = asUnsigned(y, w, st); }
    int c = mx ? condLE(uy - ux) : condLE(ux - uy); int d = decide(c, st);
    if (d == 1) return one(st, mkInt(x)); if (d == -1) return one(st, mkInt(y));
    hint(c); State A = st, B = st; assume(c, A); assume(-c, B);
    AV j = joinLin(c, x, A, y, B, st); return one(st, j);
  }
  if (is("llvm.fabs")) return one(st, fabsF(asF(a[0], st), st));
  if (is("llvm.floor") || is("llvm.ceil") || is("llvm.trunc.f") || is("llvm.round.f") || is("llvm.rint") || is("llvm.nearbyint")) {
    std::string s = nm.substr(5); s = s.substr(0, s.find('.')); return one(st, roundF(s, a[0], st));
  }
  if (is("llvm.fmuladd") || is("llvm.fma")) {
    FForm x = asF(a[0], st), y = asF(a[1], st), z = asF(a[2], st);
    AV m = y.cst ? mkF(fmulc(x, y.k, false, st)) : x.cst ? mkF(fmulc(y, x.k, false, st)) : fop2("*", a[0].id, a[1].id, x, y, st);
    FForm s = fadd(asF(m, st), z, 1, st);
    return one(st, mkF(rt->isFloatTy() ? toFloat(s, st) : s));
  }
  if (is("llvm.is.fpclass")) {
    FForm f = asF(a[0], st); int mask = (int)cast<ConstantInt>(cb.getArgOperand(1))->getZExtValue();
    const int NANM = 3, NINF = 4, PINF = 512, FIN = 504;
    if (f.cst) { int cl = std::isnan(f.k) ? NANM : std::isinf(f.k) ? (f.k > 0 ? PINF : NINF) : 0; if (cl) return one(st, mkBool((mask & cl) ? 1 : -1)); if ((mask & FIN) == FIN) return one(st, mkBool(1)); if (!(mask & FIN)) return one(st, mkBool(-1)); return one(st, mkBool(condOpaque("class"))); }
    if (!f.top) { if ((mask & FIN) == FIN) return one(st, mkBool(1)); if (!(mask & FIN)) return one(st, mkBool(-1)); return one(st, mkBool(condOpaque("class"))); }
    if (f.kind >= 0 && ((mask & FIN) == FIN || !(mask & FIN))) {
      int c = -1;
      if (mask & FIN) c = condOr(c, condEQ(linS(f.kind)));
      if (mask & PINF) c = condOr(c, condEQ(linS(f.kind) - linC(1)));
      if (mask & NINF) c = condOr(c, condEQ(linS(f.kind) - linC(2)));
      if (mask & NANM) c = condOr(c, condEQ(linS(f.kind) - linC(3)));
      return one(st, mkBool(c));
    }
    return one(st, mkBool(condOpaque("real class")));
  }
  if (is("llvm.sadd.with.overflow") || is("llvm.ssub.with.overflow") || is("llvm.smul.with.overflow")) {
    unsigned w = cb.getArgOperand(0)->getType()->getIntegerBitWidth(); Lin x = asInt(a[0], w, st), y = asInt(a[1], w, st);
    Lin r = nm[6] == 'a' ? x + y : nm[6] == 's' ? x - y : mul(x, y, st);
    int c = condAnd(condLE(r - linC(bitsHi(w))), condLE(linC(bitsLo(w)) - r));
    std::vector<AV> v{wrap(r, w, st), mkBool(-c)}; AV g; g.k = AV::AGG; g.id = (int)aggs.size(); aggs.push_back(v); return one(st, g);
  }
  if (is("llvm.trap")) return terminateHere("TERM", "trap", st);
  ++unmodelled[nm];
  return one(st, rt->isVoidTy() ? AV() : topOf(rt));
}
std::string constText(const AV &p, State &st) { std::string s; return cstrOf(p, s, st) ? s : "?"; }
I constInt(const AV &v, State &st) { Lin l = asInt(v, 64, st); Rng r = rangeLin(l, st); if (!r.isConst()) throw Abort{"harness: constant expected"}; return r.lo; }
std::vector<Out> harness(const std::string &nm, const CallBase &cb, std::vector<AV> &a, State &st) {
  if (nm == "V_in") { AV r = mkInt(linS(input(constText(a[0], st), constInt(a[1], st), constInt(a[2], st)))); cellLines(st); return one(st, r); }
  if (nm == "V_real") {
    FForm f; f.cst = false; int s = rinput(constText(a[0], st), asF(a[1], st).k, asF(a[2], st).k); f.t.push_back({s, 1});
    if (syms[s].rlo == syms[s].rhi) return one(st, mkFC((double)syms[s].rlo));
    return one(st, mkF(f));
  }
  if (nm == "V_assume" || nm == "V_given") { // V_given: the same, without suggesting to split there
    int c = substC(asCond(a[0], st), st); int d = decide(c, st);
    if (d == 0 && nm == "V_assume") { d = casesG(c, st, 6, nullptr) == 1 ? 1 : casesG(-c, st, 6, nullptr) == 1 ? -1 : 0; }
    if (d == 1) return one(st, AV());
    if (d == -1) { assumedAway = true; return {}; }
    if (nm == "V_assume") hint(c);
    if (!assume(c, st)) { assumedAway = true; return {}; }
    if (c > 0 && conds[c].k == C_EQ) rewriteToken(conds[c].l, st);
    markPartial(st, "assume"); return one(st, AV());
  }
  if (nm == "V_check") { int c = substC(asCond(a[0], st), st); require("CHECK", constText(a[1], st), c, st); return one(st, AV()); }
  if (nm == "V_close") {
    FForm x = asF(a[0], st), y = asF(a[1], st); double tol = asF(a[2], st).k;
    std::string msg = constText(a[3], st);
    int c;
    if (x.top || y.top) c = condOpaque("close");
    else {
      x = lift(x); y = lift(y);
      FForm d = x; d.c0 -= y.c0; d.err += y.err; for (auto &q : y.t) addTerm(d, q.first, -q.second, st);
      auto r = rangeFF(d, st, 0);
      if (r.first >= -tol && r.second <= tol) c = 1;
      else if (r.first > tol || r.second < -tol) c = -1;
      else {
        FForm u = d; u.c0 -= tol; FForm v = d; v.c0 = -v.c0 - tol; for (auto &q : v.t) q.second = -q.second;
        auto mk = [&](const FForm &g) { int id = internF(g); std::string key = "Fe"; put(key, id); Cond k; k.k = C_FLE; k.fp = id; return newCond(k, key); };
        c = condAnd(mk(u), mk(v));
      }
    }
    require("CHECK", msg, c, st); return one(st, AV());
  }
  if (nm == "V_text") {
    std::string n = constText(a[0], st); I mx = constInt(a[1], st);
    int id = newObj(st, Obj::CSTR, 0, n); int ls = input(n + ".length", 0, mx); st.mem[id]->len = linS(ls);
    textObjs.push_back(id); cobjs[id] = st.mem[id]; st.mem.erase(id);
    return one(st, mkPtr(id, linC(0)));
  }
  if (nm == "V_textlen") { Obj *o = objOf(a[0].obj, st); return one(st, mkInt(o->len)); }
  if (nm == "V_schema") { Schema s; s.name = constText(a[0], st); schemas.push_back(s); return one(st, mkInt((I)schemas.size() - 1)); }
  if (nm == "V_seg_int" || nm == "V_seg_real") {
    Schema &s = schemas[(size_t)constInt(a[0], st)]; Seg g; g.kind = nm == "V_seg_int" ? 0 : 2; g.start = s.len; g.len = asInt(a[1], 64, st); g.val = a[2]; s.len = s.len + g.len; s.segs.push_back(g); return one(st, AV());
  }
  if (nm == "V_seg_chr") { Schema &s = schemas[(size_t)constInt(a[0], st)]; Seg g; g.kind = 1; g.start = s.len; g.len = linC(1); g.val = a[1].k == AV::INT ? wrap(L(a[1]), 8, st) : a[1]; s.len = s.len + linC(1); s.segs.push_back(g); return one(st, AV()); }
  if (nm == "V_schema_text") {
    int k = (int)constInt(a[0], st); int id = newObj(st, Obj::SCHEMA, 0, schemas[k].name); auto o = st.mem[id]; o->schema = k; o->len = schemas[k].len; cobjs[id] = o; st.mem.erase(id);
    return one(st, mkPtr(id, linC(0)));
  }
  if (nm == "V_reach") { reached.insert(constText(a[0], st)); return one(st, AV()); }
  if (nm.compare(0, 6, "V_out_") == 0) return outHarness(nm, cb, a, st);
  throw Abort{"unknown harness intrinsic " + nm};
}
// constraints of the cell hold as soon as their inputs exist
std::set<int> linesDone;
void cellLines(State &st) {
  for (int k = 0; k < (int)cell->lin.size(); ++k) {
    if (linesDone.count(k)) continue;
    Lin l = linC(cell->lin[k].second); bool all = true;
    for (auto &t : cell->lin[k].first) { auto it = inputIdx.find(t.first); if (it == inputIdx.end()) { all = false; break; } l.add(inputs[it->second].sym, t.second); }
    if (!all) continue;
    linesDone.insert(k);
    int c = condLE(l);
    if (!assume(c, root) || !assume(c, st)) throw Abort{"infeasible"};
  }
}
bool assumedAway = false;
std::set<std::string> reached;
#include "strings.inc"
