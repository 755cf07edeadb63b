// ---- std::string / stream models (included inside struct Interp) ----
static bool libStr(const std::string &d) {
  static const char *k[] = {"basic_string", "basic_ostream", "basic_istream", "basic_ios", "ios_base", "std::allocator", "std::__new_allocator", "std::_Set", "std::setw", "std::setfill", "std::setprecision", "std::fixed", "to_string", "std::out_of_range", "std::invalid_argument", "std::runtime_error", "std::logic_error", "std::exception", "std::domain_error", "std::range_error", "std::length_error", "std::locale"};
  // judge the function's own name, not its parameters
  size_t p = d.find('('); std::string h = d.substr(0, p);
  if (h.find("__gnu_cxx::__normal_iterator<") != std::string::npos && h.find("::basic_string<char, std::char_traits<char>, std::allocator<char> >::") == std::string::npos) return false; // the iterator itself is ordinary code
  for (auto *x : k) if (h.find(x) != std::string::npos) return true;
  if (d.find("operator<<") != std::string::npos && d.find("ostream") != std::string::npos) return true;
  if (d.find("operator+") != std::string::npos && d.find("basic_string") != std::string::npos) return true;
  return false;
}
// A std::string, or the text written so far to a string stream, is a list of tokens: characters, integers
// (width, fill) and reals (fixed precision). Anything not modelled makes the text unknown.
static I tenTo(int k) { I p = 1; while (k-- > 0) p *= 10; return p; }
static constexpr I STREAM = -1, WANT = (I)1 << 40;
StrVal *strOf(const AV &p, bool stream, State &st, bool make = false) {
  if (p.k != AV::PTR || p.obj <= 0) return nullptr;
  Lin o = L(p); if (!stream && !o.isConst()) return nullptr;
  auto m = st.mem.find(p.obj); if (m == st.mem.end()) return nullptr;
  I key = stream ? STREAM : o.c0;
  if (!make && !m->second->strs.count(key)) return nullptr;
  return &wobj(p.obj, st)->strs[key];
}
void lostText(const AV &p, State &st) { // every text in the object
  if (p.k != AV::PTR || p.obj <= 0) return;
  auto m = st.mem.find(p.obj); if (m == st.mem.end() || m->second->strs.empty()) return;
  for (auto &s : wobj(p.obj, st)->strs) if (s.first < WANT) s.second.known = false;
}
// text put into a character array (by snprintf): kept until the array is written otherwise
static I bufKey(I off) { return -16 - off; }
const StrVal *bufText(const AV &p, State &st) {
  if (p.k != AV::PTR || p.obj <= 0) return nullptr; Lin o = L(p); if (!o.isConst() || o.c0 < 0) return nullptr;
  auto m = st.mem.find(p.obj); if (m == st.mem.end()) return nullptr;
  auto f = m->second->strs.find(bufKey(o.c0)); return f == m->second->strs.end() || !f->second.known ? nullptr : &f->second;
}
// number of characters of a text; false if it is not known
bool textLen(const std::vector<Tok> &t, Lin &n, State &st) {
  n = linC(0);
  for (auto &x : t) {
    if (x.k == Tok::CHR) { n = n + linC(1); continue; }
    if (x.k == Tok::INT) {
      Lin v = subst(L(x.v), st); Rng r = sharp(v, st); if (r.lo < 0) return false;
      if (x.width && r.hi < tenTo(std::min(x.width, 18))) { n = n + linC(x.width); continue; }
      if (x.width > 1 && r.lo < tenTo(std::min(x.width - 1, 18))) return false;
      n = n + digitsOf(v, st); continue;
    }
    if (x.k != Tok::DBL || !x.fixed || x.prec < 0 || x.prec > 12) return false;
    Lin v; if (!decimal(asF(x.v, st), x.prec, v, st) || sharp(v, st).lo < 0) return false;
    Lin len = linC(x.prec ? x.prec + 2 : 1); Rng r = sharp(v, st);
    for (int k = x.prec + 1; k < 18; ++k) { I p = tenTo(k); if (r.hi < p) break; int c = condLE(linC(p) - v); int d = decide(c, st); len = len + (d == 1 ? linC(1) : d == -1 ? linC(0) : indLin(c)); }
    Rng q = sharp(len, st); if (x.width && q.lo < x.width) { if (q.hi > x.width) return false; len = linC(x.width); }
    n = n + len;
  }
  n = subst(n, st); return true;
}
// formatted output of the printf family into tokens; false if the format is not followed
bool formatted(const std::string &f, const std::vector<AV> &a, size_t k, State &st, std::vector<Tok> &o) {
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { o.push_back(chrTok(linC((I)(signed char)f[i]))); continue; }
    if (++i >= f.size()) return false;
    if (f[i] == '%') { o.push_back(chrTok(linC('%'))); continue; }
    char fill = ' '; int w = 0, prec = -1, l = 0;
    if (f[i] == '0') { fill = '0'; ++i; }
    auto star = [&](int &v) { I c; if (k >= a.size() || a[k].k != AV::INT) return false; Rng r = rangeLin(asInt(a[k], 32, st), st); ++k; c = r.lo; if (!r.isConst() || c < 0 || c > 64) return false; v = (int)c; return true; };
    if (i < f.size() && f[i] == '*') { if (!star(w)) return false; ++i; } else while (i < f.size() && isdigit((unsigned char)f[i]) && w < 1000) w = w * 10 + (f[i++] - '0');
    if (i < f.size() && f[i] == '.') { prec = 0; ++i; if (i < f.size() && f[i] == '*') { if (!star(prec)) return false; ++i; } else while (i < f.size() && isdigit((unsigned char)f[i]) && prec < 1000) prec = prec * 10 + (f[i++] - '0'); }
    while (i < f.size() && f[i] == 'l') { ++l; ++i; }
    if (i >= f.size() || k >= a.size() || w > 64 || prec > 64) return false;
    char c = f[i]; const AV &v = a[k++];
    if (c == 'd' || c == 'i' || c == 'u') {
      if (v.k != AV::INT) return false; unsigned bits = l ? 64 : 32; Lin x = asInt(v, bits, st); if (c == 'u') x = asUnsigned(x, bits, st);
      if (prec >= 0) { if (prec == 0 || w > prec) return false; w = prec; fill = '0'; if (sharp(subst(x, st), st).lo < 0) return false; }
      std::vector<Tok> q; intToks(subst(x, st), w, fill, st, q); o.insert(o.end(), q.begin(), q.end()); continue;
    }
    if (c == 'c' && !w && !l) { if (v.k != AV::INT) return false; o.push_back(chrTok(asInt(v, 8, st))); continue; }
    if (c == 's' && !w && prec < 0) { if (!operand("char const*", v, nullptr, st, o)) return false; continue; }
    if (c == 'f' && v.k == AV::FP) { Tok x; x.k = Tok::DBL; x.v = v; x.prec = prec < 0 ? 6 : prec; x.fixed = true; x.width = w; x.fill = fill; o.push_back(x); continue; }
    return false;
  }
  return true;
}
// sprintf, snprintf: the text goes to the array if it is known to fit
AV printTo(const std::string &nm, std::vector<AV> &a, State &st) {
  bool n = nm[1] == 'n'; size_t fi = n ? 2 : 1; AV top = topOf(Type::getInt32Ty(M->getContext()));
  Obj *ob = a[0].k == AV::PTR && a[0].obj > 0 ? objOf(a[0].obj, st) : nullptr; if (!ob) return top;
  Lin off = L(a[0]); I size = ob->size; std::string f; std::vector<Tok> t; Lin len;
  bool ok = off.isConst() && off.c0 >= 0 && cstrOf(a[fi], f, st) && formatted(f, a, fi + 1, st, t);
  Lin cap; bool capOk = true;
  if (n) { Rng r = rangeLin(asInt(a[1], 64, st), st); capOk = r.isConst(); cap = linC(r.lo); if (capOk && r.lo == 0) return ok && textLen(t, len, st) ? mkInt(len) : top; }
  havoc(a[0], st);
  if (!ok) return top;
  std::string lit; bool conc = concretely(t, st, lit); Lin full;
  if (conc) { full = linC((I)lit.size()); t.clear(); litToks(lit, t); } else if (!textLen(t, full, st)) return top;
  if (!n) require("OOB", "write outside " + ob->name, condLE(off + full + linC(1 - size)), st);
  int fit = n ? (capOk ? condLE(full + linC(1) - cap) : 0) : condLE(off + full + linC(1 - size));
  int d = fit ? decide(substC(fit, st), st) : 0;
  if (fit && !d) hint(fit);
  if (n && conc && d == -1 && capOk) { lit.resize((size_t)(cap.c0 - 1)); t.clear(); litToks(lit, t); d = 1; }
  if (n && capOk && cap.c0 > size - off.c0) require("OOB", "write outside " + ob->name, condLE(off + full + linC(1 - size)), st);
  if (d == 1) { StrVal s; s.t = t; wobj(a[0].obj, st)->strs[bufKey(off.c0)] = s; }
  return mkInt(full);
}
Tok chrTok(const Lin &c) { Tok t; t.k = Tok::CHR; t.v = mkInt(c); return t; }
void litToks(const std::string &x, std::vector<Tok> &o) { for (unsigned char c : x) o.push_back(chrTok(linC((I)(signed char)c))); }
// what an integer prints as, in this state
void intToks(const Lin &v, int width, char fill, State &st, std::vector<Tok> &o) {
  Rng r = sharp(v, st);
  if (r.lo >= 0 && r.hi <= 9 && width <= 2) { if (width == 2) o.push_back(chrTok(linC((I)(signed char)fill))); o.push_back(chrTok(v + linC('0'))); return; }
  Tok t; t.k = Tok::INT; t.v = mkInt(v); t.width = width; t.fill = width ? fill : '0'; o.push_back(t);
}
// text operand of a function: by its C++ type
bool operand(const std::string &ty, const AV &v, Type *llt, State &st, std::vector<Tok> &o) {
  if (ty == "char" || ty == "signed char" || ty == "unsigned char") { if (v.k != AV::INT) return false; o.push_back(chrTok(asInt(v, 8, st))); return true; }
  if (ty == "char const*" || ty == "char*") {
    std::string x; if (cstrOf(v, x, st)) { litToks(x, o); return true; }
    const StrVal *f = bufText(v, st); if (!f) return false; o.insert(o.end(), f->t.begin(), f->t.end()); return true;
  }
  if (ty.compare(0, 6, "string") == 0) { StrVal *s = strOf(v, false, st); if (!s || !s->known) return false; o.insert(o.end(), s->t.begin(), s->t.end()); return true; }
  return false;
}
static void cut(std::string &d, const std::string &a, const std::string &b) { for (size_t p; (p = d.find(a)) != std::string::npos;) d.replace(p, a.size(), b); }
static std::vector<std::string> paramsOf(const std::string &d) {
  std::vector<std::string> r; size_t e = d.rfind(')'); if (e == std::string::npos) return r;
  int depth = 0; size_t b = e; // matching parenthesis of the last group
  for (size_t i = e + 1; i-- > 0;) { if (d[i] == ')') ++depth; if (d[i] == '(' && --depth == 0) { b = i; break; } }
  std::string x; depth = 0;
  for (size_t i = b + 1; i < e; ++i) {
    char c = d[i]; if (c == '(' || c == '<') ++depth; if (c == ')' || c == '>') --depth;
    if (c == ',' && !depth) { r.push_back(x); x.clear(); if (i + 1 < e && d[i + 1] == ' ') ++i; } else x += c;
  }
  if (!x.empty()) r.push_back(x);
  return r;
}
static bool isInt(const std::string &t) { static const std::set<std::string> k{"int", "long", "unsigned int", "unsigned long", "long long", "unsigned long long", "short", "unsigned short"}; return k.count(t); }
static unsigned bitsOf(const std::string &t) { return t.find("short") != std::string::npos ? 16 : t.find("long") != std::string::npos ? 64 : 32; }
void emitTo(StrVal &s, std::vector<Tok> o, State &st) { // formatted output: pads on the left to the pending width
  int w = s.width; s.width = 0;
  if (w > (int)o.size()) { std::vector<Tok> p; for (int i = (int)o.size(); i < w; ++i) p.push_back(chrTok(linC((I)(signed char)s.fill))); for (auto &t : o) if (t.k != Tok::CHR) s.known = false; o.insert(o.begin(), p.begin(), p.end()); }
  else if (w) for (auto &t : o) if (t.k != Tok::CHR) s.known = false;
  s.t.insert(s.t.end(), o.begin(), o.end());
}
bool modelStd(Function *F, const std::string &nm, const CallBase &cb, std::vector<AV> &a, State &st, std::vector<Out> &out) {
  const std::string &d0 = dem(F);
  if (d0.find("std::") == std::string::npos && d0.find("__gnu_cxx") == std::string::npos) return false;
  if (d0.find("ngpt::") != std::string::npos && d0.compare(0, 5, "std::") != 0 && d0.find("std::") > d0.find("ngpt::")) return false;
  if (!libStr(d0)) return false;
  { // a template's demangled name begins with its return type: judge the name
    size_t sp = 0; int dep = 0;
    for (size_t i = 0; i < d0.size(); ++i) { char c = d0[i]; if (c == '<' && (i == 0 || d0[i - 1] != 'r')) ++dep; else if (c == '>' && dep) --dep; else if (!dep && c == '(') break; else if (!dep && c == ' ') sp = i + 1; }
    if (d0.compare(sp, 6, "ngpt::") == 0) return false;
  }
  Type *rt = cb.getType();
  // text handed to a std::string is read up to its terminator
  for (auto &v : a) if (v.k == AV::PTR && v.obj > 0) { Obj *o = objOf(v.obj, st); if (o && (o->k == Obj::CSTR || o->k == Obj::SCHEMA)) boundsOk(v, 1, st, "read"); }
  AV r = rt->isVoidTy() ? AV() : topOf(rt);
  if (rt->isPointerTy() && !a.empty() && a[0].k == AV::PTR) {
    r = a[0]; size_t q = d0.find('('); std::string h = d0.substr(0, q);
    for (auto *x : {"::end", "::cend", "::rbegin", "::rend", "::crbegin", "::crend", "::back", "::at", "::operator[]", "::erase", "::find"}) if (h.size() > strlen(x) && h.compare(h.size() - strlen(x), strlen(x), x) == 0) r = topOf(rt); // somewhere inside
  }
  textEffect(d0, F, cb, a, st, r);
  out = one(st, r); return true;
}
// effect of a string or stream function on the texts; r may be given a better result
void textEffect(const std::string &d0, Function *F, const CallBase &cb, std::vector<AV> &a, State &st, AV &r) {
  std::string d = d0;
  cut(d, "> >", ">>"); cut(d, "std::__cxx11::", "std::"); cut(d, "[abi:cxx11]", "");
  cut(d, "std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string");
  cut(d, "std::basic_ostream<char, std::char_traits<char>>", "ostream");
  cut(d, "std::ostream", "ostream"); cut(d, "std::string", "string"); cut(d, "<char, std::char_traits<char>, std::allocator<char>>", ""); cut(d, "<char, std::char_traits<char>>", "");
  bool sret = cb.hasStructRetAttr(); size_t k = sret ? 1 : 0; // first argument after the hidden result
  bool cst = d.size() > 6 && d.compare(d.size() - 6, 6, " const") == 0; if (cst) d.resize(d.size() - 6);
  auto ps = paramsOf(d);
  auto has = [&](const char *x) { return d.find(x) != std::string::npos; };
  auto starts = [&](const char *x) { return d.compare(0, strlen(x), x) == 0; };
  auto ty = [&](size_t i) { return i < ps.size() ? ps[i] : std::string(); };
  auto result = [&](std::vector<Tok> t, bool known) { StrVal *s = strOf(a[0], false, st, true); if (s) { *s = StrVal(); s->t = std::move(t); s->known = known; } };
  auto constOf = [&](const AV &v, unsigned w, I &c) { if (v.k != AV::INT) return false; Rng q = rangeLin(asInt(v, w, st), st); c = q.lo; return q.isConst(); };
  auto copies = [&](const AV &n, const AV &ch, std::vector<Tok> &t) {
    if (n.k != AV::INT || ch.k != AV::INT) return false; Lin x = subst(asInt(n, 64, st), st); Rng q = sharp(x, st);
    if (!q.isConst()) { if (q.lo >= 0 && q.hi < 64) hint(condLE(x - linC((q.lo + q.hi) / 2))); return false; }
    if (q.lo < 0 || q.lo >= 256) return false;
    Lin cc = asInt(ch, 8, st); for (I i = 0; i < q.lo; ++i) t.push_back(chrTok(cc)); return true;
  };
  if (has("::~") || starts("std::allocator") || starts("std::__new_allocator")) return;
  if (starts("std::setw(") || starts("std::setprecision(")) { if (!a.empty()) r = a[0]; return; }
  if (starts("std::_Setfill<char> std::setfill") || starts("std::setfill")) { if (!a.empty()) r = a[0]; return; }
  if (starts("std::basic_stringstream::basic_stringstream()") || starts("std::basic_ostringstream::basic_ostringstream()")) { if (auto *s = strOf(a[0], true, st, true)) *s = StrVal(); return; }
  if (cst && (has("stringstream::str()"))) { StrVal *s = strOf(a[k], true, st); bool ok = s && s->known; std::vector<Tok> t; if (ok) t = s->t; if (sret) result(t, ok); return; }
  if (has("to_string(") && sret && a.size() == 2) {
    std::vector<Tok> t;
    if (isInt(ty(0)) && a[1].k == AV::INT) { unsigned w = bitsOf(ty(0)); Lin v = asInt(a[1], w, st); intToks(subst(ty(0)[0] == 'u' ? asUnsigned(v, w, st) : v, st), 0, '0', st, t); result(t, true); return; }
    if (ty(0) == "double" && a[1].k == AV::FP) { Tok x; x.k = Tok::DBL; x.v = a[1]; x.prec = 6; x.fixed = true; t.push_back(x); result(t, true); return; }
    result(t, false); return;
  }
  bool streamOut = has("operator<<") && (starts("ostream::operator<<(") || starts("ostream& std::operator<<"));
  if (streamOut) {
    StrVal *s = a.size() > 1 ? strOf(a[0], true, st) : nullptr; if (!s) { for (auto &v : a) (void)v; return; }
    bool member = starts("ostream::"); std::string t = member ? ty(0) : ty(1); I c;
    std::vector<Tok> o;
    if (t == "std::_Setw") { if (constOf(a[1], 32, c) && c >= 0 && c < 64) s->width = (int)c; else s->known = false; return; }
    if (t == "std::_Setprecision") { if (constOf(a[1], 32, c) && c >= 0 && c < 64) s->prec = (int)c; else s->known = false; return; }
    if (t == "std::_Setfill<char>") { if (constOf(a[1], 8, c)) s->fill = (char)c; else s->known = false; return; }
    if (t.find("(*)(") != std::string::npos) {
      auto *fn = dyn_cast<Function>(cb.getArgOperand(1)->stripPointerCasts()); std::string n = fn ? dem(fn) : "";
      if (n.compare(0, 11, "std::fixed(") == 0) s->fixed = true; else if (n.compare(0, 9, "std::dec(") == 0 || n.compare(0, 11, "std::right(") == 0) {} else s->known = false;
      return;
    }
    if (isInt(t) && a[1].k == AV::INT) {
      unsigned w = bitsOf(t); Lin v = asInt(a[1], w, st); s = strOf(a[0], true, st);
      intToks(subst(t[0] == 'u' ? asUnsigned(v, w, st) : v, st), s->width, s->fill, st, o); s->width = 0; s->t.insert(s->t.end(), o.begin(), o.end()); return;
    }
    if ((t == "double" || t == "float") && a[1].k == AV::FP) { Tok x; x.k = Tok::DBL; x.v = a[1]; x.prec = s->prec; x.fixed = s->fixed; x.width = s->width; x.fill = s->fill; s->width = 0; if (!s->fixed) s->known = false; s->t.push_back(x); return; }
    if (operand(t, a[1], nullptr, st, o)) { s = strOf(a[0], true, st); emitTo(*s, o, st); return; }
    s = strOf(a[0], true, st); s->known = false; return;
  }
  if (has("std::operator+") && sret) {
    std::vector<Tok> t; bool ok = ps.size() == 2 && a.size() == 3 && operand(ps[0], a[1], nullptr, st, t) && operand(ps[1], a[2], nullptr, st, t);
    result(t, ok); return;
  }
  auto member = [&](const char *n) { std::string x = std::string("string::") + n + "("; size_t p = d.find(x); return p != std::string::npos && (p == 0 || d[p - 1] == ' '); };
  if (starts("string::basic_string")) {
    std::vector<Tok> t; bool ok = false; I c;
    if (ps.empty() || (ps.size() == 1 && ty(0).find("std::allocator") == 0)) ok = true;
    else if (ty(0) == "unsigned long" && ty(1) == "char") { ok = copies(a[1], a[2], t); }
    else if (ty(0) == "char const*" && ty(1) == "unsigned long") { Lin n; ok = operand(ty(0), a[1], nullptr, st, t) && textLen(t, n, st) && a[2].k == AV::INT && decide(condEQ(subst(asInt(a[2], 64, st), st) - n), st) == 1; (void)c; }
    else if (ps.size() == 1 || (ps.size() == 2 && ty(1).find("std::allocator") == 0)) ok = a.size() > 1 && operand(ty(0), a[1], nullptr, st, t);
    result(t, ok); return;
  }
  if (member("operator=")) { std::vector<Tok> t; bool ok = operand(ty(0), a[1], nullptr, st, t); result(t, ok); return; }
  if (member("operator+=") || (member("append") && ps.size() == 1) || member("push_back")) {
    std::vector<Tok> t; bool ok = operand(ty(0), a[1], nullptr, st, t); StrVal *s = strOf(a[0], false, st);
    if (s) { if (ok) s->t.insert(s->t.end(), t.begin(), t.end()); else s->known = false; }
    return;
  }
  if (member("append") && ps.size() == 2 && ty(0) == "unsigned long" && ty(1) == "char") {
    std::vector<Tok> t; bool ok = copies(a[1], a[2], t); StrVal *s = strOf(a[0], false, st); if (!s) return;
    if (ok) s->t.insert(s->t.end(), t.begin(), t.end()); else s->known = false;
    return;
  }
  if (member("insert") && (ps.size() == 2 || ps.size() == 3)) { // at the beginning
    I c; std::vector<Tok> t; bool it = ty(0).find("__normal_iterator") != std::string::npos, front = false, ok = false;
    if (it) front = a[1].k == AV::PTR && a[0].k == AV::PTR && a[1].obj == a[0].obj && L(a[1]) == L(a[0]); else front = constOf(a[1], 64, c) && c == 0;
    if (ps.size() == 2) ok = operand(ty(1), a[2], nullptr, st, t); else if (ty(1) == "unsigned long" && ty(2) == "char") ok = copies(a[2], a[3], t);
    StrVal *s = strOf(a[0], false, st); if (!s) return;
    if (front && ok) s->t.insert(s->t.begin(), t.begin(), t.end()); else s->known = false;
    return;
  }
  if (member("clear")) { if (auto *s = strOf(a[0], false, st)) { *s = StrVal(); } return; }
  if (member("reserve") || member("shrink_to_fit")) return;
  if (cst) {
    if (member("size") || member("length") || member("empty")) { // known when every token is one character
      StrVal *s = a.empty() ? nullptr : strOf(a[0], false, st); Lin n; bool ok = false; if (s && s->known) { auto t = s->t; ok = textLen(t, n, st); }
      if (ok && member("empty")) { int q = decide(condLE(n), st); if (q) r = mkBool(q == 1 ? 1 : -1); }
      else if (ok) r = mkInt(n);
    }
    return;
  }
  if (has("::exception") || has("_error::") || has("invalid_argument::") || has("out_of_range::")) return; // copies the message
  for (auto &v : a) lostText(v, st);
}
// ---- what the text must be ----
bool concretely(const std::vector<Tok> &t, State &st, std::string &o) {
  for (auto &x : t) {
    if (x.k == Tok::DBL) { FForm f = asF(x.v, st); if (!f.cst || !x.fixed) return false; char b[400]; snprintf(b, sizeof b, "%.*f", x.prec, f.k); std::string s = b; while ((int)s.size() < x.width) s.insert(s.begin(), x.fill); o += s; continue; }
    Rng r = rangeLin(subst(L(x.v), st), st); if (!r.isConst()) return false;
    if (x.k == Tok::CHR) o += (char)r.lo;
    else { std::string s = std::to_string((long)r.lo); while ((int)s.size() < x.width) s.insert(s.begin(), x.fill); o += s; }
  }
  return true;
}
// the expected tokens against a concrete text: 1 as expected, -1 not, 0 the expectation is not concrete
int matches(const std::vector<Tok> &want, const std::string &s, State &st) {
  size_t p = 0; auto dig = [&](size_t i) { return i < s.size() && s[i] >= '0' && s[i] <= '9'; };
  for (auto &w : want) {
    Rng r = rangeLin(subst(L(w.v), st), st); if (!r.isConst()) return 0;
    if (w.k == Tok::CHR) { if (p >= s.size() || s[p] != (char)r.lo) return -1; ++p; continue; }
    I v = 0; int n = 0; bool neg = false;
    if (w.k == Tok::INT) {
      if (w.width == 0 && p < s.size() && s[p] == '-') { neg = true; ++p; }
      while (dig(p) && n < 18) { v = v * 10 + (s[p] - '0'); ++p; ++n; }
      if (!n || (neg ? -v : v) != r.lo || (w.width && n != std::max(w.width, (int)std::to_string((long)r.lo).size()))) return -1;
    } else {
      int k = 0; I sc = 1, per = (I)w.width;
      while (dig(p) && n < 10) { v = v * 10 + (s[p] - '0'); ++p; ++n; }
      if (!n) return -1;
      if (p < s.size() && s[p] == '.') { ++p; while (dig(p) && k < 12) { v = v * 10 + (s[p] - '0'); sc *= 10; ++p; ++k; } }
      if (v * per != r.lo * sc) return -1;
    }
  }
  return p == s.size() ? 1 : -1;
}
int textCond(const StrVal *s, const std::vector<Tok> &want, State &st) {
  if (!s || !s->known) return condOpaque("text");
  std::string txt; if (concretely(s->t, st, txt)) { int m = matches(want, txt, st); if (m) return m; }
  int c = 1; size_t i = 0; const auto &t = s->t; auto no = [&]() { return condOpaque("text"); };
  auto eq = [&](const Lin &x, const Lin &y) { c = condAnd(c, condEQ(subst(x, st) - subst(y, st))); };
  for (auto &w : want) {
    if (i >= t.size()) return no();
    if (w.k == Tok::CHR) { if (t[i].k != Tok::CHR) return no(); eq(L(t[i].v), L(w.v)); ++i; continue; }
    if (w.k == Tok::INT) {
      if (t[i].k == Tok::INT) {
        if (t[i].width && t[i].fill != '0') return no();
        if (w.width && t[i].width != w.width) { Rng r = sharp(L(t[i].v), st); I lo = 1; for (int q = 1; q < w.width; ++q) lo *= 10; if (t[i].width || r.lo < lo || r.hi >= lo * 10) return no(); }
        eq(L(t[i].v), L(w.v)); ++i; continue;
      }
      { // zeros written before an integer
        size_t z = i; while (z < t.size() && t[z].k == Tok::CHR && L(t[z].v).isConst() && L(t[z].v).c0 == '0') ++z;
        if (z < t.size() && t[z].k == Tok::INT && (!t[z].width || t[z].fill == '0')) {
          Lin n; if (!textLen({t[z]}, n, st) || !sharp(n, st).isConst() || (I)(z - i) + sharp(n, st).lo != w.width) return no();
          eq(L(t[z].v), L(w.v)); i = z + 1; continue;
        }
      }
      int n = w.width; if (!n) { while (i + (size_t)n < t.size() && t[i + n].k == Tok::CHR) { Rng r = sharp(L(t[i + n].v), st); if (r.lo < '0' || r.hi > '9') break; ++n; } if (!n) return no(); }
      Lin v = linC(0);
      for (int q = 0; q < n; ++q, ++i) {
        if (i >= t.size() || t[i].k != Tok::CHR) return no();
        Lin ch = L(t[i].v) - linC('0'); c = condAnd(c, condAnd(condLE(ch - linC(9)), condLE(linC(0) - ch))); v = scale(v, 10) + ch;
      }
      eq(v, L(w.v)); continue;
    }
    I per = w.width; int digs = per == 1 ? 0 : per == 1000 ? 3 : 6;
    if (t[i].k == Tok::DBL) {
      if (!t[i].fixed || t[i].prec < digs || (t[i].width && t[i].fill != '0')) return no();
      FForm x = asF(t[i].v, st); if (x.top) return no();
      FForm y = fmulc(fromLin(subst(L(w.v), st), st), (double)per, true, st); x = lift(x); y = lift(y);
      x.c0 -= y.c0; x.err += y.err; for (auto &q : y.t) addTerm(x, q.first, -q.second, st);
      auto r = rangeFF(x, st, 0); R tol = 0.45L; for (int q = 0; q < t[i].prec; ++q) tol /= 10;
      if (!(r.first >= -tol && r.second <= tol)) return no();
      ++i; continue;
    }
    if (t[i].k != Tok::INT || (t[i].width && t[i].fill != '0')) return no();
    Lin v = L(t[i].v); I sc = 1; ++i;
    if (i + 1 < t.size() && t[i].k == Tok::CHR && t[i + 1].k == Tok::INT && t[i + 1].width > 0 && t[i + 1].fill == '0') {
      for (int q = 0; q < t[i + 1].width; ++q) sc *= 10;
      eq(L(t[i].v), linC('.')); c = condAnd(c, condLE(L(t[i + 1].v) - linC(sc - 1))); v = scale(v, sc) + L(t[i + 1].v); i += 2;
    }
    c = condAnd(c, condEQ(subst(scale(v, per), st) - scale(subst(L(w.v), st), sc)));
  }
  return i == t.size() ? c : no();
}
// digits of a number that is not negative
Lin digitsOf(const Lin &v, State &st) {
  Rng r = sharp(v, st); Lin n = linC(1);
  for (int k = 1; k < 19; ++k) { I p = tenTo(k); if (r.hi < p) break; int c = condLE(linC(p) - v); int d = decide(c, st); n = n + (d == 1 ? linC(1) : d == -1 ? linC(0) : indLin(c)); }
  return n;
}
bool digitRun(const std::vector<Tok> &t, size_t &i, Lin &v, Lin &len, int &fixed, State &st) { // fixed: number of digits, -1 if it varies
  size_t j = i; v = linC(0); len = linC(0); fixed = 0;
  for (; j < t.size(); ++j) {
    Lin x = t[j].k == Tok::DBL ? Lin() : subst(L(t[j].v), st);
    if (t[j].k == Tok::CHR) { Rng r = sharp(x, st); if (r.lo < '0' || r.hi > '9') break; v = scale(v, 10) + x - linC('0'); len = len + linC(1); if (fixed >= 0) ++fixed; }
    else if (t[j].k == Tok::INT) {
      Rng r = sharp(x, st); if (r.lo < 0 || (t[j].width && t[j].fill != '0')) return false;
      bool pad = t[j].width && r.hi < tenTo(t[j].width);
      if (j > i && !pad) { if (!v.isConst() || v.c0 || t[j].width) return false; v = x; len = len + digitsOf(x, st); fixed = -1; continue; } // zeros before it
      v = pad ? scale(v, tenTo(t[j].width)) + x : x;
      if (pad) { len = len + linC(t[j].width); if (fixed >= 0) fixed += t[j].width; }
      else { if (t[j].width > 1 && r.lo < tenTo(t[j].width - 1)) return false; len = digitsOf(x, st); fixed = -1; }
    } else break;
  }
  if (j == i) return false;
  i = j; return true;
}
bool decimal(const FForm &f0, int prec, Lin &n, State &st) { // the digits printed are exactly the number n
  if (f0.top) return false;
  FForm f = lift(f0); if (!intSyms(f)) return false;
  R sc = 1; for (int q = 0; q < prec; ++q) sc *= 10;
  R dev = f.err * sc; auto near = [&](R c, I &o, R w) { R x = c * sc; o = (I)roundl(x); R d = fabsl(x - (R)o); dev += d * w; return fabsl(x) < 1e15L; };
  I k; if (!near(f.c0, k, 1)) return false; n = linC(k);
  for (auto &p : f.t) { auto r = rangeRSym(p.first, st); if (!near(p.second, k, std::max(fabsl(r.first), fabsl(r.second)))) return false; n.add(p.first, k); }
  return dev < 0.45L;
}
bool schemaOf(const std::vector<Tok> &t, Schema &s, State &st) {
  auto put = [&](int kind, const Lin &len, const AV &v) { Seg g; g.kind = kind; g.start = s.len; g.len = len; g.val = v; s.len = s.len + len; s.segs.push_back(g); };
  auto over = [&](const Lin &n, int k) {
    I q = tenTo(k); bool whole = n.c0 % q == 0; for (auto &p : n.t) if (p.second % q) whole = false;
    if (whole) { Lin m = linC(n.c0 / q); for (auto &p : n.t) m.add(p.first, p.second / q); return mkF(fromLin(m, st)); }
    return mkF(fmulc(fromLin(n, st), (double)q, true, st));
  };
  s.len = linC(0);
  for (size_t i = 0; i < t.size();) {
    if (t[i].k == Tok::DBL) {
      Lin n; if (!t[i].fixed || t[i].width || t[i].prec < 0 || t[i].prec > 12 || !decimal(asF(t[i].v, st), t[i].prec, n, st) || sharp(n, st).lo < 0) return false;
      if (!s.segs.empty() && s.segs.back().kind != 1) return false;
      Lin len = linC(t[i].prec ? t[i].prec + 2 : 1); Rng r = sharp(n, st);
      for (int k = t[i].prec + 1; k < 18; ++k) { I p = tenTo(k); if (r.hi < p) break; int c = condLE(linC(p) - n); int d = decide(c, st); len = len + (d == 1 ? linC(1) : d == -1 ? linC(0) : indLin(c)); }
      put(2, len, over(n, t[i].prec)); ++i; continue;
    }
    Lin v, len; int w; size_t j = i;
    if (!digitRun(t, j, v, len, w, st)) {
      if (t[i].k != Tok::CHR) return false;
      Rng r = sharp(subst(L(t[i].v), st), st); (void)r;
      put(1, linC(1), t[i].v); ++i; continue;
    }
    Lin v2, len2; int w2; size_t k = j + 1;
    if (j < t.size() && t[j].k == Tok::CHR && L(t[j].v).isConst() && L(t[j].v).c0 == '.' && digitRun(t, k, v2, len2, w2, st)) {
      if (w2 <= 0 || w2 > 12) return false;
      put(2, len + linC(1) + len2, over(scale(v, tenTo(w2)) + v2, w2)); i = k; continue;
    }
    put(0, len, mkInt(v)); i = j;
  }
  return true;
}
std::vector<Out> outHarness(const std::string &nm, const CallBase &cb, std::vector<AV> &a, State &st) {
  I key = WANT + (L(a[0]).isConst() ? L(a[0]).c0 : 0); if (a[0].k != AV::PTR || a[0].obj <= 0) throw Abort{"harness: text expected"};
  Obj *o = wobj(a[0].obj, st); StrVal &w = o->strs[key];
  if (nm == "V_out_end") {
    std::string rule = constText(a[1], st); std::vector<Tok> want = w.t; o->strs.erase(key);
    auto f = o->strs.find(key - WANT); require("CHECK", rule, textCond(f == o->strs.end() ? nullptr : &f->second, want, st), st); return one(st, AV());
  }
  if (nm == "V_out_schema") { // the text as a reader sees it: numbers and single characters
    auto f = o->strs.find(key - WANT); o->strs.erase(key);
    Schema sc; sc.name = "written"; if (f == o->strs.end() || !f->second.known || !schemaOf(f->second.t, sc, st)) throw Abort{"the text written is not known"};
    schemas.push_back(sc); int id = newObj(st, Obj::SCHEMA, 0, sc.name); auto q = st.mem[id]; q->schema = (int)schemas.size() - 1; q->len = sc.len; cobjs[id] = q; st.mem.erase(id);
    return one(st, mkPtr(id, linC(0)));
  }
  Tok t;
  if (nm == "V_out_chr") t = chrTok(asInt(a[1], 8, st));
  else if (nm == "V_out_int") { t.k = Tok::INT; t.v = mkInt(asInt(a[1], 64, st)); t.width = (int)constInt(a[2], st); }
  else if (nm == "V_out_real") { t.k = Tok::DBL; t.v = mkInt(asInt(a[1], 64, st)); t.width = (int)constInt(a[2], st); }
  else throw Abort{"unknown harness intrinsic " + nm};
  w.t.push_back(t); return one(st, AV());
}
