// Calls: LLVM intrinsics, libc models, the vp_* harness API.
static bool advance(State *s, KInst &k) { // after a builtin call: move on (call) or jump to the normal destination (invoke)
  Frame &f = s->st.back();
  if (auto *iv = dyn_cast<InvokeInst>(k.I)) { KBlock *from = f.b; enterBlock(s, from, f.kf->bmap[iv->getNormalDest()]); if (parkIfJoin(s, s->st.back().b)) { doPark(s); return false; } }
  else f.ip++;
  return true;
}
static void setDest(State *s, KInst &k, Val v) { if (k.dest >= 0) s->st.back().regs[k.dest] = v; }
static Val addP(Val p, u64 o) { return p.conc() ? Val(p.c + o) : Val(C.bin(KAdd, C.cst(o, 64), p.e)); }
static u64 concV(State *s, Val v, const char *why) { return v.conc() ? v.c : concretize(s, v.e, why); }
static bool hasUninit(Expr *e) { if (!e || e->k == KConst) return false; for (u32 v : *e->sup) if (C.vars[v].uninit) return true; return false; }
static std::string fmtArgs(State *s, const std::string &fm, std::function<Val()> next) {
  std::string out; size_t i = 0;
  while (i < fm.size()) {
    if (fm[i] != '%') { out.push_back(fm[i++]); continue; }
    std::string spec = "%"; i++; if (fm[i] == '%') { out.push_back('%'); i++; continue; }
    while (i < fm.size() && strchr("-+ #0123456789.*", fm[i])) { if (fm[i] == '*') { spec += std::to_string((int)concV(s, next(), "printf")); i++; } else spec.push_back(fm[i++]); }
    std::string len; while (i < fm.size() && strchr("hlzjtL", fm[i])) len.push_back(fm[i++]);
    char cv = i < fm.size() ? fm[i++] : 0; char buf[512];
    if (strchr("diouxXc", cv)) { u64 v = concV(s, next(), "printf"); if (len.find('l') != std::string::npos || len == "z" || len == "j" || len == "t") { spec += "ll"; spec += cv; snprintf(buf, 512, spec.c_str(), (long long)v); } else { spec += cv; snprintf(buf, 512, spec.c_str(), (int)v); } out += buf; if (cv == 'c' && !(char)v) out.push_back(0); }
    else if (strchr("feEgGaA", cv)) { u64 v = concV(s, next(), "printf"); spec += cv; snprintf(buf, 512, spec.c_str(), asD(v)); out += buf; }
    else if (cv == 's') { bool sy; Val p = next(); std::string t = cstr(s, p, sy); spec += 's'; std::vector<char> b(t.size() + 600); snprintf(b.data(), b.size(), spec.c_str(), t.c_str()); out += b.data(); }
    else if (cv == 'p') { concV(s, next(), "printf"); out += "0x1"; }
    else { incompleteMark("printf-conversion"); throw Stop(); }
  }
  return out;
}
static void putStr(State *s, Val d, const std::string &t, u64 cap, bool bounded) {
  if (bounded && cap == 0) return; u64 n = t.size(); if (bounded && n >= cap) n = cap - 1;
  for (u64 i = 0; i < n; i++) store(s, addP(d, i), 1, Val((u64)(u8)t[i]), "sprintf"); store(s, addP(d, n), 1, Val((u64)0), "sprintf");
}
// reads a va_list (x86-64 layout is not modelled; va_start stores a frame reference instead)
static u32 fmtSscanf(State *s, const std::string &in, const std::string &fm, std::function<Val()> next, bool &ok) {
  // supports %d %u %x %f %g %lf %s %c, literals and white space on concrete text
  size_t i = 0, p = 0; u32 n = 0; ok = true; auto ws = [&]() { while (p < in.size() && isspace((u8)in[p])) p++; };
  while (i < fm.size()) {
    if (isspace((u8)fm[i])) { ws(); i++; continue; }
    if (fm[i] != '%') { if (p < in.size() && in[p] == fm[i]) { p++; i++; continue; } return p >= in.size() && n == 0 ? (u32)-1 : n; }
    i++; if (fm[i] == '%') { ws(); if (p < in.size() && in[p] == '%') { p++; i++; continue; } return n; }
    size_t width = 0; while (isdigit((u8)fm[i])) width = width * 10 + (fm[i++] - '0'); std::string len; while (strchr("hl", fm[i]) && fm[i]) len.push_back(fm[i++]);
    char cv = fm[i++];
    if (cv != 'c' && cv != '[') ws();
    if (p >= in.size()) return n == 0 ? (u32)-1 : n;
    if (strchr("dixuo", cv)) { std::string t = in.substr(p, width ? width : std::string::npos); char *e; long long v = cv == 'x' ? strtoll(t.c_str(), &e, 16) : cv == 'i' ? strtoll(t.c_str(), &e, 0) : cv == 'o' ? strtoll(t.c_str(), &e, 8) : strtoll(t.c_str(), &e, 10); if (e == t.c_str()) return n; p += e - t.c_str(); Val d = next(); unsigned sz = len == "l" || len == "ll" ? 8 : len == "h" ? 2 : len == "hh" ? 1 : 4; store(s, d, sz, Val((u64)v & mask(sz * 8)), "sscanf"); n++; }
    else if (strchr("feg", cv)) { std::string t = in.substr(p, width ? width : std::string::npos); char *e; double v = strtod(t.c_str(), &e); if (e == t.c_str()) return n; p += e - t.c_str(); Val d = next(); if (len == "l") store(s, d, 8, Val(ofD(v)), "sscanf"); else store(s, d, 4, Val(ofF(strtof(t.c_str(), &e))), "sscanf"); n++; }
    else if (cv == 's') { Val d = next(); u64 j = 0; while (p < in.size() && !isspace((u8)in[p]) && (!width || j < width)) store(s, addP(d, j++), 1, Val((u64)(u8)in[p++]), "sscanf"); store(s, addP(d, j), 1, Val((u64)0), "sscanf"); n++; }
    else if (cv == 'c') { Val d = next(); u64 cnt = width ? width : 1; for (u64 j = 0; j < cnt && p < in.size(); j++) store(s, addP(d, j), 1, Val((u64)(u8)in[p++]), "sscanf"); n++; }
    else { ok = false; return n; }
  }
  return n;
}
static Expr *bytesDiffer(State *s, Val a, Val b, u64 n, bool eq) { Expr *r = C.cst(1, 1); for (u64 i = 0; i < n; i++) { Val x = load(s, addP(a, i), 1, "memcmp"), y = load(s, addP(b, i), 1, "memcmp"); r = C.andE(r, C.bin(KEq, EX(x, 8), EX(y, 8))); if (r->k == KConst && !r->val) break; } return eq ? r : C.notE(r); }

static void assertThat(State *s, Val c, const std::string &kind, const std::string &msg) {
  nAsserts++;
  if (c.conc()) { if (!c.c) { report(s, kind, msg, s->model); throw Stop(); } return; }
  SModel om; Res r = S->check(s->pc, C.notE(c.e), s->model, om); if (r == UNKNOWN) { incompleteMark("solver-unknown"); return; }
  if (r == SAT) { report(s, kind, msg, om); SModel m2; if (!mayBe(s, c.e, m2)) throw Stop(); s->model = m2; addPC(s, c.e); }
}
static void checkInit(State *s, Val p, u64 n, const std::string &msg) {
  nAsserts++; std::vector<std::pair<u64, Expr*>> es; for (u64 i = 0; i < n; i++) { Val v = load(s, addP(p, i), 1, "vp_check_init"); if (!v.conc() && hasUninit(v.e)) es.push_back({i, v.e}); }
  if (es.empty()) return;
  std::set<u32> uv; for (auto &e : es) for (u32 v : *e.second->sup) if (C.vars[v].uninit) uv.insert(v);
  for (Expr *e : s->pc) for (u32 v : *e->sup) if (C.vars[v].uninit) uv.insert(v);
  std::unordered_map<u32, Expr*> mp; for (u32 v : uv) { std::string nm = C.vars[v].name + "'"; u32 ix = C.vars[v].index; mp[v] = C.newVar(nm, ix, true); }
  std::vector<Expr*> pc2 = s->pc; for (Expr *e : s->pc) if (hasUninit(e)) pc2.push_back(C.subst(e, mp));
  Expr *df = C.cst(0, 1); for (auto &e : es) df = C.orE(df, C.notE(C.bin(KEq, e.second, C.subst(e.second, mp))));
  if (df->k == KConst && !df->val) return;
  SModel base = s->model; SModel om; Res r = S->check(pc2, df, base, om);
  if (r == UNKNOWN) { incompleteMark("solver-unknown"); return; }
  if (r == SAT) { u64 at = es[0].first; for (auto &e : es) if (C.eval(e.second, om) != C.eval(C.subst(e.second, mp), om)) { at = e.first; break; } report(s, "uninit", msg, om); (void)at; throw Stop(); }
}

static bool intrinsic(State *s, KInst &k, IntrinsicInst *II) {
  Frame &f = s->st.back(); unsigned w = k.w; auto A = [&](int i) { return opv(f, k.ops[i]); };
  auto ret = [&](Val v) { setDest(s, k, v); return advance(s, k); };
  switch (II->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::sideeffect: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::vaend: return advance(s, k);
  case Intrinsic::vastart: { // remember the frame's variable arguments in a fresh array object
    Frame &g = s->st.back(); std::vector<Val> va = g.va; Obj *o = s->m.add(va.size() * 8 + 8, OAlloca, "va"); u64 base = o->base; g.allocas.push_back(base >> IDSHIFT); for (size_t i = 0; i < va.size(); i++) { Val v = va[i]; if (!v.conc() && v.e->w < 64) v = zextV(v, v.e->w, 64); writeC(s->m.getW(base >> IDSHIFT), i * 8, 8, v); }
    Val p = A(0); store(s, p, 4, Val((u64)48), "va_start"); store(s, addP(p, 4), 4, Val((u64)304), "va_start"); store(s, addP(p, 8), 8, Val(base), "va_start"); store(s, addP(p, 16), 8, Val((u64)0), "va_start"); return advance(s, k); }
  case Intrinsic::stacksave: return ret(Val((u64)1)); case Intrinsic::stackrestore: return advance(s, k);
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concV(s, A(2), "memcpy length"); if (n > (64ull << 20)) { report(s, "oob-write", "memcpy of " + std::to_string(n) + " bytes", s->model); throw Stop(); } doCopy(s, A(0), A(1), n, "memcpy"); return advance(s, k); }
  case Intrinsic::memset: { u64 n = concV(s, A(2), "memset length"); if (n) { Val off; Obj *o = resolve(s, A(0), n, true, off, "memset"); if (off.conc()) { o = s->m.getW(o->base >> IDSHIFT); Val v = A(1); if (v.conc()) { memset(&o->conc[off.c], (int)v.c, n); if (!o->sym.empty()) std::fill(o->sym.begin() + off.c, o->sym.begin() + off.c + n, nullptr); } else for (u64 i = 0; i < n; i++) setByte(o, off.c + i, v.e); } else for (u64 i = 0; i < n; i++) store(s, addP(A(0), i), 1, A(1), "memset"); } return advance(s, k); }
  case Intrinsic::umin: { Val a = A(0), b = A(1); return ret(iteV(binop(KUle, a, b, w), a, b, w)); }
  case Intrinsic::umax: { Val a = A(0), b = A(1); return ret(iteV(binop(KUle, b, a, w), a, b, w)); }
  case Intrinsic::smin: { Val a = A(0), b = A(1); return ret(iteV(binop(KSle, a, b, w), a, b, w)); }
  case Intrinsic::smax: { Val a = A(0), b = A(1); return ret(iteV(binop(KSle, b, a, w), a, b, w)); }
  case Intrinsic::abs: { Val a = A(0); return ret(iteV(binop(KSlt, a, Val((u64)0), w), binop(KSub, Val((u64)0), a, w), a, w)); }
  case Intrinsic::bswap: { Val a = A(0); if (a.conc()) { u64 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((a.c >> (8 * i)) & 255) << (w - 8 - 8 * i); return ret(Val(r)); } Expr *r = C.extract(a.e, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = C.concat(r, C.extract(a.e, 8 * i, 8)); return ret(Val(r)); }
  case Intrinsic::bitreverse: { Val a = A(0); if (a.conc()) { u64 r = 0; for (unsigned i = 0; i < w; i++) r |= ((a.c >> i) & 1) << (w - 1 - i); return ret(Val(r)); } Expr *r = C.extract(a.e, 0, 1); for (unsigned i = 1; i < w; i++) r = C.concat(r, C.extract(a.e, i, 1)); return ret(Val(r)); }
  case Intrinsic::ctpop: { Val a = A(0); if (a.conc()) return ret(Val((u64)__builtin_popcountll(a.c))); Expr *r = C.cst(0, w); for (unsigned i = 0; i < w; i++) r = C.bin(KAdd, r, C.zext(C.extract(a.e, i, 1), w)); return ret(Val(r)); }
  case Intrinsic::ctlz: { Val a = A(0); if (a.conc()) return ret(Val(a.c ? (u64)(__builtin_clzll(a.c) - (64 - w)) : (u64)w)); Expr *r = C.cst(w, w); for (unsigned i = 0; i < w; i++) r = C.ite(C.extract(a.e, i, 1), C.cst(w - 1 - i, w), r); return ret(Val(r)); }
  case Intrinsic::cttz: { Val a = A(0); if (a.conc()) return ret(Val(a.c ? (u64)__builtin_ctzll(a.c) : (u64)w)); Expr *r = C.cst(w, w); for (unsigned i = w; i-- > 0;) r = C.ite(C.extract(a.e, i, 1), C.cst(i, w), r); return ret(Val(r)); }
  case Intrinsic::fshl: case Intrinsic::fshr: { Val a = A(0), b = A(1), c = A(2); u64 sh = concV(s, c, "funnel shift") % w; bool l = II->getIntrinsicID() == Intrinsic::fshl; if (sh == 0) return ret(l ? a : b); u64 ls = l ? sh : w - sh; return ret(binop(KOr, binop(KShl, a, Val(ls), w), binop(KLShr, b, Val(w - ls), w), w)); }
  case Intrinsic::usub_sat: { Val a = A(0), b = A(1); return ret(iteV(binop(KUlt, a, b, w), Val((u64)0), binop(KSub, a, b, w), w)); }
  case Intrinsic::uadd_sat: { Val a = A(0), b = A(1); Val r = binop(KAdd, a, b, w); return ret(iteV(binop(KUlt, r, a, w), Val(mask(w)), r, w)); }
  case Intrinsic::uadd_with_overflow: { unsigned x = bits(II->getArgOperand(0)->getType()); Val a = A(0), b = A(1); Val r = binop(KAdd, a, b, x); return ret(mkAgg({r, binop(KUlt, r, a, x)})); }
  case Intrinsic::usub_with_overflow: { unsigned x = bits(II->getArgOperand(0)->getType()); Val a = A(0), b = A(1); return ret(mkAgg({binop(KSub, a, b, x), binop(KUlt, a, b, x)})); }
  case Intrinsic::umul_with_overflow: { unsigned x = bits(II->getArgOperand(0)->getType()); Val a = A(0), b = A(1); Val r = binop(KMul, a, b, x);
      if (a.conc()) std::swap(a, b); if (b.conc()) { Val ov = b.c == 0 ? Val((u64)0) : binop(KUlt, Val(mask(x) / b.c), a, x); return ret(mkAgg({r, ov})); }
      Val z = binop(KEq, b, Val((u64)0), x); Val q = binop(KUDiv, r, b, x); Val ov = binop(KAnd, notv(z), notv(binop(KEq, q, a, x)), 1); return ret(mkAgg({r, ov})); }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { unsigned x = bits(II->getArgOperand(0)->getType()); if (x > 32) { incompleteMark("s*.with.overflow.i64"); throw Stop(); } Kind kk = II->getIntrinsicID() == Intrinsic::sadd_with_overflow ? KAdd : II->getIntrinsicID() == Intrinsic::ssub_with_overflow ? KSub : KMul; auto sx = [&](Val v) { return v.conc() ? Val((u64)sext(v.c, x)) : Val(C.sextE(v.e, 64)); }; Val r = binop(kk, sx(A(0)), sx(A(1)), 64); Val t = truncV(r, x); return ret(mkAgg({t, notv(binop(KEq, sx(t), r, 64))})); }
  case Intrinsic::fabs: return ret(binop(KAnd, Val(mask(w - 1)), A(0), w));
  case Intrinsic::sqrt: return ret(unop(KFSqrt, A(0), w, w));
  case Intrinsic::floor: return ret(unop(KFRound, A(0), w, w, 0)); case Intrinsic::ceil: return ret(unop(KFRound, A(0), w, w, 1)); case Intrinsic::trunc: return ret(unop(KFRound, A(0), w, w, 2)); case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return ret(unop(KFRound, A(0), w, w, 3)); case Intrinsic::round: return ret(unop(KFRound, A(0), w, w, 4));
  case Intrinsic::fmuladd: return ret(binop(KFAdd, binop(KFMul, A(0), A(1), w), A(2), w));
  case Intrinsic::frexp: { // {mantissa in [0.5,1), exponent}; zero, infinity and NaN come back unchanged with exponent 0
    unsigned xw = bits(II->getArgOperand(0)->getType()); int mb = xw == 64 ? 52 : 23, bias = xw == 64 ? 1022 : 126, up = xw == 64 ? 54 : 25; u64 em = xw == 64 ? 2047 : 255; Val x = A(0);
    auto fld = [&](Val v) { return binop(KAnd, binop(KLShr, v, Val((u64)mb), xw), Val(em), xw); };
    auto man = [&](Val v) { return binop(KOr, binop(KAnd, v, Val(~(em << mb) & mask(xw)), xw), Val((u64)bias << mb), xw); };
    Val y = binop(KFMul, x, Val(xw == 64 ? ofD(ldexp(1.0, up)) : ofF(ldexpf(1.0f, up))), xw), f = fld(x);
    Val zero = binop(KEq, binop(KAnd, x, Val(mask(xw - 1)), xw), Val((u64)0), xw), spec = binop(KOr, zero, binop(KEq, f, Val(em), xw), 1), sub = binop(KEq, f, Val((u64)0), xw);
    Val m = iteV(spec, x, iteV(sub, man(y), man(x), xw), xw), e = iteV(spec, Val((u64)0), iteV(sub, binop(KSub, fld(y), Val((u64)(bias + up)), xw), binop(KSub, f, Val((u64)bias), xw), xw), xw);
    return ret(mkAgg({m, truncV(e, 32)})); }
  case Intrinsic::copysign: return ret(binop(KOr, binop(KAnd, Val(mask(w - 1)), A(0), w), binop(KAnd, Val(1ull << (w - 1)), A(1), w), w));
  case Intrinsic::minnum: { Val a = A(0), b = A(1); Val r = iteV(binop(KFOlt, b, a, w), b, a, w); return ret(iteV(binop(KFUno, a, a, w), b, r, w)); }
  case Intrinsic::maxnum: { Val a = A(0), b = A(1); Val r = iteV(binop(KFOlt, a, b, w), b, a, w); return ret(iteV(binop(KFUno, a, a, w), b, r, w)); }
  case Intrinsic::exp: case Intrinsic::log: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: { const char *n = II->getIntrinsicID() == Intrinsic::exp ? "exp" : II->getIntrinsicID() == Intrinsic::log ? "log" : II->getIntrinsicID() == Intrinsic::sin ? "sin" : II->getIntrinsicID() == Intrinsic::cos ? "cos" : II->getIntrinsicID() == Intrinsic::exp2 ? "exp2" : II->getIntrinsicID() == Intrinsic::log2 ? "log2" : "log10"; int id = mathId(n); Val a = A(0); if (a.conc()) return ret(Val(math_eval(id, w, a.c, 0))); return ret(Val(C.un(KMath, a.e, w, id))); }
  case Intrinsic::pow: { int id = mathId("pow"); Val a = A(0), b = A(1); if (a.conc() && b.conc()) return ret(Val(math_eval(id, w, a.c, b.c))); return ret(Val(C.un(KMath, EX(a, w), w, id, EX(b, w)))); }
  case Intrinsic::ldexp: { int id = mathId("ldexp"); Val a = A(0), b = A(1); if (a.conc() && b.conc()) { double r = w == 64 ? ldexp(asD(a.c), (int)b.c) : ldexpf(asF(a.c), (int)b.c); return ret(Val(w == 64 ? ofD(r) : ofF((float)r))); } if (w == 32) return ret(Val(C.un(KMath, EX(a, 32), 32, id, EX(b, 32)))); // double: convert the exponent so that both operands have one width
      return ret(Val(C.un(KMath, EX(a, 64), 64, id, EX(inttofp(b, 32, 64, true), 64)))); }
  case Intrinsic::powi: { Val a = A(0), b = A(1); if (!a.conc() || !b.conc()) { incompleteMark("powi"); throw Stop(); } double r = __builtin_powi(w == 32 ? asF(a.c) : asD(a.c), (int)b.c); return ret(Val(w == 32 ? ofF((float)r) : ofD(r))); }
  case Intrinsic::expect: return ret(A(0)); case Intrinsic::is_constant: return ret(Val((u64)0)); case Intrinsic::objectsize: return ret(Val(mask(w)));
  case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address: return ret(A(0));
  case Intrinsic::ptrmask: return ret(binop(KAnd, A(0), A(1), 64));
  case Intrinsic::trap: case Intrinsic::ubsantrap: report(s, "trap", "llvm.trap reached", s->model); throw Stop();
  case Intrinsic::load_relative: { Val b = A(0), o = A(1); Val p = binop(KAdd, b, o.conc() ? o : Val(o.e), 64); Val v = load(s, p, 4, "load.relative"); return ret(binop(KAdd, b, v.conc() ? Val((u64)sext(v.c, 32)) : Val(C.sextE(v.e, 64)), 64)); }
  default: incompleteMark(std::string("intrinsic:") + II->getCalledFunction()->getName().str()); throw Stop();
  }
}
// variable arguments as a list: direct (sprintf) or through our va_list representation (vsnprintf)
static bool doCall(State *s, KInst &k) {
  if (auto *II = dyn_cast<IntrinsicInst>(k.I)) return intrinsic(s, k, II);
  Frame &f = s->st.back(); auto *cb = cast<CallBase>(k.I); auto A = [&](int i) { return opv(f, k.ops[i]); };
  auto ret = [&](Val v) { setDest(s, k, v); return advance(s, k); };
  Function *F = k.callee; int bi = k.builtin;
  if (!F) {
    if (cb->isInlineAsm()) { return advance(s, k); }
    Val cv = A((int)k.ops.size() - 1); u64 a = concV(s, cv, "indirect call"); auto it = fnAt.find(a);
    if (it == fnAt.end()) { report(s, a < 4096 ? "null-deref" : "wild-pointer", "indirect call to " + hex(a), s->model); throw Stop(); }
    F = it->second; auto b2 = builtins.find(F->getName().str()); if (b2 != builtins.end()) bi = b2->second.first;
  }
  if (bi == BNone || (!F->isDeclaration() && bi != BMalloc && bi != BFree && bi < BSymbolic)) {
    if (F->isDeclaration()) { std::string n = dem(F->getName()); incompleteMark("external:" + n); throw Stop(); }
    std::vector<Val> args; size_t na = cb->arg_size(); for (size_t i = 0; i < na; i++) args.push_back(A(i));
    KBlock *nd = nullptr; KBlock *from = f.b; if (auto *iv = dyn_cast<InvokeInst>(k.I)) nd = f.kf->bmap[iv->getNormalDest()];
    int dest = k.dest; Instruction *site = k.I; f.ip++; pushFrame(s, F, args, dest, nd, from, site); return true;
  }
  int arg = builtins[F->getName().str()].second;
  switch (bi) {
  case BMalloc: return ret(doMalloc(s, A(0), false));
  case BCalloc: { Val n = binop(KMul, A(0), A(1), 64); return ret(doMalloc(s, n, true)); }
  case BRealloc: { Val p = A(0); u64 a = concV(s, p, "realloc"); u64 n = concV(s, A(1), "realloc size"); if (!a) return ret(doMalloc(s, Val(n), false)); Obj *o = s->m.get(a >> IDSHIFT); if (!o || o->kind != OHeap || a != o->base) { report(s, o ? "bad-free" : "use-after-free", "realloc of " + hex(a), s->model); throw Stop(); } u64 c = std::min<u64>(n, o->size); Val q = doMalloc(s, Val(n), false); if (q.c) { doCopy(s, q, Val(a), c, "realloc"); doFree(s, Val(a)); } return ret(q); }
  case BFree: doFree(s, A(0)); return advance(s, k);
  case BMemcpy: { u64 n = concV(s, A(2), "memcpy length"); Val d = A(0); if (n > (64ull << 20)) { report(s, "oob-write", "memcpy of " + std::to_string(n) + " bytes", s->model); throw Stop(); } doCopy(s, d, A(1), n, "memcpy"); return ret(d); }
  case BMemset: { u64 n = concV(s, A(2), "memset length"); Val d = A(0), v = truncV(A(1), 8); for (u64 i = 0; i < n; i++) store(s, addP(d, i), 1, v, "memset"); return ret(d); }
  case BMemcmp: { u64 n = concV(s, A(2), "memcmp length"); Val a = A(0), b = A(1); Val r = Val((u64)0); for (u64 i = n; i-- > 0;) { Val x = load(s, addP(a, i), 1, "memcmp"), y = load(s, addP(b, i), 1, "memcmp"); Val df = binop(KSub, zextV(x, 8, 32), zextV(y, 8, 32), 32); r = iteV(binop(KEq, x, y, 8), r, df, 32); } return ret(r); }
  case BSymbolic: { bool sy; u64 n = concV(s, A(1), "vp_symbolic length"); std::string nm = cstr(s, A(2), sy); Val off; Obj *o = resolve(s, A(0), n, true, off, "vp_symbolic"); o = s->m.getW(o->base >> IDSHIFT); int c = s->nameUse[nm]++; if (c) nm += "." + std::to_string(c); InputRec r; r.name = nm;
      static std::map<std::string, std::vector<Expr*>> varsOf; auto &vv = varsOf[nm]; while (vv.size() < n) vv.push_back(C.newVar(nm, vv.size(), false));
      for (u64 i = 0; i < n; i++) { setByte(o, off.c + i, vv[i]); r.bytes.push_back(vv[i]); } s->inputs.push_back(r); return advance(s, k); }
  case BAssume: { nAssume++; Val c = A(0); Val z = notv(binop(KEq, c, Val((u64)0), bits(cb->getArgOperand(0)->getType()))); if (z.conc()) { if (!z.c) { nInfeasibleAssume++; throw Stop(); } return advance(s, k); } if (!C.eval(z.e, s->model)) { SModel om; Res r = S->check(s->pc, z.e, s->model, om); if (r == UNSAT) { nInfeasibleAssume++; throw Stop(); } if (r == UNKNOWN) { incompleteMark("solver-unknown"); throw Stop(); } s->model = om; } addPC(s, z.e); return advance(s, k); }
  case BAssert: { bool sy; std::string m = cstr(s, A(1), sy); Val z = notv(binop(KEq, A(0), Val((u64)0), bits(cb->getArgOperand(0)->getType()))); assertThat(s, z, "assert", m); return advance(s, k); }
  case BObserve: { bool sy; ObsRec r; r.name = cstr(s, A(0), sy); r.buf = false; Val v = A(1); r.e.push_back(v.e); r.c.push_back(v.c); s->obs.push_back(r); return advance(s, k); }
  case BObserveBuf: { bool sy; ObsRec r; r.name = cstr(s, A(0), sy); r.buf = true; u64 n = concV(s, A(2), "observe length"); for (u64 i = 0; i < n; i++) { Val v = load(s, addP(A(1), i), 1, "vp_observe_buf"); r.e.push_back(v.e); r.c.push_back(v.c); } s->obs.push_back(r); return advance(s, k); }
  case BParam: { bool sy; std::string n = cstr(s, A(0), sy); auto it = params.find(n); return ret(it == params.end() ? A(1) : Val((u64)it->second & mask(k.w))); }
  case BReach: { bool sy; std::string n = cstr(s, A(0), sy); s->reached.push_back(n); return advance(s, k); }
  case BCut: { bool sy; std::string n = cstr(s, A(0), sy); cuts[n]++; nCuts++; throw Stop(); }
  case BCheckInit: { bool sy; std::string n = cstr(s, A(2), sy); checkInit(s, A(0), concV(s, A(1), "vp_check_init"), n); return advance(s, k); }
  case BConcretize: return ret(Val(concV(s, A(0), "vp_concretize")));
  case BLiveHeap: { u64 n = 0; for (u32 i = 1; i < s->m.next; i++) { Obj *o = s->m.get(i); if (o && o->kind == OHeap) n++; } return ret(Val(n)); }
  case BStepLimit: { u64 n = concV(s, A(0), "step limit"); s->hangWatch = n != 0; s->stepLimit = n ? s->steps + n : maxSteps; return advance(s, k); }
  case BMakeUninit: { u64 n = concV(s, A(1), "len"); Val off; Obj *o = resolve(s, A(0), n, true, off, "vp_make_uninit"); o = s->m.getW(o->base >> IDSHIFT); o->allocSeq = s->allocCount++; if (o->sym.empty()) o->sym.assign(o->size, nullptr); for (u64 i = 0; i < n; i++) o->sym[off.c + i] = UNINIT; return advance(s, k); }
  case BSame: { u64 n = concV(s, A(2), "vp_same length"); Expr *e = bytesDiffer(s, A(0), A(1), n, true); return ret(zextV(Val(e), 1, 32)); }
  case BPtrValid: { u64 a = concV(s, A(0), "pointer"), n = concV(s, A(1), "len"); Obj *o = s->m.get(a >> IDSHIFT); bool ok = o && o->kind != OFunc && a - o->base <= o->size && n <= o->size - (a - o->base); return ret(Val((u64)ok)); }
  case BSprintf: case BSnprintf: { bool sn = bi == BSnprintf; bool sy; std::string fm = cstr(s, A(sn ? 2 : 1), sy); int i = sn ? 3 : 2; std::string t = fmtArgs(s, fm, [&]() { return A(i++); }); u64 cap = sn ? concV(s, A(1), "snprintf") : 0; putStr(s, A(0), t, cap, sn); return ret(Val((u64)t.size())); }
  case BVsprintf: { bool sy; std::string fm = cstr(s, A(1), sy); Val vl = A(2); Val area = load(s, addP(vl, 8), 8, "va_list"); u64 i = 0; std::string t = fmtArgs(s, fm, [&]() { return load(s, addP(area, 8 * i++), 8, "va_arg"); }); putStr(s, A(0), t, 0, false); return ret(Val((u64)t.size())); }
  case BStrtod: { bool sy; Val p = A(0); std::string t = cstr(s, p, sy); char *e; double d = strtod(t.c_str(), &e); Val ep = A(1); u64 epc = concV(s, ep, "strtod"); if (epc) store(s, ep, 8, addP(p, e - t.c_str()), "strtod"); return ret(Val(ofD(d))); }
  case BVsnprintf: { bool sy; std::string fm = cstr(s, A(2), sy); Val vl = A(3); Val area = load(s, addP(vl, 8), 8, "va_list"); u64 i = 0; std::string t = fmtArgs(s, fm, [&]() { return load(s, addP(area, 8 * i++), 8, "va_arg"); }); putStr(s, A(0), t, concV(s, A(1), "vsnprintf"), true); return ret(Val((u64)t.size())); }
  case BSscanf: { bool sy; std::string in = cstr(s, A(0), sy), fm = cstr(s, A(1), sy); int i = 2; bool ok; u32 n = fmtSscanf(s, in, fm, [&]() { return A(i++); }, ok); if (!ok) { incompleteMark("sscanf-conversion"); throw Stop(); } return ret(Val((u64)n)); }
  case BMath1: case BMath1f: { unsigned w = k.w; Val a = A(0); if (a.conc()) return ret(Val(math_eval(arg, w, a.c, 0))); s->inexact = s->inexact; return ret(Val(C.un(KMath, a.e, w, arg))); }
  case BMath2: case BMath2f: { unsigned w = k.w; Val a = A(0), b = A(1); if (a.conc() && b.conc()) return ret(Val(math_eval(arg, w, a.c, b.c))); return ret(Val(C.un(KMath, EX(a, w), w, arg, EX(b, w)))); }
  case BAbort: report(s, "abort", "call of " + dem(F->getName()), s->model); throw Stop();
  case BNop0: case BPrintf: return ret(Val((u64)0));
  default: incompleteMark("builtin"); throw Stop();
  }
}
