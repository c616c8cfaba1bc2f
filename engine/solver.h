// Z3 back end: independence slicing, model reuse, query cache.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <memory>
#include <atomic>
#include <thread>

typedef std::vector<u8> Model;
enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
static inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Solver {
  Ctx &C; Z3_context z; Z3_solver bvS = nullptr, fpS = nullptr;
  u64 nQueries = 0, nZ3 = 0, nCacheHit = 0, nModelHit = 0, nSat = 0, nUnsat = 0, nUnknown = 0; double t = 0, tMax = 0;
  unsigned timeoutMs = 60000, fpTimeoutMs = 15000; int bvUses = 0;
  double deadline = 1e300;
  std::string dumpDir; int dumped = 0; int dumpMax = 0; double dumpMin = 0;
  std::atomic<bool> qActive{false}; std::atomic<double> qEnd{0};   // one watchdog thread instead of a z3 timer per query
  Solver(Ctx &c) : C(c) {
    std::thread([this] { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(50)); if (qActive && now() > qEnd) Z3_interrupt(z); } }).detach();
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); z = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    mkSolvers();
  }
  void setTimeout(Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p); Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms); Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p); }
  void mkSolvers() {
    if (bvS) Z3_solver_dec_ref(z, bvS);
    bvS = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV")); Z3_solver_inc_ref(z, bvS);
    if (!fpS) {
      fpS = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_FPBV"));
      Z3_solver_inc_ref(z, fpS);
    }
  }
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(z, w); }
  Z3_ast keep(Expr *e, Z3_ast a) { Z3_inc_ref(z, a); e->z = a; return a; }
  Z3_ast num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(z, v, bv(w)); }
  Z3_ast asBV(Expr *e) { Z3_ast a = tr(e); if (e->w == 1) return Z3_mk_ite(z, a, num(1, 1), num(0, 1)); return a; }
  Z3_ast toB(Z3_ast a) { return Z3_mk_eq(z, a, num(1, 1)); }
  Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(z) : Z3_mk_fpa_sort_64(z); }
  Z3_ast fp(Expr *e) { return Z3_mk_fpa_to_fp_bv(z, tr(e), fps(e->w)); }
  Expr *muxRead(Snap *s, Expr *idx, int bit, u64 pre) {
    if (bit < 0) return pre < s->b.size() ? s->b[pre] : nullptr;
    u64 lo = pre, hi = pre | mask(bit + 1);
    if (hi < idx->lo || lo > idx->hi || lo >= s->b.size()) return nullptr;
    Expr *cb = C.extract(idx, bit, 1);
    if (cb->k == KConst) return muxRead(s, idx, bit - 1, pre | (cb->val << bit));
    Expr *h = muxRead(s, idx, bit - 1, pre | (1ull << bit)), *l = muxRead(s, idx, bit - 1, pre);
    if (!h) return l; if (!l) return h; return C.ite(cb, h, l);
  }
  Z3_ast tblTree(Table *t, Expr *var, unsigned w, int bit, u32 pre) {
    if (bit < 0) return w == 1 ? (t->v[pre] ? Z3_mk_true(z) : Z3_mk_false(z)) : num(t->v[pre], w);
    bool same = true; u64 v0 = t->v[pre]; for (u32 i = 1; i < (1u << (bit + 1)); i++) if (t->v[pre + i] != v0) { same = false; break; }
    if (same) return w == 1 ? (v0 ? Z3_mk_true(z) : Z3_mk_false(z)) : num(v0, w);
    Z3_ast h = tblTree(t, var, w, bit - 1, pre | (1u << bit)), l = tblTree(t, var, w, bit - 1, pre);
    Z3_ast c = toB(Z3_mk_extract(z, bit, bit, tr(var)));
    if (h == l) return h;
    return Z3_mk_ite(z, c, h, l);
  }
  Z3_ast tr(Expr *e) {
    if (e->z) return (Z3_ast)e->z;
    Z3_ast r; unsigned w = e->w; Expr *a = e->a, *b = e->b, *c = e->c; bool bl = a && a->w == 1;
    switch (e->k) {
    case KConst: r = w == 1 ? (e->val ? Z3_mk_true(z) : Z3_mk_false(z)) : num(e->val, w); break;
    case KVar: { char n[64]; snprintf(n, 64, "v%u", e->aux); r = Z3_mk_const(z, Z3_mk_string_symbol(z, n), bv(8)); break; }
    case KTbl: r = tblTree(e->tbl, a, w, 7, 0); break;
    case KRead: { u64 hi = std::min<u64>(a->hi, e->snap->b.size() - 1); int bits = hi ? 64 - __builtin_clzll(hi) : 0; Expr *m = muxRead(e->snap, a, bits - 1, 0); if (!m) m = C.cst(0, 8); r = tr(m); break; }
    case KAdd: r = Z3_mk_bvadd(z, tr(a), tr(b)); break;
    case KSub: r = Z3_mk_bvsub(z, tr(a), tr(b)); break;
    case KMul: r = Z3_mk_bvmul(z, tr(a), tr(b)); break;
    case KUDiv: r = Z3_mk_bvudiv(z, tr(a), tr(b)); break;
    case KSDiv: r = Z3_mk_bvsdiv(z, tr(a), tr(b)); break;
    case KURem: r = Z3_mk_bvurem(z, tr(a), tr(b)); break;
    case KSRem: r = Z3_mk_bvsrem(z, tr(a), tr(b)); break;
    case KAnd: if (bl) { Z3_ast x[2] = {tr(a), tr(b)}; r = Z3_mk_and(z, 2, x); } else r = Z3_mk_bvand(z, tr(a), tr(b)); break;
    case KOr: if (bl) { Z3_ast x[2] = {tr(a), tr(b)}; r = Z3_mk_or(z, 2, x); } else r = Z3_mk_bvor(z, tr(a), tr(b)); break;
    case KXor: if (bl) { if (a->k == KConst) r = Z3_mk_not(z, tr(b)); else r = Z3_mk_xor(z, tr(a), tr(b)); } else r = Z3_mk_bvxor(z, tr(a), tr(b)); break;
    case KShl: r = Z3_mk_bvshl(z, asBV(a), asBV(b)); if (w == 1) r = toB(r); break;
    case KLShr: r = Z3_mk_bvlshr(z, asBV(a), asBV(b)); if (w == 1) r = toB(r); break;
    case KAShr: r = Z3_mk_bvashr(z, asBV(a), asBV(b)); if (w == 1) r = toB(r); break;
    case KEq: r = Z3_mk_eq(z, tr(a), tr(b)); break;
    case KUlt: r = Z3_mk_bvult(z, asBV(a), asBV(b)); break;
    case KUle: r = Z3_mk_bvule(z, asBV(a), asBV(b)); break;
    case KSlt: r = Z3_mk_bvslt(z, asBV(a), asBV(b)); break;
    case KSle: r = Z3_mk_bvsle(z, asBV(a), asBV(b)); break;
    case KIte: r = Z3_mk_ite(z, tr(a), tr(b), tr(c)); break;
    case KConcat: r = Z3_mk_concat(z, asBV(a), asBV(b)); break;
    case KExtract: r = Z3_mk_extract(z, e->aux + w - 1, e->aux, asBV(a)); if (w == 1) r = toB(r); break;
    case KZExt: r = bl ? Z3_mk_ite(z, tr(a), num(1, w), num(0, w)) : Z3_mk_zero_ext(z, w - a->w, tr(a)); break;
    case KSExt: r = bl ? Z3_mk_ite(z, tr(a), num(mask(w), w), num(0, w)) : Z3_mk_sign_ext(z, w - a->w, tr(a)); break;
    case KFAdd: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_add(z, Z3_mk_fpa_rne(z), fp(a), fp(b))); break;
    case KFSub: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_sub(z, Z3_mk_fpa_rne(z), fp(a), fp(b))); break;
    case KFMul: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_mul(z, Z3_mk_fpa_rne(z), fp(a), fp(b))); break;
    case KFDiv: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_div(z, Z3_mk_fpa_rne(z), fp(a), fp(b))); break;
    case KFOeq: r = Z3_mk_fpa_eq(z, fp(a), fp(b)); break;
    case KFOlt: r = Z3_mk_fpa_lt(z, fp(a), fp(b)); break;
    case KFOle: r = Z3_mk_fpa_leq(z, fp(a), fp(b)); break;
    case KFUno: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(z, fp(a)), Z3_mk_fpa_is_nan(z, fp(b))}; r = Z3_mk_or(z, 2, x); break; }
    case KFExt: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_float(z, Z3_mk_fpa_rne(z), fp(a), fps(64))); break;
    case KFTrunc: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_float(z, Z3_mk_fpa_rne(z), fp(a), fps(32))); break;
    case KFToSI: { // x86 cvttss2si: integer indefinite on NaN / out of range
      Z3_ast f = fp(a); double lim = w == 32 ? 2147483648.0 : 9223372036854775808.0; Z3_sort s = fps(a->w);
      Z3_ast hiL = Z3_mk_fpa_lt(z, f, Z3_mk_fpa_numeral_double(z, lim, s));
      Z3_ast loL = (w == 32 && a->w == 64) ? Z3_mk_fpa_gt(z, f, Z3_mk_fpa_numeral_double(z, -2147483649.0, s)) : Z3_mk_fpa_geq(z, f, Z3_mk_fpa_numeral_double(z, -lim, s));
      Z3_ast ok[2] = {hiL, loL};
      r = Z3_mk_ite(z, Z3_mk_and(z, 2, ok), Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), f, w), num(1ull << (w - 1), w)); break; }
    case KFToUI: { Z3_ast f = fp(a); Z3_sort s = fps(a->w); Z3_ast ok[2] = {Z3_mk_fpa_lt(z, f, Z3_mk_fpa_numeral_double(z, 18446744073709551616.0, s)), Z3_mk_fpa_gt(z, f, Z3_mk_fpa_numeral_double(z, -1.0, s))};
      r = Z3_mk_ite(z, Z3_mk_and(z, 2, ok), Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_rtz(z), f, w), num(1ull << (w - 1), w)); break; }
    case KSIToF: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_signed(z, Z3_mk_fpa_rne(z), asBV(a), fps(w))); break;
    case KUIToF: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_unsigned(z, Z3_mk_fpa_rne(z), asBV(a), fps(w))); break;
    case KFSqrt: r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_sqrt(z, Z3_mk_fpa_rne(z), fp(a))); break;
    case KFRound: { Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(z) : e->aux == 1 ? Z3_mk_fpa_rtp(z) : e->aux == 2 ? Z3_mk_fpa_rtz(z) : e->aux == 3 ? Z3_mk_fpa_rne(z) : Z3_mk_fpa_rna(z); r = Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_round_to_integral(z, rm, fp(a))); break; }
    case KMath: { // uninterpreted: fresh function per (id)
      char n[32]; snprintf(n, 32, "math%u_%u", e->aux, w); Z3_sort dom[2] = {bv(a->w), b ? bv(b->w) : nullptr}; Z3_func_decl f = Z3_mk_func_decl(z, Z3_mk_string_symbol(z, n), b ? 2 : 1, dom, bv(w)); Z3_ast args[2] = {tr(a), b ? tr(b) : nullptr}; r = Z3_mk_app(z, f, b ? 2 : 1, args); break; }
    default: abort();
    }
    return keep(e, r);
  }
  // ---- slicing
  std::vector<u32> mark; u32 stamp = 0;
  void slice(const std::vector<Expr*> &pc, Expr *cond, std::vector<Expr*> &out) {
    if (mark.size() < C.vars.size()) mark.resize(C.vars.size() + 256, 0);
    stamp++; for (u32 v : *cond->sup) mark[v] = stamp;
    std::vector<u8> used(pc.size(), 0); bool ch = true;
    while (ch) { ch = false;
      for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : *pc[i]->sup) if (mark[v] == stamp) { hit = true; break; }
        if (hit) { used[i] = 1; ch = true; out.push_back(pc[i]); for (u32 v : *pc[i]->sup) mark[v] = stamp; } } }
  }
  struct CE { std::vector<u32> key; Res r; std::vector<std::pair<u32, u8>> m; };
  std::unordered_multimap<u64, CE> cache;
  std::vector<std::shared_ptr<Model>> recent; size_t rpos = 0;

  // Is pc & cond satisfiable?  `base` satisfies pc; on SAT, out = model of pc & cond.
  Res check(const std::vector<Expr*> &pc, Expr *cond, const Model &base, Model &out) {
    nQueries++;
    if (cond->k == KConst) { if (cond->val) { out = base; return SAT; } return UNSAT; }
    if (C.eval(cond, base)) { out = base; nModelHit++; return SAT; }
    std::vector<Expr*> cs; slice(pc, cond, cs); cs.push_back(cond);
    std::vector<u32> key; for (Expr *e : cs) key.push_back(e->id); std::sort(key.begin(), key.end());
    u64 h = 1469598103934665603ull; for (u32 x : key) h = (h ^ x) * 1099511628211ull;
    auto rg = cache.equal_range(h);
    for (auto i = rg.first; i != rg.second; ++i) if (i->second.key == key) { nCacheHit++; if (i->second.r == SAT) { out = base; apply(out, i->second.m); } return i->second.r; }
    // recent models
    for (size_t i = 0; i < recent.size() && i < 12; i++) { const Model &m = *recent[(rpos + recent.size() - 1 - i) % recent.size()]; C.epoch++; bool ok = true; for (size_t j = cs.size(); j-- > 0;) if (!C.ev1(cs[j], m)) { ok = false; break; }
      if (ok) { nModelHit++; out = base; for (Expr *e : cs) for (u32 v : *e->sup) setm(out, v, v < m.size() ? m[v] : 0); return SAT; } }
    std::vector<std::pair<u32, u8>> mm; Res r = UNKNOWN; if (!smallDomain(cs, mm, r) && !fpSearch(cs, mm, r)) r = z3check(cs, mm);
    if (r != UNKNOWN) cache.emplace(h, CE{key, r, mm});
    if (r == SAT) { out = base; apply(out, mm); auto sp = std::make_shared<Model>(out); if (recent.size() < 12) { recent.push_back(sp); rpos = 0; } else { recent[rpos] = sp; rpos = (rpos + 1) % 12; } }
    return r;
  }
  // Floating-point constraints over at most two input bytes: decided by evaluating the formula over its whole domain.
  u64 nSmall = 0; double tSmall = 0;
  bool smallDomain(const std::vector<Expr*> &cs, std::vector<std::pair<u32, u8>> &mm, Res &r) {
    bool isfp = false; std::vector<u32> vs; for (Expr *e : cs) { isfp |= e->fp; for (u32 v : *e->sup) if (std::find(vs.begin(), vs.end(), v) == vs.end()) { vs.push_back(v); if (vs.size() > 2) return false; } }
    if (!isfp || vs.empty()) return false;
    double t0 = now(); Model m; for (u32 v : vs) setm(m, v, 0); u64 n = 1ull << (8 * vs.size()); r = UNSAT; nSmall++;
    for (u64 i = 0; i < n; i++) { m[vs[0]] = (u8)i; if (vs.size() > 1) m[vs[1]] = (u8)(i >> 8); C.epoch++; bool ok = true; for (size_t j = cs.size(); j-- > 0;) if (!C.ev1(cs[j], m)) { ok = false; break; }
      if (ok) { r = SAT; for (u32 v : vs) mm.push_back({v, m[v]}); break; } }
    double d = now() - t0; t += d; tSmall += d; if (r == SAT) nSat++; else nUnsat++;
    return true;
  }
  // Floating point over more bytes: look for a model among corner and random values before asking z3 (a found model is checked by evaluation).
  u64 rng = 88172645463325252ull; u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
  bool fpSearch(const std::vector<Expr*> &cs, std::vector<std::pair<u32, u8>> &mm, Res &r) {
    bool isfp = false; std::vector<u32> vs; for (Expr *e : cs) { isfp |= e->fp; vs.insert(vs.end(), e->sup->begin(), e->sup->end()); }
    if (!isfp) return false; std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end()); if (vs.size() > 64) return false;
    double t0 = now(); Model m; for (u32 v : vs) setm(m, v, 0); static const u8 corner[] = {0, 255, 1, 127, 128, 254, 63, 191};
    for (int i = 0; i < 4000 && now() - t0 < 0.5; i++) {
      for (u32 v : vs) { u64 x = rnd(); m[v] = (i & 3) == 0 || (x >> 60) < 4 ? corner[(x >> 8) & 7] : (u8)(x >> 20); }
      C.epoch++; bool ok = true; for (size_t j = cs.size(); j-- > 0;) if (!C.ev1(cs[j], m)) { ok = false; break; }
      if (ok) { r = SAT; for (u32 v : vs) mm.push_back({v, m[v]}); nSat++; t += now() - t0; return true; } }
    t += now() - t0; return false;
  }
  static void setm(Model &m, u32 v, u8 x) { if (v >= m.size()) m.resize(v + 1, 0); m[v] = x; }
  void apply(Model &m, const std::vector<std::pair<u32, u8>> &a) { for (auto &p : a) setm(m, p.first, p.second); }
  Res z3check(const std::vector<Expr*> &cs, std::vector<std::pair<u32, u8>> &mm) {
    double t0 = now(); nZ3++;
    bool isfp = false; for (Expr *e : cs) isfp |= e->fp;
    double left = deadline - t0; if (left < 0.5) left = 0.5;
    Z3_solver s;
    if (isfp) s = fpS; else { if (++bvUses > 3000) { mkSolvers(); bvUses = 0; } s = bvS; }
    unsigned to = isfp ? fpTimeoutMs : timeoutMs; if (to > left * 1000) to = (unsigned)(left * 1000); qEnd = t0 + to / 1000.0;
    Z3_solver_push(z, s);
    for (Expr *e : cs) Z3_solver_assert(z, s, tr(e));
    if (!dumpDir.empty() && !isfp && dumped < dumpMax) { char fn[512]; snprintf(fn, 512, "%s/q%05d.smt2", dumpDir.c_str(), dumped++); FILE *f = fopen(fn, "w"); if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(z, s)); fclose(f); } lastDump = fn; } else lastDump.clear();
    qActive = true; Z3_lbool lb = Z3_solver_check(z, s); qActive = false;
    Res r = lb == Z3_L_TRUE ? SAT : lb == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (r == SAT) {
      Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m);
      std::vector<u32> vs; for (Expr *e : cs) vs.insert(vs.end(), e->sup->begin(), e->sup->end()); std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
      for (u32 v : vs) { Z3_ast val; u64 x = 0; if (Z3_model_eval(z, m, tr(C.varExpr[v]), true, &val)) Z3_get_numeral_uint64(z, val, (uint64_t*)&x); mm.push_back({v, (u8)x}); }
      Z3_model_dec_ref(z, m);
    }
    Z3_solver_pop(z, s, 1);
    if (!lastDump.empty()) { FILE *f = fopen(lastDump.c_str(), "a"); if (f) { fprintf(f, "; devsym: %s\n", r == SAT ? "sat" : r == UNSAT ? "unsat" : "unknown"); fclose(f); } }
    if (r == SAT) { // validate the model against our own semantics
      Model m; apply(m, mm); C.epoch++; for (Expr *e : cs) if (!C.ev1(e, m)) { badModel++; r = UNKNOWN; break; }
    }
    double d = now() - t0; t += d; tMax = std::max(tMax, d);
    if (r == SAT) nSat++; else if (r == UNSAT) nUnsat++; else nUnknown++;
    return r;
  }
  u64 badModel = 0; std::string lastDump;
};
