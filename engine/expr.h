// Hash-consed bit-vector / IEEE expression DAG for devsym.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <unordered_map>
#include <string>
#include <algorithm>
#include <cassert>
#include <cfenv>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Kind : u8 { KConst, KVar, KTbl, KRead, KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor,
  KShl, KLShr, KAShr, KEq, KUlt, KUle, KSlt, KSle, KIte, KConcat, KExtract, KZExt, KSExt,
  KFAdd, KFSub, KFMul, KFDiv, KFOeq, KFOlt, KFOle, KFUno, KFExt, KFTrunc, KFToSI, KFToUI, KSIToF, KUIToF,
  KFSqrt, KFRound /*aux: 0 floor 1 ceil 2 trunc 3 rint(RNE) 4 round(RNA)*/, KMath /*aux: function id*/ };

struct Sup : std::vector<u32> { u32 id = 0; };     // sorted var ids, interned

struct Expr;
struct Table { std::vector<u64> v; u32 id; };                  // 256 entries
struct Snap { std::vector<Expr*> b; u32 id; const Sup *sup; };  // byte array snapshot

struct Expr {
  Kind k; u8 w; u32 aux; u32 id; u32 hash;
  Expr *a, *b, *c;
  u64 val;              // const value
  u64 kz, ko;           // known zero / known one
  u64 lo, hi;           // unsigned range
  const Sup *sup;
  union { Table *tbl; Snap *snap; };
  bool ctl;             // every leaf outside conditions is a constant (counters, lengths, positions)
  Expr *nx;             // hash chain
  bool fp;              // contains FP operation (not tabulated)
  u32 epoch; u64 ev;    // evaluation memo
  u32 sepoch; Expr *se; // substitution memo
  u32 repoch; Expr *re; // rewriting memo
  void *z;              // Z3_ast
  u32 size;             // rough dag size (saturating)
};

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sext(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= mask(w); return (i64)((v ^ m) - m); }
static inline float asF(u64 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static inline double asD(u64 v) { double f; memcpy(&f, &v, 8); return f; }
static inline u64 ofF(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static inline u64 ofD(double f) { u64 x; memcpy(&x, &f, 8); return x; }

u64 math_eval(u32 fn, unsigned w, u64 a, u64 b);   // libm, defined in exec.cpp

// ---- concrete semantics of every operator (shared by folding, evaluation and tabulation)
static inline u64 fp_to_int(double d, unsigned w, bool sg) {
  // x86-64 semantics for the cases LLVM leaves undefined (what the compiled program does):
  // narrow results go through cvttss2si of 32/64 bits.
  if (sg) {
    if (w <= 32) { int32_t r; if (std::isnan(d) || d >= 2147483648.0 || d <= -2147483649.0) r = INT32_MIN; else r = (int32_t)d; return (u64)(i64)r & mask(w); }
    i64 r; if (std::isnan(d) || d >= 9223372036854775808.0 || d < -9223372036854775808.0) r = INT64_MIN; else r = (i64)d; return (u64)r & mask(w);
  }
  if (w <= 16) { int32_t r; if (std::isnan(d) || d >= 2147483648.0 || d <= -2147483649.0) r = INT32_MIN; else r = (int32_t)d; return (u64)(i64)r & mask(w); }
  if (w <= 32) { i64 r; if (std::isnan(d) || d >= 9223372036854775808.0 || d < -9223372036854775808.0) r = INT64_MIN; else r = (i64)d; return (u64)r & mask(w); }
  if (std::isnan(d)) return 1ull << 63;
  if (d < 9223372036854775808.0) { i64 r = d < -9223372036854775808.0 ? INT64_MIN : (i64)d; return (u64)r; }
  if (d >= 18446744073709551616.0) return 1ull << 63; // implementation artefact
  return (u64)d;
}
static inline u64 op_eval(Kind k, unsigned w, u32 aux, unsigned wa, u64 a, u64 b, u64 c, unsigned wb) {
  switch (k) {
  case KAdd: return (a + b) & mask(w);
  case KSub: return (a - b) & mask(w);
  case KMul: return (a * b) & mask(w);
  case KUDiv: return b ? a / b : mask(w);
  case KSDiv: { i64 x = sext(a, w), y = sext(b, w); if (!y) return (x < 0 ? 1 : mask(w)) & mask(w); if (y == -1) return (0 - (u64)x) & mask(w); return (u64)(x / y) & mask(w); }
  case KURem: return b ? a % b : a;
  case KSRem: { i64 x = sext(a, w), y = sext(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & mask(w); }
  case KAnd: return a & b;
  case KOr: return a | b;
  case KXor: return a ^ b;
  case KShl: return b >= w ? 0 : (a << b) & mask(w);
  case KLShr: return b >= w ? 0 : a >> b;
  case KAShr: { i64 x = sext(a, w); return (u64)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & mask(w); }
  case KEq: return a == b;
  case KUlt: return a < b;
  case KUle: return a <= b;
  case KSlt: return sext(a, wa) < sext(b, wa);
  case KSle: return sext(a, wa) <= sext(b, wa);
  case KIte: return a ? b : c;
  case KConcat: return ((a << wb) | b) & mask(w);
  case KExtract: return (a >> aux) & mask(w);
  case KZExt: return a;
  case KSExt: return (u64)sext(a, wa) & mask(w);
  case KFAdd: return w == 32 ? ofF(asF(a) + asF(b)) : ofD(asD(a) + asD(b));
  case KFSub: return w == 32 ? ofF(asF(a) - asF(b)) : ofD(asD(a) - asD(b));
  case KFMul: return w == 32 ? ofF(asF(a) * asF(b)) : ofD(asD(a) * asD(b));
  case KFDiv: return w == 32 ? ofF(asF(a) / asF(b)) : ofD(asD(a) / asD(b));
  case KFOeq: return wa == 32 ? asF(a) == asF(b) : asD(a) == asD(b);
  case KFOlt: return wa == 32 ? asF(a) < asF(b) : asD(a) < asD(b);
  case KFOle: return wa == 32 ? asF(a) <= asF(b) : asD(a) <= asD(b);
  case KFUno: return wa == 32 ? (std::isnan(asF(a)) || std::isnan(asF(b))) : (std::isnan(asD(a)) || std::isnan(asD(b)));
  case KFExt: return ofD((double)asF(a));
  case KFTrunc: return ofF((float)asD(a));
  case KFToSI: return fp_to_int(wa == 32 ? (double)asF(a) : asD(a), w, true);
  case KFToUI: return fp_to_int(wa == 32 ? (double)asF(a) : asD(a), w, false);
  case KSIToF: return w == 32 ? ofF((float)sext(a, wa)) : ofD((double)sext(a, wa));
  case KUIToF: return w == 32 ? ofF((float)a) : ofD((double)a);
  case KFSqrt: return w == 32 ? ofF(sqrtf(asF(a))) : ofD(sqrt(asD(a)));
  case KFRound: { double d = w == 32 ? asF(a) : asD(a); switch (aux) { case 0: d = floor(d); break; case 1: d = ceil(d); break; case 2: d = trunc(d); break; case 3: d = nearbyint(d); break; default: d = round(d); } return w == 32 ? ofF((float)d) : ofD(d); }
  case KMath: return math_eval(aux, w, a, b);
  default: abort();
  }
}

struct VarInfo { std::string name; u32 index; bool uninit; };

struct Ctx {
  std::vector<VarInfo> vars;
  std::vector<Expr*> varExpr;
  std::vector<Expr*> tab = std::vector<Expr*>(1 << 16, nullptr); size_t nTab = 0; Expr *arena = nullptr; size_t arenaN = 0;
  std::unordered_map<u64, const Sup*> supUnion; u32 nSup = 0;
  std::unordered_multimap<u64, Sup*> supIntern;
  std::unordered_multimap<u64, Table*> tblIntern;
  std::unordered_multimap<u64, Snap*> snapIntern;
  const Sup *supEmpty;
  u32 nextId = 1, epoch = 1, sepoch = 1;
  u64 nTabulated = 0;
  Ctx() { supEmpty = internSup(std::vector<u32>()); }

  const Sup *internSup(const std::vector<u32> &s) {
    u64 h = 1469598103934665603ull; for (u32 x : s) h = (h ^ x) * 1099511628211ull;
    auto r = supIntern.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) if ((const std::vector<u32>&)*i->second == s) return i->second;
    Sup *n = new Sup(); n->assign(s.begin(), s.end()); n->id = nSup++; supIntern.emplace(h, n); return n;
  }
  const Sup *supU(const Sup *x, const Sup *y) {
    if (x == y || y->empty()) return x; if (x->empty()) return y;
    if (x->id > y->id) std::swap(x, y);
    u64 key = ((u64)x->id << 32) | y->id;
    auto it = supUnion.find(key); if (it != supUnion.end()) return it->second;
    std::vector<u32> r; std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
    const Sup *s = internSup(r); supUnion[key] = s; return s;
  }
  Expr *cst(u64 v, unsigned w) { return mk(KConst, w, 0, nullptr, nullptr, nullptr, v & mask(w), nullptr); }
  Expr *newVar(const std::string &name, u32 idx, bool uninit) {
    u32 id = vars.size(); vars.push_back({name, idx, uninit});
    Expr *e = mk(KVar, 8, id, nullptr, nullptr, nullptr, 0, nullptr); varExpr.push_back(e); return e;
  }

  static bool fewVals(Table *t) { u64 ds[4]; int n = 0; for (u64 x : t->v) { bool in = false; for (int i = 0; i < n; i++) if (ds[i] == x) { in = true; break; } if (!in) { if (n == 4) return false; ds[n++] = x; } } return true; }
  // raw, hash-consing
  Expr *mk(Kind k, unsigned w, u32 aux, Expr *a, Expr *b, Expr *c, u64 val, void *ext) {
    u64 h = (u64)k * 0x9E3779B97F4A7C15ull; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(w); mix(aux); mix(a ? a->id : 0); mix(b ? b->id : 0); mix(c ? c->id : 0); mix(val); mix((u64)(uintptr_t)ext);
    u32 hh = (u32)(h ^ (h >> 32));
    for (Expr *e = tab[hh & (tab.size() - 1)]; e; e = e->nx) {
      if (e->hash == hh && e->k == k && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c && e->val == val && (void*)e->tbl == ext) return e; }
    if (!arenaN) { arenaN = 4096; arena = (Expr*)calloc(arenaN, sizeof(Expr)); }
    Expr *e = arena++; arenaN--;
    e->k = k; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->val = val; e->tbl = (Table*)ext; e->id = nextId++; e->hash = hh;
    const Sup *s = supEmpty; if (k == KVar) { s = internSup(std::vector<u32>(1, aux)); } else { if (a) s = supU(s, a->sup); if (b) s = supU(s, b->sup); if (c) s = supU(s, c->sup); if (k == KRead) s = supU(s, ((Snap*)ext)->sup); }
    e->sup = s;
    e->fp = (k >= KFAdd) || (a && a->fp) || (b && b->fp) || (c && c->fp);
    u64 sz = 1 + (a ? a->size : 0) + (b ? b->size : 0) + (c ? c->size : 0); e->size = sz > 1000000000 ? 1000000000 : sz;
    if (k == KRead) for (Expr *x : ((Snap*)ext)->b) { e->fp |= x->fp; }
    facts(e);
    e->ctl = k == KConst || w == 1 ? true : k == KVar || k == KRead ? false : k == KIte ? b->ctl && c->ctl : k == KTbl ? fewVals((Table*)ext) : (!a || a->ctl) && (!b || b->ctl) && (!c || c->ctl);
    if (++nTab > tab.size()) { std::vector<Expr*> n(tab.size() * 4, nullptr); for (Expr *x : tab) while (x) { Expr *y = x->nx; Expr *&sl = n[x->hash & (n.size() - 1)]; x->nx = sl; sl = x; x = y; } tab.swap(n); }
    Expr *&sl = tab[hh & (tab.size() - 1)]; e->nx = sl; sl = e;
    return e;
  }
  void facts(Expr *e) {
    u64 m = mask(e->w); e->kz = ~m; e->ko = 0; e->lo = 0; e->hi = m;
    Expr *a = e->a, *b = e->b, *c = e->c;
    switch (e->k) {
    case KConst: e->ko = e->val; e->kz = ~e->val; e->lo = e->hi = e->val; return;
    case KTbl: { u64 o = m, z = 0, lo = m, hi = 0; for (u64 v : e->tbl->v) { o &= v; z |= v; lo = std::min(lo, v); hi = std::max(hi, v); } e->ko = o; e->kz = ~z; e->lo = lo; e->hi = hi; return; }
    case KRead: { u64 o = m, z = 0, lo = m, hi = 0; for (Expr *x : e->snap->b) { o &= x->ko; z |= ~x->kz; lo = std::min(lo, x->lo); hi = std::max(hi, x->hi); } e->ko = o; e->kz = ~(z & m); e->lo = lo; e->hi = hi; break; }
    case KAnd: e->ko = a->ko & b->ko; e->kz |= a->kz | b->kz; e->hi = std::min(a->hi, b->hi); break;
    case KOr: e->ko = a->ko | b->ko; e->kz = (a->kz & b->kz) | ~m; e->lo = std::max(a->lo, b->lo); break;
    case KXor: e->ko = (a->ko & b->kz) | (a->kz & b->ko); e->kz = (a->ko & b->ko) | (a->kz & b->kz) | ~m; e->ko &= m; break;
    case KIte: e->ko = b->ko & c->ko; e->kz = (b->kz & c->kz) | ~m; e->lo = std::min(b->lo, c->lo); e->hi = std::max(b->hi, c->hi); break;
    case KConcat: e->ko = (a->ko << b->w) | b->ko; e->kz = ((a->kz << b->w) | (b->kz & mask(b->w))) | ~m; e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
    case KExtract: e->ko = (a->ko >> e->aux) & m; e->kz = (a->kz >> e->aux) | ~m; if (e->aux == 0 && a->hi <= m) { e->lo = a->lo; e->hi = a->hi; } else if (a->hi >> e->aux <= m) { e->lo = a->lo >> e->aux; e->hi = a->hi >> e->aux; } break;
    case KZExt: e->ko = a->ko; e->kz = a->kz | ~mask(a->w); e->lo = a->lo; e->hi = a->hi; break;
    case KSExt: { u64 sb = 1ull << (a->w - 1); u64 am = mask(a->w), up = m & ~am; e->ko = a->ko & am; e->kz = (a->kz & am) | ~m; if (a->kz & sb) { e->kz |= up; e->lo = a->lo; e->hi = a->hi; } else if (a->ko & sb) { e->ko |= up; e->lo = a->lo | up; e->hi = a->hi | up; } break; }
    case KAdd: { u64 s = a->hi + b->hi; if (s >= a->hi && s <= m) { e->lo = a->lo + b->lo; e->hi = s; }
      u64 kn = (a->ko | a->kz) & (b->ko | b->kz); unsigned t = kn == ~0ull ? 64 : __builtin_ctzll(~kn); if (t) { u64 tm = mask(t); u64 s2 = (a->ko + b->ko) & tm; e->ko |= s2 & m; e->kz |= (~s2) & tm; } break; }
    case KSub: { if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; }
      u64 kn = (a->ko | a->kz) & (b->ko | b->kz); unsigned t = kn == ~0ull ? 64 : __builtin_ctzll(~kn); if (t) { u64 tm = mask(t); u64 s2 = (a->ko - b->ko) & tm; e->ko |= s2 & m; e->kz |= (~s2) & tm; } break; }
    case KMul: { unsigned __int128 p = (unsigned __int128)a->hi * b->hi; if (p <= m) { e->lo = a->lo * b->lo; e->hi = (u64)p; }
      unsigned tz = std::min(64, (a->kz == ~0ull ? 64 : __builtin_ctzll(~a->kz)) + (b->kz == ~0ull ? 64 : __builtin_ctzll(~b->kz))); if (tz) e->kz |= mask(tz); break; }
    case KUDiv: if (b->lo) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case KURem: if (b->lo) { e->hi = std::min(a->hi, b->hi - 1); } break;
    case KShl: if (b->k == KConst && b->val < e->w) { e->ko = (a->ko << b->val) & m; e->kz = (a->kz << b->val) | mask(b->val) | ~m; if (a->hi <= (m >> b->val)) { e->lo = a->lo << b->val; e->hi = a->hi << b->val; } } break;
    case KLShr: if (b->k == KConst && b->val < e->w) { e->ko = a->ko >> b->val; e->kz = (a->kz >> b->val) | ~(m >> b->val); e->lo = a->lo >> b->val; e->hi = a->hi >> b->val; } else e->hi = a->hi; break;
    case KAShr: if (a->kz >> (e->w - 1) & 1) { e->hi = a->hi; if (b->k == KConst && b->val < e->w) { e->lo = a->lo >> b->val; e->hi = a->hi >> b->val; } } break;
    case KUIToF: case KSIToF: break;
    default: break;
    }
    // combine
    u64 khi = ~e->kz & m; if (khi < e->hi) e->hi = khi; if (e->ko > e->lo) e->lo = e->ko;
    if (e->hi != m) { unsigned nb = e->hi ? 64 - __builtin_clzll(e->hi) : 0; e->kz |= ~mask(nb); if (nb == 0) e->kz = ~0ull; }
  }
  bool isC(Expr *e) { return e->k == KConst; }
  bool isC(Expr *e, u64 v) { return e->k == KConst && e->val == v; }

  Table *internTbl(std::vector<u64> &v) {
    u64 h = 1469598103934665603ull; for (u64 x : v) h = (h ^ x ^ (x >> 32)) * 1099511628211ull;
    auto r = tblIntern.equal_range(h); for (auto i = r.first; i != r.second; ++i) if (i->second->v == v) return i->second;
    Table *t = new Table{v, (u32)tblIntern.size()}; tblIntern.emplace(h, t); return t;
  }
  Snap *internSnap(std::vector<Expr*> &v) {
    u64 h = 1469598103934665603ull; for (Expr *x : v) h = (h ^ x->id) * 1099511628211ull;
    auto r = snapIntern.equal_range(h); for (auto i = r.first; i != r.second; ++i) if (i->second->b == v) return i->second;
    const Sup *s = supEmpty; for (Expr *x : v) s = supU(s, x->sup);
    Snap *t = new Snap{v, (u32)snapIntern.size(), s}; snapIntern.emplace(h, t); return t;
  }
  // Tabulate an expression of a single byte variable.
  Expr *tabulate(Expr *e) {
    if (e->sup->size() != 1 || e->k == KTbl || e->k == KConst) return e;
    u32 var = (*e->sup)[0]; std::vector<u64> v(256); std::vector<u8> m(vars.size(), 0);
    for (int i = 0; i < 256; i++) { m[var] = i; v[i] = eval(e, m); }
    return mkTbl(var, v, e->w);
  }
  Expr *mkTbl(u32 var, std::vector<u64> &v, unsigned w) {
    bool same = true; for (int i = 1; i < 256; i++) if (v[i] != v[0]) { same = false; break; }
    if (same) return cst(v[0], w);
    nTabulated++;
    bool ident = w == 8; for (int i = 0; ident && i < 256; i++) if (v[i] != (u64)i) ident = false;
    if (ident) return varExpr[var];
    if (w > 8) { bool id2 = true; for (int i = 0; i < 256; i++) if (v[i] != (u64)i) { id2 = false; break; } if (id2) return zext(varExpr[var], w); }
    return mk(KTbl, w, var, varExpr[var], nullptr, nullptr, 0, internTbl(v));
  }
  static bool hasTblChild(Expr *a, Expr *b, Expr *c) { return (a && a->k == KTbl) || (b && b->k == KTbl) || (c && c->k == KTbl); }

  Expr *bin(Kind k, Expr *a, Expr *b) {
    bool cmp = (k >= KEq && k <= KSle) || (k >= KFOeq && k <= KFUno); unsigned w = cmp ? 1 : a->w;
    assert(a->w == b->w);
    if (isC(a) && isC(b)) return cst(op_eval(k, w, 0, a->w, a->val, b->val, 0, b->w), w);
    if ((k >= KFAdd || hasTblChild(a, b, nullptr)) && supU(a->sup, b->sup)->size() == 1) {
      // single-byte function: tabulate exactly
      u32 var = (*supU(a->sup, b->sup))[0]; std::vector<u64> v(256); std::vector<u8> m(vars.size(), 0);
      for (int i = 0; i < 256; i++) { m[var] = i; epoch++; u64 x = ev1(a, m), y = ev1(b, m); v[i] = op_eval(k, w, 0, a->w, x, y, 0, b->w); }
      return mkTbl(var, v, w);
    }
    u64 m = mask(w);
    switch (k) {
    case KAdd:
      if (isC(b)) std::swap(a, b);
      if (isC(a, 0)) return b;
      if (isC(a) && b->k == KAdd && isC(b->a)) return bin(KAdd, cst(a->val + b->a->val, w), b->b);
      if (isC(a) && b->k == KSub && isC(b->a)) return bin(KSub, cst(a->val + b->a->val, w), b->b);
      if (b->k == KAdd && isC(b->a) && !isC(a)) return bin(KAdd, b->a, bin(KAdd, a, b->b));
      if (a->k == KAdd && isC(a->a)) return bin(KAdd, a->a, bin(KAdd, a->b, b));
      if (b->k == KSub && b->b == a) return b->a;
      if (a->k == KSub && a->b == b) return a->a;
      if (isC(a) && b->k == KIte && isC(b->b) && isC(b->c)) return ite(b->a, bin(KAdd, a, b->b), bin(KAdd, a, b->c));
      if (w == 1) return bin(KXor, a, b);
      if (!isC(a) && a->id > b->id) std::swap(a, b);
      break;
    case KSub:
      if (a == b) return cst(0, w);
      if (isC(b)) return bin(KAdd, cst(0 - b->val, w), a);
      if (a->k == KAdd && a->a == b) return a->b;
      if (a->k == KAdd && a->b == b) return a->a;
      if (a->k == KAdd && isC(a->a)) return bin(KAdd, a->a, bin(KSub, a->b, b));
      if (b->k == KAdd && isC(b->a)) return bin(KAdd, cst(0 - b->a->val, w), bin(KSub, a, b->b));
      if (w == 1) return bin(KXor, a, b);
      break;
    case KMul:
      if (isC(b)) std::swap(a, b);
      if (isC(a, 0)) return a; if (isC(a, 1)) return b;
      if (isC(a) && b->k == KMul && isC(b->a)) return bin(KMul, cst(a->val * b->a->val, w), b->b);
      if (isC(a) && (a->val & (a->val - 1)) == 0) return bin(KShl, b, cst(__builtin_ctzll(a->val), w));
      if (isC(a) && b->k == KIte && isC(b->b) && isC(b->c)) return ite(b->a, bin(KMul, a, b->b), bin(KMul, a, b->c));
      if (w == 1) return bin(KAnd, a, b);
      if (!isC(a) && a->id > b->id) std::swap(a, b);
      break;
    case KUDiv:
      if (isC(b, 1)) return a;
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(KLShr, a, cst(__builtin_ctzll(b->val), w));
      if (isC(b) && a->hi < b->val) return cst(0, w);
      if (isC(b) && a->k == KZExt && b->val <= mask(a->a->w)) return zext(bin(KUDiv, a->a, cst(b->val, a->a->w)), w);
      break;
    case KURem:
      if (isC(b, 1)) return cst(0, w);
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(KAnd, a, cst(b->val - 1, w));
      if (b->lo && a->hi < b->lo) return a;
      if (isC(b) && a->k == KZExt && b->val <= mask(a->a->w)) return zext(bin(KURem, a->a, cst(b->val, a->a->w)), w);
      break;
    case KSDiv: case KSRem:
      if (isC(b, 1)) return k == KSDiv ? a : cst(0, w);
      if (!(a->hi >> (w - 1)) && !(b->hi >> (w - 1))) return bin(k == KSDiv ? KUDiv : KURem, a, b);
      break;
    case KAnd:
      if (isC(b)) std::swap(a, b);
      if (a == b) return a;
      if (isC(a)) { if (a->val == 0) return a; if (a->val == m) return b; if ((~b->kz & m & ~a->val) == 0) return b; if ((b->kz & a->val) == a->val) return cst(0, w);
        if (b->k == KAnd && isC(b->a)) return bin(KAnd, cst(a->val & b->a->val, w), b->b);
        // low mask -> zext(extract)
        if (w > 1 && (a->val & (a->val + 1)) == 0) { unsigned n = 64 - __builtin_clzll(a->val); return zext(extract(b, 0, n), w); }
        // contiguous high/mid mask -> concat
        { unsigned tz = __builtin_ctzll(a->val); u64 sh = a->val >> tz; if ((sh & (sh + 1)) == 0 && tz) { unsigned n = 64 - __builtin_clzll(sh); Expr *mid = concat(extract(b, tz, n), cst(0, tz)); return zext(mid, w); } }
      }
      if (w == 1) { if (a->k == KXor && isC(a->a, 1) && a->b == b) return cst(0, 1); if (b->k == KXor && isC(b->a, 1) && b->b == a) return cst(0, 1); }
      if (!isC(a) && a->id > b->id) std::swap(a, b);
      break;
    case KOr:
      if (isC(b)) std::swap(a, b);
      if (a == b) return a;
      if (isC(a)) { if (a->val == 0) return b; if (a->val == m) return a; if (b->k == KOr && isC(b->a)) return bin(KOr, cst(a->val | b->a->val, w), b->b); }
      if (w == 1) { if (a->k == KXor && isC(a->a, 1) && a->b == b) return cst(1, 1); if (b->k == KXor && isC(b->a, 1) && b->b == a) return cst(1, 1); }
      else if ((~a->kz & ~b->kz & m) == 0) { Expr *r = orConcat(a, b, w); if (r) return r; }
      if (!isC(a) && a->id > b->id) std::swap(a, b);
      break;
    case KXor:
      if (isC(b)) std::swap(a, b);
      if (a == b) return cst(0, w);
      if (isC(a, 0)) return b;
      if (isC(a) && b->k == KXor && isC(b->a)) return bin(KXor, cst(a->val ^ b->a->val, w), b->b);
      if (w == 1 && isC(a, 1) && b->k == KIte) return ite(b->a, bin(KXor, a, b->b), bin(KXor, a, b->c));
      if (w == 1 && isC(a, 1)) { if (b->k == KUlt) return bin(KUle, b->b, b->a); if (b->k == KUle) return bin(KUlt, b->b, b->a); if (b->k == KSlt) return bin(KSle, b->b, b->a); if (b->k == KSle) return bin(KSlt, b->b, b->a); }
      if (!isC(a) && a->id > b->id) std::swap(a, b);
      break;
    case KShl:
      if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return cst(0, w); return concat(extract(a, 0, w - b->val), cst(0, b->val)); }
      if (isC(a, 0)) return a;
      break;
    case KLShr:
      if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return cst(0, w); return zext(extract(a, b->val, w - b->val), w); }
      if (isC(a, 0)) return a;
      break;
    case KAShr:
      if (isC(b)) { if (b->val == 0) return a; u64 s = b->val >= w ? w - 1 : b->val; if (a->kz >> (w - 1) & 1) return bin(KLShr, a, cst(s, w)); return sextE(extract(a, s, w - s), w); }
      if (isC(a, 0)) return a;
      break;
    case KEq: {
      if (a == b) return cst(1, 1);
      if (isC(b)) std::swap(a, b);
      unsigned ww = a->w;
      if ((a->ko & b->kz & mask(ww)) || (a->kz & b->ko & mask(ww))) return cst(0, 1);
      if (a->hi < b->lo || b->hi < a->lo) return cst(0, 1);
      if (ww == 1) { if (isC(a)) return a->val ? b : notE(b); }
      if (isC(a)) {
        if (b->k == KZExt) return bin(KEq, cst(a->val, b->a->w), b->a);
        if (b->k == KSExt) { u64 t = a->val & mask(b->a->w); if (((u64)sext(t, b->a->w) & mask(ww)) != a->val) return cst(0, 1); return bin(KEq, cst(t, b->a->w), b->a); }
        if (b->k == KConcat) { return bin(KAnd, bin(KEq, cst(a->val >> b->b->w, b->a->w), b->a), bin(KEq, cst(a->val, b->b->w), b->b)); }
        if (b->k == KAdd && isC(b->a)) return bin(KEq, cst(a->val - b->a->val, ww), b->b);
        if (b->k == KSub && isC(b->a)) return bin(KEq, cst(b->a->val - a->val, ww), b->b);
        if (b->k == KXor && isC(b->a)) return bin(KEq, cst(b->a->val ^ a->val, ww), b->b);
        if (b->k == KIte) { if (isC(b->b) && isC(b->c)) { bool x = b->b->val == a->val, y = b->c->val == a->val; if (x && y) return cst(1, 1); if (x) return b->a; if (y) return notE(b->a); return cst(0, 1); }
          if (isC(b->b) && b->b->val != a->val) return bin(KAnd, notE(b->a), bin(KEq, a, b->c));
          if (isC(b->c) && b->c->val != a->val) return bin(KAnd, b->a, bin(KEq, a, b->b)); }
      } else {
        if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return bin(KEq, a->a, b->a);
        if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return bin(KEq, a->a, b->a);
        if (a->k == KConcat && b->k == KConcat && a->a->w == b->a->w) return bin(KAnd, bin(KEq, a->a, b->a), bin(KEq, a->b, b->b));
        if (a->k == KAdd && b->k == KAdd && isC(a->a) && a->a == b->a) return bin(KEq, a->b, b->b);
        if (a->id > b->id) std::swap(a, b);
      }
      break; }
    case KUlt:
      if (a == b) return cst(0, 1);
      if (a->hi < b->lo) return cst(1, 1); if (a->lo >= b->hi) return cst(0, 1);
      if (isC(b, 1)) return bin(KEq, cst(0, a->w), a);
      if (isC(a, 0)) return notE(bin(KEq, a, b));
      if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return bin(KUlt, a->a, b->a);
      if (a->k == KZExt && isC(b)) return bin(KUlt, a->a, cst(b->val, a->a->w)); // b->val<=hi(a) ensured by range checks
      if (b->k == KZExt && isC(a)) return bin(KUlt, cst(a->val, b->a->w), b->a);
      break;
    case KUle:
      if (a == b) return cst(1, 1);
      if (a->hi <= b->lo) return cst(1, 1); if (a->lo > b->hi) return cst(0, 1);
      if (isC(b, 0)) return bin(KEq, b, a);
      if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return bin(KUle, a->a, b->a);
      if (a->k == KZExt && isC(b)) return bin(KUle, a->a, cst(b->val, a->a->w));
      if (b->k == KZExt && isC(a)) return bin(KUle, cst(a->val, b->a->w), b->a);
      break;
    case KSlt: case KSle: {
      if (a == b) return cst(k == KSle, 1);
      u64 sb = 1ull << (a->w - 1); bool an = a->ko & sb, ap = a->kz & sb, bn = b->ko & sb, bp = b->kz & sb;
      if ((an && bn) || (ap && bp)) return bin(k == KSlt ? KUlt : KUle, a, b);
      if (an && bp) return cst(1, 1); if (ap && bn) return cst(0, 1);
      if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return bin(k, a->a, b->a);
      if (k == KSlt && isC(b, 0)) return extract(a, a->w - 1, 1);
      if (k == KSle && isC(a, 0)) return notE(extract(b, a->w - 1, 1));
      if (k == KSlt && isC(a, mask(a->w))) return notE(extract(b, a->w - 1, 1));
      break; }
    default: break;
    }
    // ite lifting with constants for comparisons
    if (cmp && k <= KSle) {
      if (isC(a) && b->k == KIte && isC(b->b) && isC(b->c)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
      if (isC(b) && a->k == KIte && isC(a->b) && isC(a->c)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
    }
    return mk(k, w, 0, a, b, nullptr, 0, nullptr);
  }
  // or of disjoint bit fields -> concat of pieces when it cleanly splits
  Expr *orConcat(Expr *a, Expr *b, unsigned w) {
    // find split point: one operand has low n bits zero and the other has the high w-n bits zero
    auto tryS = [&](Expr *hiE, Expr *loE) -> Expr* {
      u64 l = ~loE->kz & mask(w); unsigned n = l ? 64 - __builtin_clzll(l) : 0;
      if (n == 0 || n >= w) return nullptr;
      if ((~hiE->kz & mask(n)) != 0) return nullptr;
      return concat(extract(hiE, n, w - n), extract(loE, 0, n));
    };
    if (Expr *r = tryS(a, b)) return r;
    if (Expr *r = tryS(b, a)) return r;
    // middle insertion: a fits in a zero gap of concat b
    for (int s = 0; s < 2; s++) { Expr *x = s ? b : a, *y = s ? a : b;
      if (y->k == KConcat) { unsigned n = y->b->w; u64 xb = ~x->kz & mask(w);
        if ((xb >> n) == 0) return concat(y->a, bin(KOr, extract(x, 0, n), y->b));
        if ((xb & mask(n)) == 0) return concat(bin(KOr, extract(x, n, w - n), y->a), y->b); }
      if (y->k == KZExt) { unsigned n = y->a->w; u64 xb = ~x->kz & mask(w); if ((xb >> n) == 0) return zext(bin(KOr, extract(x, 0, n), y->a), w); } }
    return nullptr;
  }
  Expr *notE(Expr *a) { return bin(KXor, cst(1, 1), a); }
  Expr *andE(Expr *a, Expr *b) { return bin(KAnd, a, b); }
  Expr *orE(Expr *a, Expr *b) { return bin(KOr, a, b); }
  Expr *ite(Expr *c, Expr *t, Expr *f) {
    if (isC(c)) return c->val ? t : f;
    if (t == f) return t;
    if (c->k == KXor && isC(c->a, 1)) return ite(c->b, f, t);
    if (hasTblChild(c, t, f) && supU(c->sup, supU(t->sup, f->sup))->size() == 1) {
      u32 var = (*supU(c->sup, supU(t->sup, f->sup)))[0]; std::vector<u64> v(256); std::vector<u8> m(vars.size(), 0);
      for (int i = 0; i < 256; i++) { m[var] = i; epoch++; v[i] = ev1(c, m) ? ev1(t, m) : ev1(f, m); }
      return mkTbl(var, v, t->w);
    }
    if (t->w == 1) {
      if (isC(t) && isC(f)) return t->val ? c : notE(c);
      if (isC(t)) return t->val ? orE(c, f) : andE(notE(c), f);
      if (isC(f)) return f->val ? orE(notE(c), t) : andE(c, t);
    }
    if (t->k == KIte && t->a == c) t = t->b;
    if (f->k == KIte && f->a == c) f = f->c;
    if (t == f) return t;
    if (f->k == KIte && f->b == t) return ite(orE(c, f->a), t, f->c);
    if (t->k == KIte && t->c == f) return ite(andE(c, t->a), t->b, f);
    if (t->k == KZExt && f->k == KZExt && t->a->w == f->a->w) return zext(ite(c, t->a, f->a), t->w);
    if (t->k == KConcat && f->k == KConcat && t->a->w == f->a->w) return concat(ite(c, t->a, f->a), ite(c, t->b, f->b));
    return mk(KIte, t->w, 0, c, t, f, 0, nullptr);
  }
  Expr *concat(Expr *a, Expr *b) {
    unsigned w = a->w + b->w; assert(w <= 64);
    if (isC(a) && isC(b)) return cst((a->val << b->w) | b->val, w);
    if (isC(a, 0)) return zext(b, w);
    if (a->k == KExtract && b->k == KExtract && a->a == b->a && a->aux == b->aux + b->w) return extract(a->a, b->aux, w);
    if (a->k == KExtract && b->k == KConcat && b->a->k == KExtract && a->a == b->a->a && a->aux == b->a->aux + b->a->w) return concat(extract(a->a, b->a->aux, a->w + b->a->w), b->b);
    if (a->k == KExtract && a->a == b && a->aux == b->w) return extract(b, 0, w);
    if (b->k == KExtract && b->aux == 0 && a->k == KExtract && a->a == b->a && a->aux == b->w) return extract(b->a, 0, w);
    if (a->k == KZExt) return zext(concat(a->a, b), w);
    if (a->k == KConcat) return concat(a->a, concat(a->b, b));
    if (isC(a) && b->k == KConcat && isC(b->a)) return concat(cst((a->val << b->a->w) | b->a->val, a->w + b->a->w), b->b);
    // sign extension recognition: skip
    if (a->k == KIte && b->k == KIte && a->a == b->a) return ite(a->a, concat(a->b, b->b), concat(a->c, b->c));
    if (hasTblChild(a, b, nullptr) && supU(a->sup, b->sup)->size() == 1) return tabulate(mk(KConcat, w, 0, a, b, nullptr, 0, nullptr));
    return mk(KConcat, w, 0, a, b, nullptr, 0, nullptr);
  }
  Expr *extract(Expr *a, unsigned lo, unsigned w) {
    assert(lo + w <= a->w);
    if (w == a->w) return a;
    if (isC(a)) return cst(a->val >> lo, w);
    { u64 k = ((a->ko | a->kz) >> lo) & mask(w); if (k == mask(w)) return cst((a->ko >> lo) & mask(w), w); }
    switch (a->k) {
    case KExtract: return extract(a->a, lo + a->aux, w);
    case KConcat: if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w); if (lo + w <= a->b->w) return extract(a->b, lo, w);
      return concat(extract(a->a, 0, lo + w - a->b->w), extract(a->b, lo, a->b->w - lo));
    case KZExt: if (lo >= a->a->w) return cst(0, w); if (lo + w <= a->a->w) return extract(a->a, lo, w); return zext(extract(a->a, lo, a->a->w - lo), w);
    case KSExt: if (lo + w <= a->a->w) return extract(a->a, lo, w); if (lo < a->a->w) return sextE(extract(a->a, lo, a->a->w - lo), w); return sextE(extract(a->a, a->a->w - 1, 1), w);
    case KAnd: case KOr: case KXor: return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w));
    case KAdd: case KSub: case KMul: if (lo == 0) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w)); break;
    case KIte: if (isC(a->b) || isC(a->c) || a->b->k == KConcat || a->c->k == KConcat || a->b->k == KZExt || a->c->k == KZExt || w == 8) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w)); break;
    case KTbl: { std::vector<u64> v = a->tbl->v; for (auto &x : v) x = (x >> lo) & mask(w); return mkTbl(a->aux, v, w); }
    default: break;
    }
    return mk(KExtract, w, lo, a, nullptr, nullptr, 0, nullptr);
  }
  Expr *zext(Expr *a, unsigned w) {
    assert(w >= a->w);
    if (w == a->w) return a; if (isC(a)) return cst(a->val, w);
    if (a->k == KZExt) return zext(a->a, w);
    if (a->k == KTbl) { std::vector<u64> v = a->tbl->v; return mk(KTbl, w, a->aux, a->a, nullptr, nullptr, 0, internTbl(v)); }
    if (a->k == KIte && isC(a->b) && isC(a->c)) return ite(a->a, zext(a->b, w), zext(a->c, w));
    return mk(KZExt, w, 0, a, nullptr, nullptr, 0, nullptr);
  }
  Expr *sextE(Expr *a, unsigned w) {
    if (w == a->w) return a; if (isC(a)) return cst((u64)sext(a->val, a->w), w);
    if (a->kz >> (a->w - 1) & 1) return zext(a, w);
    if (a->k == KSExt) return sextE(a->a, w);
    if (a->k == KTbl) { std::vector<u64> v = a->tbl->v; for (auto &x : v) x = (u64)sext(x, a->w) & mask(w); return mkTbl(a->aux, v, w); }
    if (a->k == KIte && isC(a->b) && isC(a->c)) return ite(a->a, sextE(a->b, w), sextE(a->c, w));
    return mk(KSExt, w, 0, a, nullptr, nullptr, 0, nullptr);
  }
  // unary FP / conversion
  Expr *un(Kind k, Expr *a, unsigned w, u32 aux = 0, Expr *b = nullptr) {
    if (isC(a) && (!b || isC(b))) return cst(op_eval(k, w, aux, a->w, a->val, b ? b->val : 0, 0, b ? b->w : 0), w);
    const Sup *s = b ? supU(a->sup, b->sup) : a->sup;
    if (s->size() == 1) {
      u32 var = (*s)[0]; std::vector<u64> v(256); std::vector<u8> m(vars.size(), 0);
      for (int i = 0; i < 256; i++) { m[var] = i; epoch++; u64 x = ev1(a, m), y = b ? ev1(b, m) : 0; v[i] = op_eval(k, w, aux, a->w, x, y, 0, b ? b->w : 0); }
      return mkTbl(var, v, w);
    }
    return mk(k, w, aux, a, b, nullptr, 0, nullptr);
  }
  Expr *read(Snap *s, Expr *idx) {   // idx width 64; caller guarantees idx < s->b.size() under the path condition
    if (isC(idx)) return s->b[idx->val];
    bool same = true; for (auto x : s->b) if (x != s->b[0]) { same = false; break; } if (same) return s->b[0];
    if (idx->sup->size() == 1 && s->sup->empty()) {
      u32 var = (*idx->sup)[0]; std::vector<u64> v(256); std::vector<u8> m(vars.size(), 0);
      for (int i = 0; i < 256; i++) { m[var] = i; epoch++; u64 x = ev1(idx, m); v[i] = x < s->b.size() ? s->b[x]->val : 0; }
      return mkTbl(var, v, 8);
    }
    return mk(KRead, 8, 0, idx, nullptr, nullptr, 0, s);
  }

  // ---- evaluation under a byte assignment (vars beyond the vector are 0)
  u64 eval(Expr *e, const std::vector<u8> &m) { epoch++; return ev1(e, m); }
  u64 ev1(Expr *e, const std::vector<u8> &m) {
    if (e->k == KConst) return e->val;
    if (e->k == KVar) return e->aux < m.size() ? m[e->aux] : 0;
    if (e->epoch == epoch) return e->ev;
    u64 r;
    if (e->k == KTbl) r = e->tbl->v[e->aux < m.size() ? m[e->aux] : 0];
    else if (e->k == KRead) { u64 i = ev1(e->a, m); r = i < e->snap->b.size() ? ev1(e->snap->b[i], m) : 0; }
    else if (e->k == KIte) r = ev1(e->a, m) ? ev1(e->b, m) : ev1(e->c, m);
    else { u64 x = e->a ? ev1(e->a, m) : 0, y = e->b ? ev1(e->b, m) : 0; r = op_eval(e->k, e->w, e->aux, e->a ? e->a->w : 0, x, y, 0, e->b ? e->b->w : 0); }
    e->epoch = epoch; e->ev = r; return r;
  }
  // ---- rewriting under known facts (expression -> expression), rebuilding with simplification
  u32 rwEpoch = 0;
  Expr *rewrite(Expr *e, const std::unordered_map<Expr*, Expr*> &facts, int &budget) {
    if (e->k == KConst) return e;
    if (e->repoch == rwEpoch) return e->re;
    auto f = facts.find(e); if (f != facts.end()) return f->second;
    if (e->k == KVar) return e;
    if (--budget < 0) return e;
    Expr *r = e;
    if (e->k == KTbl) { Expr *v = rewrite(e->a, facts, budget); if (v->k == KConst) r = cst(e->tbl->v[v->val & 255], e->w); }
    else if (e->k == KRead) { Expr *i = rewrite(e->a, facts, budget); if (i != e->a) r = i->k == KConst && i->val >= e->snap->b.size() ? e : read(e->snap, i); }
    else if (e->k == KIte) { Expr *c = rewrite(e->a, facts, budget); if (c->k == KConst) r = rewrite(c->val ? e->b : e->c, facts, budget); else { Expr *x = rewrite(e->b, facts, budget), *y = rewrite(e->c, facts, budget); if (c != e->a || x != e->b || y != e->c) r = ite(c, x, y); } }
    else { Expr *a = e->a ? rewrite(e->a, facts, budget) : nullptr, *b = e->b ? rewrite(e->b, facts, budget) : nullptr;
      if (a != e->a || b != e->b) switch (e->k) {
        case KConcat: r = concat(a, b); break; case KExtract: r = extract(a, e->aux, e->w); break; case KZExt: r = zext(a, e->w); break; case KSExt: r = sextE(a, e->w); break;
        case KFExt: case KFTrunc: case KFToSI: case KFToUI: case KSIToF: case KUIToF: case KFSqrt: case KFRound: case KMath: r = un(e->k, a, e->w, e->aux, b); break;
        default: r = bin(e->k, a, b); } }
    e->repoch = rwEpoch; e->re = r; return r;
  }
  // ---- substitution of variables by other variables
  Expr *subst(Expr *e, const std::unordered_map<u32, Expr*> &mp) { sepoch++; return sub1(e, mp); }
  Expr *sub1(Expr *e, const std::unordered_map<u32, Expr*> &mp) {
    if (e->k == KConst) return e;
    if (e->k == KVar) { auto i = mp.find(e->aux); return i == mp.end() ? e : i->second; }
    if (e->sepoch == sepoch) return e->se;
    bool touch = false; for (u32 v : *e->sup) if (mp.count(v)) { touch = true; break; }
    Expr *r = e;
    if (touch) {
      if (e->k == KTbl) { Expr *v = mp.at(e->aux); assert(v->k == KVar); r = mk(KTbl, e->w, v->aux, v, nullptr, nullptr, 0, e->tbl); }
      else if (e->k == KRead) { std::vector<Expr*> b; for (auto x : e->snap->b) b.push_back(sub1(x, mp)); r = read(internSnap(b), sub1(e->a, mp)); }
      else { Expr *a = e->a ? sub1(e->a, mp) : 0, *b = e->b ? sub1(e->b, mp) : 0, *c = e->c ? sub1(e->c, mp) : 0; r = mk(e->k, e->w, e->aux, a, b, c, 0, nullptr); }
    }
    e->sepoch = sepoch; e->se = r; return r;
  }
};
