// devsym: a symbolic executor for LLVM 18 IR (bit-precise, KLEE-style memory, Z3 back end).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Operator.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <unordered_set>
#include <random>
#include <thread>
#include <pthread.h>
#include <fstream>
#include <sstream>
#include <ctype.h>
#include <unistd.h>
#include <functional>
#include "solver.h"
using namespace llvm;
typedef ::Model SModel;

// ---------------------------------------------------------------- values
static Expr *const AGG = (Expr*)1;
struct Val { Expr *e; u64 c; Val() : e(nullptr), c(0) {} Val(u64 x) : e(nullptr), c(x) {} Val(Expr *x) : e(x), c(0) { if (x && x->k == KConst) { c = x->val; e = nullptr; } } bool conc() const { return e == nullptr; } bool agg() const { return e == AGG; } };
struct Agg { std::vector<Val> v; };
static Val mkAgg(std::vector<Val> v) { Val r; r.e = AGG; r.c = (u64)(uintptr_t) new Agg{std::move(v)}; return r; }   // leaked: rare
static Agg *getAgg(Val v) { return (Agg*)(uintptr_t)v.c; }

template <class T> struct Ref { T *p; Ref(T *x = nullptr) : p(x) { if (p) p->rc++; } Ref(const Ref &o) : p(o.p) { if (p) p->rc++; } Ref(Ref &&o) : p(o.p) { o.p = nullptr; }
  Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; } Ref &operator=(Ref &&o) { std::swap(p, o.p); return *this; } ~Ref() { rel(); } void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
  T *operator->() const { return p; } explicit operator bool() const { return p; } T *get() const { return p; } };

static Expr UNINIT_E; static Expr *const UNINIT = &UNINIT_E;
enum OKind : u8 { OGlobal, OAlloca, OHeap, OFunc, OInput };
struct Obj { int rc = 0; u64 base; u32 size; Expr *symSize = nullptr; OKind kind; bool ro = false; const char *name; std::vector<u8> conc; std::vector<Expr*> sym; Function *fn = nullptr; u32 allocSeq = 0; };
struct Chunk { int rc = 0; Ref<Obj> o[64]; u8 freed[64] = {0}; };
static const int IDSHIFT = 36; static const u64 MIDOFF = 1ull << 35;
static u64 baseOf(u32 id) { return ((u64)id << IDSHIFT) + MIDOFF; }

struct Mem {
  std::vector<Ref<Chunk>> ch; u32 next = 1;
  Obj *get(u32 id) const { u32 c = id >> 6; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[id & 63].get(); }
  bool wasFreed(u32 id) const { u32 c = id >> 6; return c < ch.size() && ch[c] && ch[c]->freed[id & 63]; }
  Chunk *wch(u32 c) { if (c >= ch.size()) ch.resize(c + 1); if (!ch[c]) ch[c] = Ref<Chunk>(new Chunk()); else if (ch[c]->rc > 1) { Chunk *n = new Chunk(*ch[c].get()); n->rc = 0; ch[c] = Ref<Chunk>(n); } return ch[c].get(); }
  Obj *getW(u32 id) { Chunk *c = wch(id >> 6); Ref<Obj> &r = c->o[id & 63]; if (r->rc > 1) { Obj *n = new Obj(*r.get()); n->rc = 0; r = Ref<Obj>(n); } return r.get(); }
  Obj *add(u32 size, OKind k, const char *name) { u32 id = next++; Obj *o = new Obj(); o->base = baseOf(id); o->size = size; o->kind = k; o->name = name; o->conc.assign(size, 0); wch(id >> 6)->o[id & 63] = Ref<Obj>(o); return o; }
  void free(u32 id, bool popped) { Chunk *c = wch(id >> 6); c->o[id & 63] = Ref<Obj>(); c->freed[id & 63] = popped ? 2 : 1; }
};

// ---------------------------------------------------------------- decoded code
struct KInst { Instruction *I; unsigned op; int dest; unsigned w; std::vector<int> ops; u64 gepConst = 0; std::vector<std::pair<int, u64>> gepIdx; std::vector<unsigned> gepW; Function *callee = nullptr; int builtin = -1; };
struct KBlock { BasicBlock *BB; std::vector<PHINode*> phis; std::vector<KInst> in; std::vector<u64> live; KBlock *ipdom = nullptr; bool ipdomSet = false; int idx; };
struct KFunc { Function *F; int nslots = 0; DenseMap<Value*, int> slot; std::vector<KBlock*> blocks; DenseMap<BasicBlock*, KBlock*> bmap; std::vector<Val> consts; bool liveDone = false; u64 instrs = 0; bool entered = false; };

struct Frame { KFunc *kf; KBlock *b; u32 ip; int retSlot; KBlock *normalDest; KBlock *callBlock; std::vector<Val> regs; std::vector<u32> allocas; std::vector<Val> va; Instruction *site; };
struct Group;
struct InputRec { std::string name; std::vector<Expr*> bytes; };
struct ObsRec { std::string name; std::vector<Expr*> e; std::vector<u64> c; bool buf; };
struct State { std::vector<Frame> st; Mem m; std::vector<Expr*> pc; SModel model; Group *grp = nullptr; u64 steps = 0, stepLimit = 0; std::vector<InputRec> inputs; std::vector<ObsRec> obs; std::vector<std::string> reached; u32 symCount = 0; u32 allocCount = 0; u32 forks = 0; u64 errnoObj = 0; std::map<std::string,int> nameUse; bool hangWatch = false; bool inexact = false; std::unordered_map<Expr*, Expr*> facts; size_t factsN = 0; };
struct Group { Group *parent; int pending; std::vector<State*> parked; size_t depth; KBlock *join; KFunc *kf; u64 birth; };

struct ErrRec { std::string kind, msg, func, loc, stack; std::vector<InputRec> inputs; SModel model; std::string sig; std::vector<std::pair<std::string,std::string>> conc; bool inexact; };

// ---------------------------------------------------------------- globals
static Ctx C; static Solver *S; static Module *M; static const DataLayout *DL;
static DenseMap<Function*, KFunc*> kfuncs; static DenseMap<GlobalValue*, u64> gaddr; static std::unordered_map<u64, Function*> fnAt; static std::unordered_map<u32, Function*> fnById;
static std::map<std::string, i64> params; static std::map<std::string, u64> reachCount;
static std::vector<State*> work; static std::vector<ErrRec> errors; static std::map<std::string, int> errSeen;
static u64 nInstr = 0, nForks = 0, nPaths = 0, nStates = 0, nAssume = 0, nCuts = 0, nInfeasibleAssume = 0, nMerges = 0, nMergeFail = 0, nUnknownBranch = 0, nAsserts = 0, nMemChecks = 0, nMemSym = 0, nErrStates = 0, nNullAlloc = 0;
static std::map<std::string, u64> cuts; static std::map<std::string, u64> incomplete; static std::map<std::string, u64> modelled;
static double T0, timeLimit = 1e9; static u64 maxSteps = 200000000; static int maxErr = 40; static int maxPathsOut = 8; static std::mt19937 rng(1);
static bool mergeOn = false; static std::string outFile; static bool stopFirst = false; static bool verbose = false;
struct PathRec { std::vector<InputRec> inputs; SModel model; std::vector<ObsRec> obs; std::vector<std::string> reached; u64 steps; };
static std::vector<PathRec> pathSamples; static u64 pathSeen = 0;
static std::map<std::string, u64> funcsRun;
static std::map<std::string,int> mergeFns; static std::map<Instruction*, u64> forkProf, qProf; static std::string locOf(Instruction*); static Instruction *curInst(State*, size_t);

struct Stop { };      // state terminated

static Expr *EX(Val v, unsigned w) { if (v.conc()) return C.cst(v.c, w); return v.e; }
static std::string dem(StringRef n) { std::string s = demangle(n.str()); size_t p = s.find('('); if (p != std::string::npos) s = s.substr(0, p); return s; }

static std::string locOf(Instruction *I) { if (!I) return "?"; if (DILocation *L = I->getDebugLoc()) { while (L->getInlinedAt() && false) L = L->getInlinedAt(); return (L->getFilename() + ":" + Twine(L->getLine())).str(); } return "?"; }
static std::string funcOf(Instruction *I) { if (!I) return "?"; if (DILocation *L = I->getDebugLoc()) if (auto *SP = dyn_cast_or_null<DISubprogram>(L->getScope()->getSubprogram())) { StringRef n = SP->getLinkageName(); if (n.empty()) n = SP->getName(); return dem(n); } return dem(I->getFunction()->getName()); }
static Instruction *curInst(State *s, size_t i) { Frame &f = s->st[i]; u32 ip = f.ip ? f.ip - 1 : 0; if (i + 1 == s->st.size()) ip = f.ip; if (ip < f.b->in.size()) return f.b->in[ip].I; return f.b->in.empty() ? nullptr : f.b->in.back().I; }
static std::string stackOf(State *s) { std::string r; for (size_t i = s->st.size(); i-- > 0;) { Instruction *I = curInst(s, i); if (!I) continue; DILocation *L = I->getDebugLoc(); if (!L) { r += dem(I->getFunction()->getName()) + " < "; continue; } for (; L; L = L->getInlinedAt()) { auto *SP = L->getScope()->getSubprogram(); StringRef n = SP->getLinkageName(); if (n.empty()) n = SP->getName(); r += dem(n) + "@" + L->getFilename().rsplit('/').second.str() + ":" + std::to_string(L->getLine()) + " < "; } } return r; }
// innermost frame in the code under test (not harness / libc model)
static void siteOf(State *s, std::string &fn, std::string &loc) {
  for (size_t i = s->st.size(); i-- > 0;) { Instruction *I = curInst(s, i); if (!I) continue; for (DILocation *L = I->getDebugLoc(); L; L = L->getInlinedAt()) { if (L->getFilename().contains("src-IL")) { auto *SP = L->getScope()->getSubprogram(); StringRef n = SP->getLinkageName(); if (n.empty()) n = SP->getName(); fn = dem(n); loc = L->getFilename().rsplit('/').second.str() + ":" + std::to_string(L->getLine()); return; } } }
  Instruction *I = curInst(s, s->st.size() - 1); fn = funcOf(I); loc = locOf(I);
}
static void report(State *s, const std::string &kind, const std::string &msg, const SModel &model) {
  std::string fn, loc; siteOf(s, fn, loc); if (kind == "assert") { }
  std::string sig = kind + "|" + fn + "|" + (kind == "assert" ? msg : loc);
  nErrStates++;
  if (errSeen[sig]++ >= 1 || (int)errors.size() >= maxErr) return;
  ErrRec r; r.kind = kind; r.msg = msg; r.func = fn; r.loc = loc; r.stack = stackOf(s); r.inputs = s->inputs; r.model = model; r.sig = sig; r.inexact = s->inexact; errors.push_back(r);
  if (verbose) fprintf(stderr, "ERR %s %s in %s at %s\n   %s\n", kind.c_str(), msg.c_str(), fn.c_str(), loc.c_str(), r.stack.c_str());
}
static void incompleteMark(const std::string &why) { incomplete[why]++; }

// ---------------------------------------------------------------- forking
static bool mayBe(State *s, Expr *c, SModel &out) { if (verbose) qProf[curInst(s, s->st.size() - 1)]++; Res r = S->check(s->pc, c, s->model, out); if (r == SAT && verbose) forkProf[curInst(s, s->st.size() - 1)]++; if (r == UNKNOWN) { nUnknownBranch++; incompleteMark("solver-unknown"); out = s->model; return true; } return r == SAT; }
static void addPC(State *s, Expr *c) {
  if (c->k == KConst) return;
  if (c->k == KAnd && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
  s->pc.push_back(c);
}
static State *cloneState(State *s) { State *n = new State(*s); nStates++; if (n->grp) n->grp->pending++; return n; }
static void groupDone(Group *g);
static void dropState(State *s) { Group *g = s->grp; delete s; if (g) { g->pending--; groupDone(g); } }

// fork on a width-1 expression. Returns the side the current state takes; the other (if feasible) is pushed by callback.
template <class F> static bool forkOn(State *s, Expr *c, F other) {
  if (c->k == KConst) return c->val;
  bool side = C.eval(c, s->model);
  Expr *neg = C.notE(c); SModel om;
  if (mayBe(s, side ? neg : c, om)) {
    State *o = cloneState(s); nForks++; o->forks++; s->forks++;
    addPC(o, side ? neg : c); o->model = om; addPC(s, side ? c : neg);
    other(o, !side);
  }
  return side;
}
// ---------------------------------------------------------------- facts: path-condition atoms used to simplify addresses and conditions
static u64 nSimp = 0, nSimpConst = 0, nAddrForks = 0;
static void addFact(State *s, Expr *c) {
  s->facts[c] = C.cst(1, 1); Expr *n = C.notE(c); s->facts[n] = C.cst(0, 1);
  if (c->k == KEq && c->a->k == KConst) s->facts[c->b] = c->a; else if (c->k == KEq && c->b->k == KConst) s->facts[c->a] = c->b;
}
static Expr *simp(State *s, Expr *e) {
  if (e->k == KConst || s->pc.empty()) return e;
  if (s->factsN > s->pc.size()) { s->facts.clear(); s->factsN = 0; }
  for (; s->factsN < s->pc.size(); s->factsN++) addFact(s, s->pc[s->factsN]);
  nSimp++; C.rwEpoch++; int budget = 3000; Expr *r = C.rewrite(e, s->facts, budget); if (r->k == KConst) nSimpConst++; return r;
}
// If every leaf of e outside conditions is a constant, return a condition to split on (a value-selecting boolean); null otherwise.
static Expr *splitCond(Expr *e, std::unordered_set<Expr*> &seen, bool &data, int &budget) {
  if (data || e->k == KConst || !seen.insert(e).second) return nullptr;
  if (--budget < 0) { data = true; return nullptr; }
  switch (e->k) {
  case KVar: case KRead: data = true; return nullptr;
  case KTbl: { u64 f = e->tbl->v[0]; int distinct = 1; u64 ds[4] = {f}; for (u64 x : e->tbl->v) { bool in = false; for (int i = 0; i < distinct; i++) if (ds[i] == x) in = true; if (!in) { if (distinct == 4) { data = true; return nullptr; } ds[distinct++] = x; } } return C.bin(KEq, C.cst(f, e->w), e); }
  case KIte: { Expr *r = splitCond(e->b, seen, data, budget); Expr *q = splitCond(e->c, seen, data, budget); (void)r; (void)q; return data ? nullptr : e->a; }
  case KZExt: case KSExt: if (e->a->w == 1) return e->a; return splitCond(e->a, seen, data, budget);
  default:
    if (e->w == 1) return e;
    Expr *r = nullptr; for (Expr *x : {e->a, e->b, e->c}) if (x) { Expr *q = splitCond(x, seen, data, budget); if (q) r = q; if (data) return nullptr; } return r;
  }
}

// force a value concrete by forking over all feasible values (other values continue in pushed clones re-executing current instruction)
static u64 concretize(State *s, Expr *e, const char *why, u64 limit = 4096) {
  e = simp(s, e); if (e->k == KConst) return e->val;
  u64 v = C.eval(e, s->model); Expr *eq = C.bin(KEq, C.cst(v, e->w), e);
  if (eq->k != KConst) { SModel om; Expr *ne = C.notE(eq);
    if (mayBe(s, ne, om)) { State *o = cloneState(s); nForks++; addPC(o, ne); o->model = om; o->forks++; s->forks++; work.push_back(o); // o re-executes the same instruction
    }
    addPC(s, eq); }
  return v;
}

// ---------------------------------------------------------------- memory access
static Expr *byteAt(State *s, Obj *&o, u32 i) {
  if (o->sym.empty() || !o->sym[i]) return C.cst(o->conc[i], 8);
  if (o->sym[i] == UNINIT) { Obj *w = s->m.getW(o->base >> IDSHIFT); o = w; Expr *v = C.newVar(std::string("uninit:") + w->name + "#" + std::to_string(w->allocSeq), i, true); w->sym[i] = v; return v; }
  return o->sym[i];
}
static Val readC(State *s, Obj *o, u32 off, unsigned n) {
  if (o->sym.empty()) { u64 v = 0; memcpy(&v, &o->conc[off], n); return Val(v); }
  bool all = true; for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { all = false; break; }
  if (all) { u64 v = 0; memcpy(&v, &o->conc[off], n); return Val(v); }
  Expr *r = byteAt(s, o, off + n - 1); for (int i = n - 2; i >= 0; i--) r = C.concat(r, byteAt(s, o, off + i));
  return Val(r);
}
static void setByte(Obj *o, u32 i, Expr *e) { if (e->k == KConst) { o->conc[i] = e->val; if (!o->sym.empty()) o->sym[i] = nullptr; } else { if (o->sym.empty()) o->sym.assign(o->size, nullptr); o->sym[i] = e; } }
static void writeC(Obj *o, u32 off, unsigned n, Val v) {
  if (v.conc()) { memcpy(&o->conc[off], &v.c, n); if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; return; }
  for (unsigned i = 0; i < n; i++) setByte(o, off + i, C.extract(v.e, 8 * i, 8));
}
static std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }

// Resolve a pointer for an access of n bytes. On return the object and the offset (concrete or symbolic). Throws Stop on error.
static Obj *resolve(State *s, Val p, u64 n, bool write, Val &off, const char *what) {
  u32 id;
  nMemChecks++;
  if (!p.conc()) { p = Val(simp(s, p.e));
    while (!p.conc()) { std::unordered_set<Expr*> seen; bool data = !p.e->ctl; int budget = 2000; Expr *c = data ? nullptr : splitCond(p.e, seen, data, budget); if (data || !c || c->k == KConst) break;
      bool side = C.eval(c, s->model); Expr *neg = C.notE(c); SModel om;
      if (mayBe(s, side ? neg : c, om)) { State *o2 = cloneState(s); nForks++; nAddrForks++; addPC(o2, side ? neg : c); o2->model = om; o2->forks++; s->forks++; work.push_back(o2); addPC(s, side ? c : neg); }
      else addPC(s, side ? c : neg);   // implied: recording it lets the rewriting use it
      Val q = Val(simp(s, p.e)); if (!q.conc() && q.e == p.e) break; p = q; } }
  if (p.conc()) {
    id = p.c >> IDSHIFT; Obj *o = s->m.get(id);
    if (!o) { std::string k = s->m.wasFreed(id) ? "use-after-free" : p.c < 4096 ? "null-deref" : "wild-pointer"; report(s, k, std::string(what) + " of " + std::to_string(n) + " bytes at " + hex(p.c), s->model); throw Stop(); }
    u64 d = p.c - o->base;
    if (o->kind == OFunc) { report(s, "wild-pointer", std::string(what) + " through function pointer", s->model); throw Stop(); }
    if (d > o->size || n > o->size - d) { report(s, write ? "oob-write" : "oob-read", std::string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((i64)d) + " of " + std::to_string(o->size) + "-byte object " + o->name, s->model); throw Stop(); }
    if (o->symSize) { Expr *ok = C.bin(KUle, C.cst(d + n, 64), o->symSize); if (ok->k == KConst ? !ok->val : true) { SModel om; if (ok->k == KConst || mayBe(s, C.notE(ok), om)) { report(s, write ? "oob-write" : "oob-read", std::string(what) + " beyond symbolic-size object " + o->name, ok->k == KConst ? s->model : om); if (ok->k == KConst || !C.eval(ok, s->model)) { SModel m2; if (ok->k == KConst || !mayBe(s, ok, m2)) throw Stop(); s->model = m2; } addPC(s, ok); } } }
    if (write && o->ro) { report(s, "write-const", std::string(what) + " to constant " + o->name, s->model); throw Stop(); }
    off = Val(d); return o;
  }
  // symbolic pointer
  nMemSym++;
  u64 pv = C.eval(p.e, s->model); id = pv >> IDSHIFT; u64 lo = (u64)id << IDSHIFT, hi = lo | mask(IDSHIFT);
  if ((p.e->lo >> IDSHIFT) != (p.e->hi >> IDSHIFT) || true) {
    Expr *inId = C.bin(KEq, C.cst(id, 64 - IDSHIFT), C.extract(p.e, IDSHIFT, 64 - IDSHIFT));
    if (inId->k != KConst) { SModel om; Expr *ne = C.notE(inId); if (mayBe(s, ne, om)) { State *o2 = cloneState(s); nForks++; addPC(o2, ne); o2->model = om; work.push_back(o2); addPC(s, inId); } }
  }
  (void)lo; (void)hi;
  Obj *o = s->m.get(id);
  if (!o || o->kind == OFunc) { std::string k = s->m.wasFreed(id) ? "use-after-free" : pv < 4096 ? "null-deref" : "wild-pointer"; report(s, k, std::string(what) + " at symbolic address, e.g. " + hex(pv), s->model); throw Stop(); }
  Expr *d = C.bin(KSub, p.e, C.cst(o->base, 64));
  Expr *ok = n > o->size ? C.cst(0, 1) : C.bin(KUle, d, C.cst(o->size - n, 64));
  if (o->symSize) ok = C.andE(ok, C.bin(KUle, C.bin(KAdd, C.cst(n, 64), d), o->symSize));
  if (!(ok->k == KConst && ok->val)) {
    SModel om; Expr *bad = C.notE(ok);
    if (mayBe(s, bad, om)) {
      i64 dv = (i64)C.eval(d, om);
      SModel save = s->model; s->model = om; report(s, write ? "oob-write" : "oob-read", std::string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string(dv) + " of " + std::to_string(o->size) + "-byte object " + o->name, om); s->model = save;
      SModel m2; if (!mayBe(s, ok, m2)) throw Stop();
      s->model = m2; addPC(s, ok);
    }
  }
  if (write && o->ro) { report(s, "write-const", std::string(what) + " to constant " + o->name, s->model); throw Stop(); }
  off = Val(d); return o;
}
static u64 rngBound(Expr *d, u64 cap) { return std::min(d->hi, cap); }
static u64 symReadMax = 8192;
static bool pinned(State *s, Expr *d, u64 &v) { // is d forced to one value?
  v = C.eval(d, s->model); if (d->k == KConst) return true; SModel om; Expr *ne = C.notE(C.bin(KEq, C.cst(v, d->w), d)); Res r = S->check(s->pc, ne, s->model, om); return r == UNSAT; }
static void tightRange(State *s, Expr *d, u64 &lo, u64 &hi) { // binary search true bounds when the syntactic range is wide
  SModel om; u64 v = C.eval(d, s->model);
  u64 a = lo, b = std::min(v, hi); while (a < b) { u64 mid = a + (b - a) / 2; if (mayBe(s, C.bin(KUle, d, C.cst(mid, 64)), om)) b = std::min(mid, C.eval(d, om)); else a = mid + 1; } lo = a;
  a = std::max(v, lo); b = hi; while (a < b) { u64 mid = b - (b - a) / 2; if (mayBe(s, C.bin(KUle, C.cst(mid, 64), d), om)) a = std::max(mid, C.eval(d, om)); else b = mid - 1; } hi = a;
}
static Val load(State *s, Val p, unsigned n, const char *what = "load") {
  Val off; Obj *o = resolve(s, p, n, false, off, what);
  if (off.conc()) return readC(s, o, off.c, n);
  u64 lo = off.e->lo, hi = rngBound(off.e, o->size - n);
  if (hi - lo > 300) tightRange(s, off.e, lo, hi);
  if (lo == hi) { return readC(s, o, lo, n); }
  if (hi - lo > symReadMax) { incompleteMark("symbolic-read-range>" + std::to_string(symReadMax)); throw Stop(); }
  // snapshot of [lo, hi+n)
  std::vector<Expr*> all; for (u64 i = lo; i < hi + n; i++) all.push_back(byteAt(s, o, i));
  Expr *idx = C.bin(KSub, off.e, C.cst(lo, 64));
  Expr *r = nullptr;
  for (int j = n - 1; j >= 0; j--) { std::vector<Expr*> b(all.begin() + j, all.begin() + j + (hi - lo + 1)); Expr *x = C.read(C.internSnap(b), idx); r = r ? C.concat(r, x) : x; }
  return Val(r);
}
static void store(State *s, Val p, unsigned n, Val v, const char *what = "store") {
  Val off; Obj *o = resolve(s, p, n, true, off, what); o = s->m.getW(o->base >> IDSHIFT);
  if (off.conc()) { writeC(o, off.c, n, v); return; }
  u64 lo = off.e->lo, hi = rngBound(off.e, o->size - n);
  if (hi - lo > 64) tightRange(s, off.e, lo, hi);
  if (lo == hi) { writeC(o, lo, n, v); return; }
  if (hi - lo > symReadMax) { incompleteMark("symbolic-write-range>" + std::to_string(symReadMax)); throw Stop(); }
  Expr *ve = EX(v, n * 8);
  std::vector<Expr*> old; for (u64 i = lo; i < hi + n; i++) old.push_back(byteAt(s, o, i));
  o = s->m.getW(o->base >> IDSHIFT);
  std::vector<Expr*> cond; for (u64 i = lo; i <= hi; i++) cond.push_back(C.bin(KEq, C.cst(i, 64), off.e));
  for (u64 i = lo; i < hi + n; i++) { Expr *nb = old[i - lo]; for (unsigned j = 0; j < n; j++) { if (i < j + lo) continue; u64 st = i - j; if (st < lo || st > hi) continue; nb = C.ite(cond[st - lo], C.extract(ve, 8 * j, 8), nb); } setByte(o, i, nb); }
}

// ---------------------------------------------------------------- constants and decoding
static Val cval(Constant *c);
static u64 addrOf(GlobalValue *g) { auto i = gaddr.find(g); if (i != gaddr.end()) return i->second; fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); return 0; }
static unsigned bits(Type *t) { if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); return 0; }
static Val zeroOf(Type *t) { if (unsigned b = bits(t)) { (void)b; return Val((u64)0); } std::vector<Val> v; if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) v.push_back(zeroOf(e)); else if (auto *at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType())); else if (auto *vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType())); return mkAgg(v); }
static Val cval(Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) { if (i->getValue().getActiveBits() <= 64) return Val(i->getValue().getLoBits(64).getZExtValue()); return Val((u64)0); } return Val(i->getZExtValue()); }
  if (auto *f = dyn_cast<ConstantFP>(c)) { APInt a = f->getValueAPF().bitcastToAPInt(); return Val(a.getLoBits(std::min(64u, a.getBitWidth())).getLimitedValue()); }
  if (isa<ConstantPointerNull>(c)) return Val((u64)0);
  if (auto *g = dyn_cast<GlobalAlias>(c)) return cval(g->getAliasee());
  if (auto *g = dyn_cast<GlobalValue>(c)) return Val(addrOf(g));
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto *a = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (u64 i = 0; i < a->getNumElements(); i++) v.push_back(cval(a->getElementAsConstant(i))); return mkAgg(v); }
  if (auto *a = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i = 0; i < a->getNumOperands(); i++) v.push_back(cval(a->getOperand(i))); return mkAgg(v); }
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    if (e->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); auto *g = cast<GEPOperator>(e); if (g->accumulateConstantOffset(*DL, off)) { Val b = cval(cast<Constant>(g->getPointerOperand())); return Val(b.c + off.getZExtValue()); } }
    Val a = cval(e->getOperand(0)); unsigned w = bits(e->getType()), wa = bits(e->getOperand(0)->getType());
    switch (e->getOpcode()) { case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: return Val(a.c & mask(w)); case Instruction::ZExt: return a; case Instruction::SExt: return Val((u64)sext(a.c, wa) & mask(w));
      case Instruction::Sub: return Val((a.c - cval(e->getOperand(1)).c) & mask(w)); case Instruction::Add: return Val((a.c + cval(e->getOperand(1)).c) & mask(w)); default: break; }
  }
  std::string t; raw_string_ostream os(t); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); return Val((u64)0);
}
static void initMem(Obj *o, u64 off, Constant *c) {
  Type *t = c->getType(); u64 sz = DL->getTypeStoreSize(t);
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *a = dyn_cast<ConstantDataSequential>(c)) { StringRef d = a->getRawDataValues(); memcpy(&o->conc[off], d.data(), d.size()); return; }
  if (auto *a = dyn_cast<ConstantStruct>(c)) { const StructLayout *sl = DL->getStructLayout(a->getType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initMem(o, off + sl->getElementOffset(i), a->getOperand(i)); return; }
  if (auto *a = dyn_cast<ConstantAggregate>(c)) { u64 es = DL->getTypeAllocSize(a->getOperand(0)->getType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initMem(o, off + i * es, a->getOperand(i)); return; }
  Val v = cval(c); memcpy(&o->conc[off], &v.c, std::min<u64>(sz, 8));
}

enum Builtin { BNone = -1, BMalloc, BCalloc, BRealloc, BFree, BMemcpy, BMemset, BMemcmp, BSymbolic, BAssume, BAssert, BObserve, BObserveBuf, BParam, BReach, BCut, BCheckInit, BConcretize, BSprintf, BSnprintf, BMath1, BMath1f, BMath2, BMath2f, BNop0, BVsnprintf, BVsprintf, BStrtod, BAbort, BLiveHeap, BStepLimit, BSscanf, BIsSym, BMakeUninit, BUnsup, BSame, BPtrValid, BPowi, BFloorF, BAtexit, BPrintf };
static std::map<std::string, std::pair<int, int>> builtins; static std::vector<std::string> mathNames;
static int mathId(const std::string &n) { for (size_t i = 0; i < mathNames.size(); i++) if (mathNames[i] == n) return i; mathNames.push_back(n); return mathNames.size() - 1; }
u64 math_eval(u32 fn, unsigned w, u64 a, u64 b) {
  const std::string &n = mathNames[fn];
  if (w == 64) { double x = asD(a), y = asD(b), r = 0;
    if (n == "sin") r = sin(x); else if (n == "cos") r = cos(x); else if (n == "tan") r = tan(x); else if (n == "exp") r = exp(x); else if (n == "log") r = log(x); else if (n == "log10") r = log10(x); else if (n == "pow") r = pow(x, y); else if (n == "atan") r = atan(x); else if (n == "atan2") r = atan2(x, y); else if (n == "asin") r = asin(x); else if (n == "acos") r = acos(x); else if (n == "fmod") r = fmod(x, y); else if (n == "frexp_m") { int e; r = frexp(x, &e); } else if (n == "frexp_e") { int e; frexp(x, &e); return (u64)(u32)e; } else if (n == "ldexp") r = ldexp(x, (int)(i64)asD(b)); else if (n == "exp2") r = exp2(x); else if (n == "log2") r = log2(x); else abort();
    return ofD(r); }
  float x = asF(a), y = asF(b), r = 0;
  if (n == "sin") r = sinf(x); else if (n == "cos") r = cosf(x); else if (n == "tan") r = tanf(x); else if (n == "exp") r = expf(x); else if (n == "log") r = logf(x); else if (n == "log10") r = log10f(x); else if (n == "pow") r = powf(x, y); else if (n == "atan") r = atanf(x); else if (n == "atan2") r = atan2f(x, y); else if (n == "asin") r = asinf(x); else if (n == "acos") r = acosf(x); else if (n == "fmod") r = fmodf(x, y); else if (n == "exp2") r = exp2f(x); else if (n == "log2") r = log2f(x); else if (n == "ldexp") r = ldexpf(x, (int)b); else abort();
  return ofF(r);
}
static void initBuiltins() {
  auto B = [&](const char *n, int b, int x = 0) { builtins[n] = {b, x}; };
  B("malloc", BMalloc); B("_Znwm", BMalloc); B("_Znam", BMalloc); B("valloc", BMalloc); B("calloc", BCalloc); B("realloc", BRealloc); B("free", BFree); B("_ZdlPv", BFree); B("_ZdaPv", BFree); B("_ZdlPvm", BFree); B("_ZdaPvm", BFree);
  B("memcpy", BMemcpy); B("memmove", BMemcpy); B("memset", BMemset); B("memcmp", BMemcmp); B("bcmp", BMemcmp);
  B("vp_symbolic", BSymbolic); B("vp_assume", BAssume); B("vp_assert", BAssert); B("vp_observe", BObserve); B("vp_observe_buf", BObserveBuf); B("vp_param", BParam); B("vp_reach", BReach); B("vp_cut", BCut); B("vp_check_init", BCheckInit); B("vp_concretize", BConcretize); B("vp_live_heap", BLiveHeap); B("vp_step_limit", BStepLimit); B("vp_make_uninit", BMakeUninit); B("vp_same", BSame); B("vp_ptr_valid", BPtrValid);
  B("sprintf", BSprintf); B("snprintf", BSnprintf); B("vsnprintf", BVsnprintf); B("vsprintf", BVsprintf); B("strtod", BStrtod); B("__isoc99_sscanf", BSscanf); B("__isoc23_sscanf", BSscanf); B("sscanf", BSscanf);
  for (const char *n : {"sin", "cos", "tan", "exp", "log", "log10", "atan", "asin", "acos", "exp2", "log2"}) { B(n, BMath1, mathId(n)); builtins[std::string(n) + "f"] = {BMath1f, mathId(n)}; }
  for (const char *n : {"pow", "atan2", "fmod"}) { B(n, BMath2, mathId(n)); builtins[std::string(n) + "f"] = {BMath2f, mathId(n)}; }
  B("abort", BAbort); B("exit", BAbort); B("__assert_fail", BAbort); B("_ZSt17__throw_bad_allocv", BAbort); B("_ZSt20__throw_length_errorPKc", BAbort);
  B("vp_fresh", BNop0); B("atexit", BNop0); B("__cxa_atexit", BNop0); B("printf", BPrintf); B("puts", BPrintf); B("putchar", BPrintf); B("fprintf", BPrintf); B("fputs", BPrintf); B("fflush", BPrintf); B("fwrite", BPrintf);
}

static KFunc *getK(Function *F) {
  auto it = kfuncs.find(F); if (it != kfuncs.end()) return it->second;
  KFunc *k = new KFunc(); k->F = F; kfuncs[F] = k;
  for (auto &a : F->args()) k->slot[&a] = k->nslots++;
  for (auto &b : *F) for (auto &i : b) if (!i.getType()->isVoidTy()) k->slot[&i] = k->nslots++;
  std::map<Constant*, int> cs;
  auto opnd = [&](Value *v) -> int { if (auto *c = dyn_cast<Constant>(v)) { auto i = cs.find(c); if (i != cs.end()) return i->second; k->consts.push_back(cval(c)); int id = -(int)k->consts.size(); cs[c] = id; return id; } if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return 0; return k->slot[v]; };
  for (auto &b : *F) { KBlock *kb = new KBlock(); kb->BB = &b; kb->idx = k->blocks.size(); k->blocks.push_back(kb); k->bmap[&b] = kb; }
  for (KBlock *kb : k->blocks) for (auto &i : *kb->BB) {
    if (auto *p = dyn_cast<PHINode>(&i)) { kb->phis.push_back(p); for (auto &v : p->incoming_values()) opnd(v); continue; }
    if (isa<DbgInfoIntrinsic>(&i)) continue;
    KInst ki; ki.I = &i; ki.op = i.getOpcode(); ki.dest = i.getType()->isVoidTy() ? -1 : k->slot[&i]; ki.w = bits(i.getType());
    if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
      ki.ops.push_back(opnd(g->getPointerOperand())); u64 off = 0;
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value *ix = gi.getOperand();
        if (StructType *st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        u64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += (u64)ci->getSExtValue() * es; continue; }
        ki.gepIdx.push_back({opnd(ix), es}); ki.gepW.push_back(bits(ix->getType())); }
      ki.gepConst = off;
    } else if (auto *c = dyn_cast<CallBase>(&i)) {
      Value *cv = c->getCalledOperand()->stripPointerCasts(); if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts(); ki.callee = dyn_cast<Function>(cv);
      if (ki.callee && !isa<IntrinsicInst>(&i)) { auto bi = builtins.find(ki.callee->getName().str()); if (bi != builtins.end()) ki.builtin = bi->second.first; }
      for (auto &a : c->args()) ki.ops.push_back(opnd(a)); if (!ki.callee) ki.ops.push_back(opnd(c->getCalledOperand()));
    } else for (auto &v : i.operands()) ki.ops.push_back(opnd(v));
    kb->in.push_back(std::move(ki));
  }
  return k;
}
static void liveness(KFunc *k) {
  if (k->liveDone) return; k->liveDone = true; size_t nw = (k->nslots + 63) / 64; size_t nb = k->blocks.size();
  std::vector<std::vector<u64>> use(nb, std::vector<u64>(nw)), def(nb, std::vector<u64>(nw)), out(nb, std::vector<u64>(nw));
  for (auto *b : k->blocks) b->live.assign(nw, 0);
  auto set = [](std::vector<u64> &v, int i) { v[i >> 6] |= 1ull << (i & 63); }; auto tst = [](std::vector<u64> &v, int i) { return v[i >> 6] >> (i & 63) & 1; };
  for (auto *b : k->blocks) { for (auto &i : *b->BB) { if (isa<DbgInfoIntrinsic>(&i)) continue; if (!isa<PHINode>(&i)) for (auto &v : i.operands()) if (isa<Instruction>(v) || isa<Argument>(v)) { int sl = k->slot[v]; if (!tst(def[b->idx], sl)) set(use[b->idx], sl); } if (!i.getType()->isVoidTy() && !isa<PHINode>(&i)) set(def[b->idx], k->slot[&i]); } }
  // "live at first non-phi": phis of the block itself count as live if used
  bool ch = true; while (ch) { ch = false; for (size_t bi = nb; bi-- > 0;) { KBlock *b = k->blocks[bi];
      for (BasicBlock *sb : successors(b->BB)) { KBlock *t = k->bmap[sb]; for (size_t i = 0; i < nw; i++) out[bi][i] |= t->live[i]; for (auto *p : t->phis) out[bi][k->slot[p] >> 6] &= ~0ull; for (auto *p : t->phis) { Value *v = p->getIncomingValueForBlock(b->BB); if (isa<Instruction>(v) || isa<Argument>(v)) set(out[bi], k->slot[v]); } }
      for (size_t i = 0; i < nw; i++) { u64 n = use[bi][i] | (out[bi][i] & ~def[bi][i]); if (n != b->live[i]) { b->live[i] = n; ch = true; } } } }
  PostDominatorTree pdt(*k->F);
  for (auto *b : k->blocks) { auto *n = pdt.getNode(b->BB); auto *p = n ? n->getIDom() : nullptr; b->ipdom = p && p->getBlock() ? k->bmap[p->getBlock()] : nullptr; }
}

// ---------------------------------------------------------------- execution helpers
static inline Val &reg(Frame &f, int i) { return f.regs[i]; }
static inline Val opv(Frame &f, int i) { return i < 0 ? f.kf->consts[-i - 1] : f.regs[i]; }

static void enterBlock(State *s, KBlock *from, KBlock *to) {
  Frame &f = s->st.back();
  if (!to->phis.empty()) { std::vector<Val> t; t.reserve(to->phis.size()); for (auto *p : to->phis) { Value *v = p->getIncomingValueForBlock(from->BB); if (auto *c = dyn_cast<Constant>(v)) t.push_back(cval(c)); else { Val q = f.regs[f.kf->slot[v]]; if (q.e && !q.agg() && q.e->ctl && q.e->w >= 16 && !s->pc.empty()) q = Val(simp(s, q.e)); t.push_back(q); } } for (size_t i = 0; i < t.size(); i++) f.regs[f.kf->slot[to->phis[i]]] = t[i]; }
  f.b = to; f.ip = 0;
}
static bool parkIfJoin(State *s, KBlock *b) {
  Group *g = s->grp; if (g && g->join == b && b && g->depth == s->st.size()) return true; return false;
}
static bool mergeInto(State *a, State *b);
static void doPark(State *s) { Group *g = s->grp; g->parked.push_back(s); g->pending--; groupDone(g); }
static void groupDone(Group *g) {
  if (g->pending > 0) return;
  // merge parked
  std::vector<State*> res;
  for (State *s : g->parked) { bool done = false; for (State *r : res) if (mergeInto(r, s)) { delete s; done = true; nMerges++; break; } if (!done) res.push_back(s); }
  Group *p = g->parent; if (p) { p->pending += (int)res.size() - 1; }
  size_t depth = g->depth; KBlock *join = g->join; delete g;
  for (State *s : res) { s->grp = p; if (p && p->join == join && p->depth == depth && join) { p->parked.push_back(s); p->pending--; } else if (p && !join && !p->join && p->depth == depth) { p->parked.push_back(s); p->pending--; } else work.push_back(s); }
  if (p && p->pending <= 0) groupDone(p);
}
static Expr *conj(std::vector<Expr*> &v, size_t from) { Expr *r = C.cst(1, 1); for (size_t i = from; i < v.size(); i++) r = C.andE(v[i], r); return r; }
static bool mergeInto(State *a, State *b) {
  if (a->st.size() != b->st.size()) { nMergeFail++; return false; }
  if (a->inputs.size() != b->inputs.size() || a->obs.size() != b->obs.size() || a->reached.size() != b->reached.size()) { nMergeFail++; return false; }
  Frame &fa = a->st.back(), &fb = b->st.back(); if (fa.b != fb.b || fa.ip != fb.ip || fa.kf != fb.kf) return false;
  size_t pre = 0; while (pre < a->pc.size() && pre < b->pc.size() && a->pc[pre] == b->pc[pre]) pre++;
  Expr *ca = conj(a->pc, pre), *cb = conj(b->pc, pre);
  Expr *sel = nullptr;
  if (pre < a->pc.size() && pre < b->pc.size() && a->pc[pre] == C.notE(b->pc[pre])) sel = a->pc[pre]; else sel = ca; // disjoint by construction
  liveness(fa.kf);
  struct RD { int slot; Val v; }; std::vector<RD> rd;
  bool atStart = fa.ip == 0; std::vector<u64> &live = fa.b->live;
  auto scal = [&](Value *) {}; (void)scal;
  for (int i = 0; i < fa.kf->nslots; i++) { if (atStart && !(live[i >> 6] >> (i & 63) & 1)) continue; Val x = fa.regs[i], y = fb.regs[i]; if (x.e == y.e && x.c == y.c) continue; if (x.agg() || y.agg()) { nMergeFail++; return false; }
    if (!atStart) { }
    unsigned w = x.e ? x.e->w : y.e ? y.e->w : 0;
    if (w == 0) { // both concrete: find type width
      w = 0; for (auto &kv : fa.kf->slot) if (kv.second == i) { w = bits(kv.first->getType()); break; } if (!w || w >= 32) { nMergeFail++; return false; } }
    Expr *ex = EX(x, w), *ey = EX(y, w); rd.push_back({i, Val(C.ite(sel, ex, ey))}); }
  // memory
  size_t nc = std::max(a->m.ch.size(), b->m.ch.size());
  std::vector<u32> diffs;
  for (size_t c = 0; c < nc; c++) { Chunk *x = c < a->m.ch.size() ? a->m.ch[c].get() : nullptr, *y = c < b->m.ch.size() ? b->m.ch[c].get() : nullptr; if (x == y) continue;
    for (int i = 0; i < 64; i++) { Obj *p = x ? x->o[i].get() : nullptr, *q = y ? y->o[i].get() : nullptr; if (p == q) continue; if (!p || !q) { nMergeFail++; return false; } if (p->size != q->size || p->symSize != q->symSize || p->kind != q->kind) { nMergeFail++; return false; }
      bool small = p->size <= 8; size_t nd = 0;
      for (u32 k = 0; k < p->size; k++) { Expr *ex = p->sym.empty() ? nullptr : p->sym[k], *ey = q->sym.empty() ? nullptr : q->sym[k]; if (ex == ey && (ex || p->conc[k] == q->conc[k])) continue; nd++; if (!ex && !ey && small) { nMergeFail++; return false; } }
      if (nd) { if (nd > 4096) { nMergeFail++; return false; } diffs.push_back(c * 64 + i); } } }
  for (u32 id : diffs) { Obj *q = b->m.get(id); Obj *p = a->m.getW(id); for (u32 k = 0; k < p->size; k++) { Expr *ex = p->sym.empty() ? nullptr : p->sym[k], *ey = q->sym.empty() ? nullptr : q->sym[k]; if (ex == ey && (ex || p->conc[k] == q->conc[k])) continue; if (ex == UNINIT || ey == UNINIT) { if (ex == UNINIT && ey == UNINIT) continue; if (ex == UNINIT) ex = byteAt(a, p, k); else { Obj *qq = q; ey = byteAt(b, qq, k); q = b->m.get(id); } }
      if (!ex) ex = C.cst(p->conc[k], 8); if (!ey) ey = C.cst(q->conc[k], 8); p = a->m.getW(id); setByte(p, k, C.ite(sel, ex, ey)); } }
  for (auto &r : rd) a->st.back().regs[r.slot] = r.v;
  a->m.next = std::max(a->m.next, b->m.next);
  Expr *dis = C.orE(ca, cb); a->pc.resize(pre); addPC(a, dis);
  a->steps = std::max(a->steps, b->steps); a->inexact |= b->inexact; a->allocCount = std::max(a->allocCount, b->allocCount);
  return true;
}

static Obj *newHeap(State *s, u64 size, Expr *symSize, bool zero) {
  Obj *o = s->m.add(size, OHeap, "heap"); o->allocSeq = s->allocCount++; o->symSize = symSize; if (!zero && size) { o->sym.assign(size, UNINIT); } return o;
}
static u64 heapCap = 1 << 20;
static Val doMalloc(State *s, Val sz, bool zero) {
  if (!sz.conc()) sz = Val(simp(s, sz.e));
  if (sz.conc()) { if (sz.c > (1ull << 31)) { nNullAlloc++; return Val((u64)0); } if (sz.c > (256u << 20)) { incompleteMark("huge-alloc"); throw Stop(); } Obj *o = newHeap(s, sz.c, nullptr, zero); return Val(o->base); }
  // symbolic size
  u64 lo = sz.e->lo, hi = sz.e->hi; if (hi > heapCap) { SModel om; Expr *big = C.bin(KUlt, C.cst(heapCap, 64), sz.e); if (mayBe(s, big, om)) { incompleteMark("symbolic-alloc>cap"); SModel m2; Expr *sm = C.notE(big); if (!mayBe(s, sm, m2)) throw Stop(); s->model = m2; addPC(s, sm); } hi = heapCap; }
  tightRange(s, sz.e, lo, hi); if (lo == hi) { Obj *o = newHeap(s, lo, nullptr, zero); return Val(o->base); }
  Obj *o = newHeap(s, hi, sz.e, zero); return Val(o->base);
}
static void doFree(State *s, Val p) {
  u64 a = p.conc() ? p.c : concretize(s, p.e, "free"); if (!a) return; u32 id = a >> IDSHIFT; Obj *o = s->m.get(id);
  if (!o) { report(s, s->m.wasFreed(id) ? "double-free" : "bad-free", "free of " + hex(a), s->model); throw Stop(); }
  if (o->kind != OHeap || a != o->base) { report(s, "bad-free", std::string("free of non-heap or interior pointer ") + o->name, s->model); throw Stop(); }
  s->m.free(id, false);
}
static void doCopy(State *s, Val d, Val sp, u64 n, const char *what) {
  if (n == 0) return; Val od, os;
  Obj *o1 = resolve(s, sp, n, false, os, what); Obj *o2 = resolve(s, d, n, true, od, what);
  if (od.conc() && os.conc()) {
    bool srcSym = !o1->sym.empty(); std::vector<u8> t(o1->conc.begin() + os.c, o1->conc.begin() + os.c + n); std::vector<Expr*> ts; if (srcSym) { bool any = false; for (u64 i = 0; i < n; i++) if (o1->sym[os.c + i]) { any = true; break; } if (any) { for (u64 i = 0; i < n; i++) { Expr *e = o1->sym[os.c + i]; if (e == UNINIT) e = byteAt(s, o1, os.c + i); ts.push_back(e); } } }
    Obj *w = s->m.getW(d.conc() ? d.c >> IDSHIFT : o2->base >> IDSHIFT); memcpy(&w->conc[od.c], t.data(), n);
    if (!ts.empty()) { if (w->sym.empty()) w->sym.assign(w->size, nullptr); for (u64 i = 0; i < n; i++) w->sym[od.c + i] = ts[i]; } else if (!w->sym.empty()) for (u64 i = 0; i < n; i++) w->sym[od.c + i] = nullptr;
    return;
  }
  std::vector<Val> t; for (u64 i = 0; i < n; i++) { Val q = sp.conc() ? Val(sp.c + i) : Val(C.bin(KAdd, C.cst(i, 64), sp.e)); t.push_back(load(s, q, 1, what)); }
  for (u64 i = 0; i < n; i++) { Val q = d.conc() ? Val(d.c + i) : Val(C.bin(KAdd, C.cst(i, 64), d.e)); store(s, q, 1, t[i], what); }
}
static std::string cstr(State *s, Val p, bool &sym, size_t maxn = 4096) { std::string r; sym = false; u64 a = p.conc() ? p.c : concretize(s, p.e, "string pointer"); for (size_t i = 0; i < maxn; i++) { Val v = load(s, Val(a + i), 1, "string read"); if (!v.conc()) { u64 c = concretize(s, v.e, "string byte"); v = Val(c); } if (!v.c) break; r.push_back((char)v.c); } return r; }

static Val binop(Kind k, Val a, Val b, unsigned w) { bool cmp = (k >= KEq && k <= KSle) || (k >= KFOeq && k <= KFUno); if (a.conc() && b.conc()) return Val(op_eval(k, cmp ? 1 : w, 0, w, a.c, b.c, 0, w)); return Val(C.bin(k, EX(a, w), EX(b, w))); }
static Val notv(Val a) { if (a.conc()) return Val((u64)!a.c); return Val(C.notE(a.e)); }
static Val fcmp(unsigned pred, Val a, Val b, unsigned w) {
  auto O = [&](Kind k, Val x, Val y) { return binop(k, x, y, w); }; Val un = Val((u64)0);
  switch (pred) {
  case CmpInst::FCMP_FALSE: return Val((u64)0); case CmpInst::FCMP_TRUE: return Val((u64)1);
  case CmpInst::FCMP_OEQ: return O(KFOeq, a, b); case CmpInst::FCMP_OLT: return O(KFOlt, a, b); case CmpInst::FCMP_OLE: return O(KFOle, a, b); case CmpInst::FCMP_OGT: return O(KFOlt, b, a); case CmpInst::FCMP_OGE: return O(KFOle, b, a);
  case CmpInst::FCMP_UNO: return O(KFUno, a, b); case CmpInst::FCMP_ORD: return notv(O(KFUno, a, b));
  case CmpInst::FCMP_UNE: return notv(O(KFOeq, a, b)); case CmpInst::FCMP_UGE: return notv(O(KFOlt, a, b)); case CmpInst::FCMP_UGT: return notv(O(KFOle, a, b)); case CmpInst::FCMP_ULE: return notv(O(KFOlt, b, a)); case CmpInst::FCMP_ULT: return notv(O(KFOle, b, a));
  case CmpInst::FCMP_UEQ: return binop(KOr, O(KFUno, a, b), O(KFOeq, a, b), 1); case CmpInst::FCMP_ONE: return notv(binop(KOr, O(KFUno, a, b), O(KFOeq, a, b), 1));
  } abort();
}
static Val iteV(Val c, Val t, Val f, unsigned w) { if (c.conc()) return c.c ? t : f; return Val(C.ite(c.e, EX(t, w), EX(f, w))); }
static Val icmp(unsigned p, Val a, Val b, unsigned w) {
  switch (p) { case CmpInst::ICMP_EQ: return binop(KEq, a, b, w); case CmpInst::ICMP_NE: return notv(binop(KEq, a, b, w)); case CmpInst::ICMP_ULT: return binop(KUlt, a, b, w); case CmpInst::ICMP_ULE: return binop(KUle, a, b, w); case CmpInst::ICMP_UGT: return binop(KUlt, b, a, w); case CmpInst::ICMP_UGE: return binop(KUle, b, a, w); case CmpInst::ICMP_SLT: return binop(KSlt, a, b, w); case CmpInst::ICMP_SLE: return binop(KSle, a, b, w); case CmpInst::ICMP_SGT: return binop(KSlt, b, a, w); case CmpInst::ICMP_SGE: return binop(KSle, b, a, w); } abort();
}
static Val unop(Kind k, Val a, unsigned wa, unsigned w, u32 aux = 0) { if (a.conc()) return Val(op_eval(k, w, aux, wa, a.c, 0, 0, 0)); return Val(C.un(k, a.e, w, aux)); }
static Val zextV(Val a, unsigned wa, unsigned w) { if (a.conc()) return a; (void)wa; return Val(C.zext(a.e, w)); }
static Val truncV(Val a, unsigned w) { if (a.conc()) return Val(a.c & mask(w)); return Val(C.extract(a.e, 0, w)); }
static Val fptoint(Val a, unsigned wa, unsigned w, bool sg) {
  if (sg) { if (w <= 32) return truncV(unop(KFToSI, a, wa, 32), w); return unop(KFToSI, a, wa, 64); }
  if (w <= 16) return truncV(unop(KFToSI, a, wa, 32), w); if (w <= 32) return truncV(unop(KFToSI, a, wa, 64), w); return unop(KFToUI, a, wa, 64);
}
static Val inttofp(Val a, unsigned wa, unsigned w, bool sg) { return unop(sg ? KSIToF : KUIToF, a, wa, w); }
static Val loadTy(State *s, Val p, Type *t) {
  if (unsigned b = bits(t)) { u64 n = DL->getTypeStoreSize(t); if (n > 8) { incompleteMark("wide-load"); throw Stop(); } Val v = load(s, p, n); if (b < n * 8) v = truncV(v, b); return v; }
  std::vector<Val> v; auto at = [&](u64 o, Type *et) { Val q = p.conc() ? Val(p.c + o) : Val(C.bin(KAdd, C.cst(o, 64), p.e)); v.push_back(loadTy(s, q, et)); };
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) at(sl->getElementOffset(i), st->getElementType(i)); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) at(i * es, vt->getElementType()); }
  else if (auto *vt = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) at(i * es, vt->getElementType()); }
  else { incompleteMark("load-type"); throw Stop(); }
  return mkAgg(v);
}
static void storeTy(State *s, Val p, Type *t, Val x) {
  if (unsigned b = bits(t)) { u64 n = DL->getTypeStoreSize(t); if (n > 8) { incompleteMark("wide-store"); throw Stop(); } if (b < n * 8) x = x.conc() ? x : Val(C.zext(x.e, n * 8)); store(s, p, n, x); return; }
  auto at = [&](u64 o, Type *et, Val y) { Val q = p.conc() ? Val(p.c + o) : Val(C.bin(KAdd, C.cst(o, 64), p.e)); storeTy(s, q, et, y); };
  Agg *a = getAgg(x);
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) at(sl->getElementOffset(i), st->getElementType(i), a->v[i]); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) at(i * es, vt->getElementType(), a->v[i]); }
  else if (auto *vt = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) at(i * es, vt->getElementType(), a->v[i]); }
}

static void popFrame(State *s) { for (u32 id : s->st.back().allocas) s->m.free(id, true); s->st.pop_back(); }
static void finishPath(State *s) {
  nPaths++; pathSeen++;
  PathRec r; r.inputs = s->inputs; r.model = s->model; r.obs = s->obs; r.reached = s->reached; r.steps = s->steps;
  for (auto &x : s->reached) reachCount[x]++;
  if ((int)pathSamples.size() < maxPathsOut) pathSamples.push_back(r); else { u64 j = rng() % pathSeen; if (j < (u64)maxPathsOut) pathSamples[j] = r; }
}
static void pushFrame(State *s, Function *F, const std::vector<Val> &args, int retSlot, KBlock *nd, KBlock *cb, Instruction *site) {
  KFunc *k = getK(F); if (!k->entered) { k->entered = true; }
  if (s->st.size() > 2000) { report(s, "stack-overflow", "call depth over 2000", s->model); throw Stop(); }
  Frame f; f.kf = k; f.b = k->blocks[0]; f.ip = 0; f.retSlot = retSlot; f.normalDest = nd; f.callBlock = cb; f.regs.resize(k->nslots); f.site = site;
  size_t n = F->arg_size(); for (size_t i = 0; i < args.size(); i++) { if (i < n) f.regs[i] = args[i]; else f.va.push_back(args[i]); }
  s->st.push_back(std::move(f));
}
#include "builtins.h"

static void branchTo(State *s, KBlock *from, KBlock *to, bool &parked) { enterBlock(s, from, to); parked = parkIfJoin(s, to); }

// executes until the state stops, parks or forks into the work list
static void run(State *s) {
  u64 cnt = 0;
  try {
    for (;;) {
      Frame &f = s->st.back(); KInst &k = f.b->in[f.ip]; nInstr++; s->steps++;
      if ((++cnt & 0xfff) == 0) { if (now() - T0 > timeLimit) { incompleteMark("time-limit"); throw Stop(); } }
      if (s->steps > s->stepLimit) { report(s, "hang", "step limit exceeded", s->model); if (!s->hangWatch) incompleteMark("step-limit"); throw Stop(); }
      switch (k.op) {
      case Instruction::Ret: {
        Val rv; bool has = !k.ops.empty(); if (has) rv = opv(f, k.ops[0]);
        int rs = f.retSlot; KBlock *nd = f.normalDest, *cb = f.callBlock; popFrame(s);
        if (s->st.empty()) { finishPath(s); throw Stop(); }
        Frame &c = s->st.back(); if (rs >= 0 && has) c.regs[rs] = rv; 
        if (nd) enterBlock(s, cb, nd);
        if (s->grp && !s->grp->join && s->grp->depth == s->st.size() + 1) { doPark(s); return; }
        break; }
      case Instruction::Br: {
        auto *br = cast<BranchInst>(k.I);
        KBlock *from = f.b;
        if (br->isUnconditional()) { bool pk; branchTo(s, from, f.kf->bmap[br->getSuccessor(0)], pk); if (pk) { doPark(s); return; } break; }
        Val c = opv(f, k.ops[0]); KBlock *t = f.kf->bmap[br->getSuccessor(0)], *e = f.kf->bmap[br->getSuccessor(1)];
        if (!c.conc()) c = Val(simp(s, c.e));
        bool side;
        if (c.conc()) side = c.c; else {
          bool sd = C.eval(c.e, s->model); Expr *neg = C.notE(c.e); SModel om;
          if (mayBe(s, sd ? neg : c.e, om)) {
            nForks++;
            bool mg = mergeOn; if (mg && !mergeFns.empty()) mg = mergeFns.count(f.kf->F->getName().str());
            if (mg) { liveness(f.kf); Group *g = new Group{s->grp, 1, {}, s->st.size(), from->ipdom, f.kf, s->steps}; s->grp = g; }
            State *o = cloneState(s); addPC(o, sd ? neg : c.e); o->model = om; o->forks++; addPC(s, sd ? c.e : neg); s->forks++;
            bool pk; branchTo(o, from, sd ? e : t, pk);
            bool pk2; branchTo(s, from, sd ? t : e, pk2);
            if (pk) doPark(o); else work.push_back(o);
            if (pk2) doPark(s); else work.push_back(s);
            return;
          }
          side = sd;
        }
        bool pk; branchTo(s, from, side ? t : e, pk); if (pk) { doPark(s); return; }
        break; }
      case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(k.I); Val c = opv(f, k.ops[0]); unsigned w = bits(sw->getCondition()->getType()); KBlock *from = f.b; if (!c.conc()) c = Val(simp(s, c.e));
        if (c.conc()) { BasicBlock *d = sw->getDefaultDest(); for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { d = cs.getCaseSuccessor(); break; } bool pk; branchTo(s, from, f.kf->bmap[d], pk); if (pk) { doPark(s); return; } break; }
        // group by successor
        std::vector<std::pair<BasicBlock*, Expr*>> tg; Expr *none = C.cst(1, 1);
        for (auto &cs : sw->cases()) { Expr *eq = C.bin(KEq, C.cst(cs.getCaseValue()->getZExtValue(), w), c.e); none = C.andE(none, C.notE(eq)); bool fd = false; for (auto &p : tg) if (p.first == cs.getCaseSuccessor()) { p.second = C.orE(p.second, eq); fd = true; break; } if (!fd) tg.push_back({cs.getCaseSuccessor(), eq}); }
        { bool fd = false; for (auto &p : tg) if (p.first == sw->getDefaultDest()) { p.second = C.orE(p.second, none); fd = true; } if (!fd) tg.push_back({sw->getDefaultDest(), none}); }
        std::vector<std::pair<BasicBlock*, SModel>> feas; std::vector<Expr*> fe; for (auto &p : tg) { SModel om; if (p.second->k == KConst && !p.second->val) continue; if (mayBe(s, p.second, om)) { feas.push_back({p.first, om}); fe.push_back(p.second); } }
        if (feas.empty()) { incompleteMark("switch-infeasible"); throw Stop(); }
        bool mg = mergeOn && feas.size() > 1; if (mg && !mergeFns.empty()) mg = mergeFns.count(f.kf->F->getName().str());
        if (mg) { liveness(f.kf); Group *g = new Group{s->grp, 1, {}, s->st.size(), from->ipdom, f.kf, s->steps}; s->grp = g; }
        KFunc *kf = f.kf; std::vector<State*> all; for (size_t i = 0; i + 1 < feas.size(); i++) { nForks++; all.push_back(cloneState(s)); } all.push_back(s);
        for (size_t i = 0; i < all.size(); i++) { addPC(all[i], fe[i]); all[i]->model = feas[i].second; }
        std::vector<State*> pks; for (size_t i = 0; i < all.size(); i++) { bool pk; branchTo(all[i], from, kf->bmap[feas[i].first], pk); if (pk) pks.push_back(all[i]); else work.push_back(all[i]); }
        for (State *p : pks) doPark(p);
        return; }
      case Instruction::Unreachable: incompleteMark("unreachable-reached"); throw Stop();
#define BOP(I, K) case Instruction::I: f.regs[k.dest] = binop(K, opv(f, k.ops[0]), opv(f, k.ops[1]), k.w); f.ip++; break;
      BOP(Add, KAdd) BOP(Sub, KSub) BOP(Mul, KMul) BOP(And, KAnd) BOP(Or, KOr) BOP(Xor, KXor) BOP(Shl, KShl) BOP(LShr, KLShr) BOP(AShr, KAShr) 
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        if (k.op == Instruction::FRem) { Val a = opv(f, k.ops[0]), b = opv(f, k.ops[1]); int id = mathId("fmod"); if (a.conc() && b.conc()) f.regs[k.dest] = Val(math_eval(id, k.w, a.c, b.c)); else f.regs[k.dest] = Val(C.un(KMath, EX(a, k.w), k.w, id, EX(b, k.w))); f.ip++; break; }
        Kind kk = k.op == Instruction::FAdd ? KFAdd : k.op == Instruction::FSub ? KFSub : k.op == Instruction::FMul ? KFMul : KFDiv;
        if (!k.w) { // vector
          Type *et = cast<FixedVectorType>(k.I->getType())->getElementType(); Agg *a = getAgg(opv(f, k.ops[0])), *b = getAgg(opv(f, k.ops[1])); std::vector<Val> v; for (size_t i = 0; i < a->v.size(); i++) v.push_back(binop(kk, a->v[i], b->v[i], bits(et))); f.regs[k.dest] = mkAgg(v); f.ip++; break; }
        f.regs[k.dest] = binop(kk, opv(f, k.ops[0]), opv(f, k.ops[1]), k.w); f.ip++; break; }
      case Instruction::FNeg: { Val a = opv(f, k.ops[0]); u64 sb = 1ull << (k.w - 1); f.regs[k.dest] = binop(KXor, Val(sb), a, k.w); f.ip++; break; }
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        Val a = opv(f, k.ops[0]), b = opv(f, k.ops[1]);
        Val z = binop(KEq, b, Val((u64)0), k.w);
        if (z.conc()) { if (z.c) { report(s, "div-by-zero", "integer division by zero", s->model); throw Stop(); } }
        else { SModel om; if (mayBe(s, z.e, om)) { report(s, "div-by-zero", "integer division by zero", om); SModel m2; if (!mayBe(s, C.notE(z.e), m2)) throw Stop(); s->model = m2; addPC(s, C.notE(z.e)); } }
        f.regs[k.dest] = binop(k.op == Instruction::UDiv ? KUDiv : k.op == Instruction::SDiv ? KSDiv : k.op == Instruction::URem ? KURem : KSRem, a, b, k.w); f.ip++; break; }
      case Instruction::ICmp: { unsigned w = bits(k.I->getOperand(0)->getType()); f.regs[k.dest] = icmp(cast<ICmpInst>(k.I)->getPredicate(), opv(f, k.ops[0]), opv(f, k.ops[1]), w); f.ip++; break; }
      case Instruction::FCmp: { unsigned w = bits(k.I->getOperand(0)->getType()); f.regs[k.dest] = fcmp(cast<FCmpInst>(k.I)->getPredicate(), opv(f, k.ops[0]), opv(f, k.ops[1]), w); f.ip++; break; }
      case Instruction::Select: { Val c = opv(f, k.ops[0]), t = opv(f, k.ops[1]), e = opv(f, k.ops[2]); if (c.conc()) f.regs[k.dest] = c.c ? t : e; else if (k.w) {
          // pointer selects: fork so that provenance stays concrete
          if (k.I->getType()->isPointerTy() && t.conc() && e.conc() && t.c != e.c) { bool sd = C.eval(c.e, s->model); SModel om; if (mayBe(s, sd ? C.notE(c.e) : c.e, om)) { State *o = cloneState(s); nForks++; addPC(o, sd ? C.notE(c.e) : c.e); o->model = om; o->st.back().regs[k.dest] = sd ? e : t; o->st.back().ip++; work.push_back(o); addPC(s, sd ? c.e : C.notE(c.e)); } f.regs[k.dest] = sd ? t : e; }
          else f.regs[k.dest] = Val(C.ite(c.e, EX(t, k.w), EX(e, k.w))); } else { incompleteMark("select-agg"); throw Stop(); } f.ip++; break; }
      case Instruction::ZExt: f.regs[k.dest] = zextV(opv(f, k.ops[0]), 0, k.w); f.ip++; break;
      case Instruction::SExt: { unsigned wa = bits(k.I->getOperand(0)->getType()); Val a = opv(f, k.ops[0]); f.regs[k.dest] = a.conc() ? Val((u64)sext(a.c, wa) & mask(k.w)) : Val(C.sextE(a.e, k.w)); f.ip++; break; }
      case Instruction::Trunc: f.regs[k.dest] = truncV(opv(f, k.ops[0]), k.w); f.ip++; break;
      case Instruction::PtrToInt: { Val a = opv(f, k.ops[0]); f.regs[k.dest] = k.w < 64 ? truncV(a, k.w) : a; f.ip++; break; }
      case Instruction::IntToPtr: { Val a = opv(f, k.ops[0]); f.regs[k.dest] = zextV(a, 0, 64); f.ip++; break; }
      case Instruction::BitCast: { Val a = opv(f, k.ops[0]); Type *ft = k.I->getOperand(0)->getType(), *tt = k.I->getType();
        if (bits(ft) && bits(tt)) f.regs[k.dest] = a;
        else if (auto *vt = dyn_cast<FixedVectorType>(ft); vt && bits(tt)) { unsigned ew = bits(vt->getElementType()); Agg *g = getAgg(a); Val r = g->v.back(); unsigned w = ew; for (int i = (int)g->v.size() - 2; i >= 0; i--) { if (r.conc() && g->v[i].conc()) r = Val(((r.c << ew) | g->v[i].c)); else r = Val(C.concat(EX(r, w), EX(g->v[i], ew))); w += ew; } f.regs[k.dest] = r; }
        else if (auto *vt = dyn_cast<FixedVectorType>(tt); vt && bits(ft)) { unsigned ew = bits(vt->getElementType()); std::vector<Val> v; for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(a.conc() ? Val((a.c >> (i * ew)) & mask(ew)) : Val(C.extract(a.e, i * ew, ew))); f.regs[k.dest] = mkAgg(v); }
        else { incompleteMark("bitcast"); throw Stop(); }
        f.ip++; break; }
      case Instruction::FPExt: f.regs[k.dest] = unop(KFExt, opv(f, k.ops[0]), 32, 64); f.ip++; break;
      case Instruction::FPTrunc: f.regs[k.dest] = unop(KFTrunc, opv(f, k.ops[0]), 64, 32); f.ip++; break;
      case Instruction::FPToSI: case Instruction::FPToUI: { unsigned wa = bits(k.I->getOperand(0)->getType()); f.regs[k.dest] = fptoint(opv(f, k.ops[0]), wa, k.w, k.op == Instruction::FPToSI); f.ip++; break; }
      case Instruction::SIToFP: case Instruction::UIToFP: { unsigned wa = bits(k.I->getOperand(0)->getType()); f.regs[k.dest] = inttofp(opv(f, k.ops[0]), wa, k.w, k.op == Instruction::SIToFP); f.ip++; break; }
      case Instruction::Freeze: f.regs[k.dest] = opv(f, k.ops[0]); f.ip++; break;
      case Instruction::GetElementPtr: { Val b = opv(f, k.ops[0]); u64 acc = k.gepConst; Expr *se = nullptr;
        for (size_t i = 0; i < k.gepIdx.size(); i++) { Val x = opv(f, k.gepIdx[i].first); unsigned w = k.gepW[i]; if (x.conc()) acc += (u64)sext(x.c, w) * k.gepIdx[i].second; else { Expr *y = C.sextE(x.e, 64); y = C.bin(KMul, C.cst(k.gepIdx[i].second, 64), y); se = se ? C.bin(KAdd, se, y) : y; } }
        if (b.conc() && !se) f.regs[k.dest] = Val(b.c + acc); else { Expr *r = C.bin(KAdd, C.cst(acc, 64), EX(b, 64)); if (se) r = C.bin(KAdd, r, se); f.regs[k.dest] = Val(r); } f.ip++; break; }
      case Instruction::Alloca: { auto *al = cast<AllocaInst>(k.I); Val n = opv(f, k.ops[0]); u64 cnt2 = n.conc() ? n.c : concretize(s, n.e, "alloca"); u64 sz = DL->getTypeAllocSize(al->getAllocatedType()) * cnt2; if (sz > (64u << 20)) { report(s, "stack-overflow", "alloca too large", s->model); throw Stop(); } Obj *o = s->m.add(sz, OAlloca, "stack"); o->allocSeq = s->allocCount++; o->sym.assign(sz, UNINIT); u64 base = o->base; Frame &g = s->st.back(); g.allocas.push_back(base >> IDSHIFT); g.regs[k.dest] = Val(base); g.ip++; break; }
      case Instruction::Load: { Val v = loadTy(s, opv(f, k.ops[0]), k.I->getType()); if (v.e && !v.agg() && v.e->ctl && v.e->w >= 16) v = Val(simp(s, v.e)); s->st.back().regs[k.dest] = v; s->st.back().ip++; break; }
      case Instruction::Store: { storeTy(s, opv(f, k.ops[1]), k.I->getOperand(0)->getType(), opv(f, k.ops[0])); s->st.back().ip++; break; }
      case Instruction::ExtractValue: { auto *ev = cast<ExtractValueInst>(k.I); Val a = opv(f, k.ops[0]); for (unsigned i : ev->indices()) a = getAgg(a)->v[i]; f.regs[k.dest] = a; f.ip++; break; }
      case Instruction::InsertValue: { auto *iv = cast<InsertValueInst>(k.I); Val a = opv(f, k.ops[0]), x = opv(f, k.ops[1]); if (iv->getNumIndices() != 1) { incompleteMark("insertvalue"); throw Stop(); } std::vector<Val> v = getAgg(a)->v; v[iv->getIndices()[0]] = x; f.regs[k.dest] = mkAgg(v); f.ip++; break; }
      case Instruction::ExtractElement: { Val a = opv(f, k.ops[0]), i = opv(f, k.ops[1]); if (!i.conc()) { incompleteMark("extractelement"); throw Stop(); } f.regs[k.dest] = getAgg(a)->v[i.c]; f.ip++; break; }
      case Instruction::InsertElement: { Val a = opv(f, k.ops[0]), x = opv(f, k.ops[1]), i = opv(f, k.ops[2]); if (!i.conc()) { incompleteMark("insertelement"); throw Stop(); } std::vector<Val> v = getAgg(a)->v; v[i.c] = x; f.regs[k.dest] = mkAgg(v); f.ip++; break; }
      case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(k.I); Agg *a = getAgg(opv(f, k.ops[0])), *b = getAgg(opv(f, k.ops[1])); std::vector<Val> v; for (int m : sv->getShuffleMask()) v.push_back(m < 0 ? Val((u64)0) : m < (int)a->v.size() ? a->v[m] : b->v[m - a->v.size()]); f.regs[k.dest] = mkAgg(v); f.ip++; break; }
      case Instruction::Call: case Instruction::Invoke: {
        if (!doCall(s, k)) return; break; }
      default: incompleteMark(std::string("opcode:") + k.I->getOpcodeName()); throw Stop();
      }
    }
  } catch (Stop &) { dropState(s); }
}

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void jinputs(std::ostream &o, const std::vector<InputRec> &in, const SModel &m) {
  o << "["; bool first = true; for (auto &i : in) { if (!first) o << ","; first = false; o << "{\"name\":\"" << jesc(i.name) << "\",\"hex\":\""; for (Expr *e : i.bytes) { char b[4]; snprintf(b, 4, "%02x", (unsigned)C.eval(e, m)); o << b; } o << "\"}"; } o << "]";
}
static void writeOut(const char *entry, bool aborted) {
  std::ofstream o(outFile); double t = now() - T0;
  o << "{\"entry\":\"" << entry << "\",\"params\":{"; bool f = true; for (auto &p : params) { if (!f) o << ","; f = false; o << "\"" << p.first << "\":" << p.second; }
  o << "},\"paths\":" << nPaths << ",\"instructions\":" << nInstr << ",\"forks\":" << nForks << ",\"states\":" << nStates << ",\"merges\":" << nMerges << ",\"merge_fail\":" << nMergeFail << ",\"asserts\":" << nAsserts << ",\"mem_checks\":" << nMemChecks << ",\"mem_symbolic\":" << nMemSym << ",\"error_states\":" << nErrStates
    << ",\"queries\":" << S->nQueries << ",\"z3_queries\":" << S->nZ3 << ",\"cache_hits\":" << S->nCacheHit << ",\"model_hits\":" << S->nModelHit << ",\"small_domain\":" << S->nSmall << ",\"sat\":" << S->nSat << ",\"unsat\":" << S->nUnsat << ",\"unknown\":" << S->nUnknown << ",\"bad_models\":" << S->badModel << ",\"solver_s\":" << S->t << ",\"solver_max_s\":" << S->tMax << ",\"tabulated\":" << C.nTabulated << ",\"exprs\":" << C.nextId << ",\"vars\":" << C.vars.size() << ",\"wall_s\":" << t << ",\"infeasible_assumes\":" << nInfeasibleAssume;
  auto mp = [&](const char *n, std::map<std::string, u64> &m) { o << ",\"" << n << "\":{"; bool f = true; for (auto &p : m) { if (!f) o << ","; f = false; o << "\"" << jesc(p.first) << "\":" << p.second; } o << "}"; };
  mp("cuts", cuts); mp("incomplete", incomplete); mp("reached", reachCount); mp("modelled", modelled);
  std::vector<std::string> fs; for (auto &p : kfuncs) if (p.second->entered) { std::string file; if (auto *SP = p.first->getSubprogram()) file = SP->getFilename().str(); if (file.find("src-IL") != std::string::npos) fs.push_back(dem(p.first->getName())); } std::sort(fs.begin(), fs.end());
  o << ",\"functions\":["; for (size_t i = 0; i < fs.size(); i++) o << (i ? "," : "") << "\"" << jesc(fs[i]) << "\""; o << "]";
  o << ",\"errors\":["; for (size_t i = 0; i < errors.size(); i++) { auto &e = errors[i]; o << (i ? "," : "") << "{\"kind\":\"" << e.kind << "\",\"msg\":\"" << jesc(e.msg) << "\",\"func\":\"" << jesc(e.func) << "\",\"loc\":\"" << jesc(e.loc) << "\",\"stack\":\"" << jesc(e.stack) << "\",\"count\":" << errSeen[e.sig] << ",\"inexact\":" << (e.inexact ? "true" : "false") << ",\"inputs\":"; jinputs(o, e.inputs, e.model); o << "}"; } o << "]";
  o << ",\"samples\":["; for (size_t i = 0; i < pathSamples.size(); i++) { auto &p = pathSamples[i]; o << (i ? "," : "") << "{\"steps\":" << p.steps << ",\"reached\":["; for (size_t j = 0; j < p.reached.size(); j++) o << (j ? "," : "") << "\"" << jesc(p.reached[j]) << "\""; o << "],\"inputs\":"; jinputs(o, p.inputs, p.model);
    o << ",\"obs\":["; bool f1 = true; for (auto &x : p.obs) { o << (f1 ? "" : ",") << "[\"" << jesc(x.name) << "\",\""; f1 = false;
      if (x.buf) { for (size_t j = 0; j < x.c.size(); j++) { Expr *e = x.e[j]; if (e) { bool un = false; for (u32 v : *e->sup) if (C.vars[v].uninit) un = true; if (un) { o << "??"; continue; } } char b[4]; snprintf(b, 4, "%02x", (unsigned)(e ? C.eval(e, p.model) : x.c[j])); o << b; } }
      else { Expr *e = x.e[0]; bool un = false; if (e) for (u32 v : *e->sup) if (C.vars[v].uninit) un = true; if (un) o << "?"; else o << (e ? C.eval(e, p.model) : x.c[0]); }
      o << "\"]"; } o << "]}"; } o << "]";
  o << ",\"aborted\":" << (aborted ? "true" : "false") << "}\n"; o.close();
}

static int realMain(int argc, char **argv) {
  std::string bc, entry = "main"; initBuiltins(); std::vector<std::string> mf;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = strtoll(p.c_str() + e + 1, 0, 0); } else if (a == "--out") outFile = nx(); else if (a == "--time") timeLimit = atof(nx().c_str()); else if (a == "--steps") maxSteps = strtoull(nx().c_str(), 0, 0); else if (a == "--seed") rng.seed(atoi(nx().c_str())); else if (a == "--merge") mergeOn = true; else if (a == "--merge-fn") { mergeOn = true; mf.push_back(nx()); } else if (a == "--samples") maxPathsOut = atoi(nx().c_str()); else if (a == "--stop-first") stopFirst = true; else if (a == "--dump") { S = nullptr; params["__dump"] = 1; mf.push_back("@" + nx()); } else if (a == "-v") verbose = true; else if (a == "--max-err") maxErr = atoi(nx().c_str()); else bc = a; }
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("devsym", errs()); return 3; } M = mod.get(); DL = &M->getDataLayout();
  S = new Solver(C); T0 = now(); S->deadline = T0 + timeLimit;
  for (auto &x : mf) { if (x[0] == '@') { S->dumpDir = x.substr(1); S->dumpMax = 400; } else mergeFns[x] = 1; }
  State *s = new State(); s->stepLimit = maxSteps; nStates++;
  for (auto &F : *M) { Obj *o = s->m.add(0, OFunc, "function"); o->fn = &F; gaddr[&F] = o->base; fnAt[o->base] = &F; }
  std::vector<GlobalVariable*> gs; for (auto &G : M->globals()) { u64 sz = DL->getTypeAllocSize(G.getValueType()); Obj *o = s->m.add(sz, OGlobal, strdup(("@" + G.getName().str()).c_str())); gaddr[&G] = o->base; o->ro = G.isConstant(); gs.push_back(&G); }
  for (auto *G : gs) { Obj *o = s->m.get(gaddr[G] >> IDSHIFT); if (G->hasInitializer()) initMem(o, 0, G->getInitializer()); else { static std::set<std::string> ok = {"stdout", "stderr", "stdin"}; if (o->size && !ok.count(G->getName().str())) modelled["extern-data:" + G->getName().str()]++; } }
  Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  // static constructors first
  std::vector<Function*> ctors; if (auto *g = M->getGlobalVariable("llvm.global_ctors")) if (auto *a = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &op : a->operands()) ctors.push_back(cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts()));
  pushFrame(s, F, {}, -1, nullptr, nullptr, nullptr);
  for (auto i = ctors.rbegin(); i != ctors.rend(); ++i) pushFrame(s, *i, {}, -1, nullptr, nullptr, nullptr);
  work.push_back(s);
  while (!work.empty()) { if (stopFirst && !errors.empty()) { incompleteMark("stopped-at-first-error"); break; } if (now() - T0 > timeLimit) { incomplete["time-limit"] += work.size(); break; } State *x = work.back(); work.pop_back(); run(x); }
  writeOut(entry.c_str(), false);
  if (verbose) { fprintf(stderr, "paths=%llu instr=%llu forks=%llu z3=%llu queries=%llu solver=%.2fs wall=%.2fs errors=%zu\n", (unsigned long long)nPaths, (unsigned long long)nInstr, (unsigned long long)nForks, (unsigned long long)S->nZ3, (unsigned long long)S->nQueries, S->t, now() - T0, errors.size()); for (auto &p : incomplete) fprintf(stderr, "INCOMPLETE %s x%llu\n", p.first.c_str(), (unsigned long long)p.second); for (auto &p : cuts) fprintf(stderr, "CUT %s x%llu\n", p.first.c_str(), (unsigned long long)p.second); for (auto &p : reachCount) fprintf(stderr, "REACH %s x%llu\n", p.first.c_str(), (unsigned long long)p.second); for (auto &p : modelled) fprintf(stderr, "MODELLED %s\n", p.first.c_str()); std::vector<std::pair<u64, Instruction*>> v; for (auto &p : qProf) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 15; i++) fprintf(stderr, "PROF q=%llu sat=%llu %s %s\n", (unsigned long long)v[i].first, (unsigned long long)forkProf[v[i].second], locOf(v[i].second).c_str(), v[i].second->getOpcodeName()); }
  fflush(nullptr); _exit(0);
}
struct Args { int c; char **v; int r; };
int main(int argc, char **argv) {
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2048ull << 20); pthread_t t; Args a{argc, argv, 0};
  pthread_create(&t, &at, [](void *p) -> void* { Args *a = (Args*)p; a->r = realMain(a->c, a->v); return nullptr; }, &a); pthread_join(t, nullptr); return a.r;
}
