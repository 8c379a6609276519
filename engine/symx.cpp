// symx: a small symbolic executor for LLVM bitcode, deciding branch and
// assertion queries with Z3 (QF_BV).  Explores every feasible path of
// `harness()`; a fork happens only when the solver says both sides are
// satisfiable, so an exhausted run covers every value of every symbolic input.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <memory>
#include <bitset>
#include <map>
#include <set>
#include <unordered_map>
#include <string>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <ctype.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>
#include <errno.h>

using std::string; using std::vector; using std::shared_ptr;
typedef uint64_t u64;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- options
static string gOut = ".";
static double gDeadline = 1e18;
static double gTimeout = 60;
static u64 gMaxSteps = 20000000;
static int gMaxProcs = 1;
static unsigned gQueryTimeoutMs = 60000;
static u64 gSampleEvery = 1;
static int gMaxErrors = 8;
static bool gTrace = false;
static bool gShadowUndef = true;

// ---------------------------------------------------------------- shared
struct Shared {
  volatile int active; volatile int stop; volatile int errors; volatile int timedOut;
  volatile u64 paths;
};
static Shared *gSh;

// ---------------------------------------------------------------- stats
struct Stats {
  u64 paths = 0, exits = 0, infeasible = 0, errors = 0, limits = 0, forks = 0, instrs = 0;
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, checks = 0, checksConst = 0, memChecks = 0, domHits = 0;
  double solverS = 0;
} st;
static std::map<string, u64> gLimitMsgs;

static FILE *gLog;
static string jesc(const string &s) {
  string r;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}

// ---------------------------------------------------------------- values
struct Val { Expr *e; u64 c; };
static inline Val VC(u64 c) { return Val{nullptr, c}; }
static inline Val VE(Expr *e) { if (isC(e)) return Val{nullptr, e->val}; return Val{e, 0}; }
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory
enum { K_GLOBAL, K_STACK, K_HEAP };
struct Obj {
  u64 base, size; int kind; bool ro; string name;
  vector<uint8_t> data;
  vector<Expr *> sym;       // empty if fully concrete
  vector<uint8_t> undef;    // empty if fully defined; 1 = never written
  int refs;
  bool lazyU = false;       // bytes beyond data.size() are unwritten (else zero)
  // only the part of a large block that is touched is kept
  void grow(u64 end) {
    if (end <= data.size()) return;
    u64 n = std::min(size, std::max<u64>(end, 2 * data.size()));
    data.resize(n, 0); if (!sym.empty()) sym.resize(n, nullptr);
    if (lazyU || !undef.empty()) undef.resize(n, lazyU ? 1 : 0);
  }
};
struct ObjRef {
  Obj *p = nullptr;
  ObjRef() {}
  explicit ObjRef(Obj *o) : p(o) { if (p) p->refs++; }
  ObjRef(const ObjRef &o) : p(o.p) { if (p) p->refs++; }
  ObjRef(ObjRef &&o) : p(o.p) { o.p = nullptr; }
  ObjRef &operator=(ObjRef o) { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->refs == 0) delete p; }
};
static const u64 GAP = 1 << 20;

// ---------------------------------------------------------------- code
struct Opnd { int reg; u64 c; bool undef; };
struct CBlock; struct CFunc;
enum COp { C_BIN, C_ICMP, C_CAST, C_ALLOCA, C_LOAD, C_STORE, C_GEP, C_SELECT, C_BR, C_CONDBR, C_SWITCH, C_CALL, C_RET, C_UNREACH, C_COPY, C_FP, C_UNSUP };
enum Intr { I_NONE, I_SYM, I_ASSUME, I_CHECK, I_COVER, I_OBSERVE, I_CHOOSE, I_MALLOC, I_CALLOC, I_REALLOC, I_FREE, I_MEMCPY, I_MEMMOVE, I_MEMSET,
  I_ASSERTFAIL, I_ABORT, I_EXIT, I_CTYPEB, I_CTYPELOW, I_CTYPEUP, I_ERRNO, I_NOP, I_MINMAX, I_ABS, I_FSHL, I_FSHR, I_BSWAP, I_EXPECT, I_VASTART, I_VACOPY, I_OBJSIZE, I_FAIL, I_ALLOCSIZE, I_ISSYM, I_CTPOP, I_USUBSAT, I_UADDSAT, I_MERGEBOOL, I_CTLZ, I_CTTZ, I_CONCRETE, I_UNDEFCHECK };
struct CInst {
  COp op; uint8_t w = 0, w2 = 0; int dst = -1; int sub = 0; u64 imm = 0;
  vector<Opnd> o; vector<u64> scale;
  CBlock *t = nullptr, *f = nullptr;
  vector<std::pair<u64, CBlock *>> cases;
  CFunc *callee = nullptr; Intr intr = I_NONE; string name;
  vector<uint8_t> argw;
  const llvm::Instruction *I = nullptr;
  mutable bool hit = false;
};
struct CBlock {
  vector<CInst> ins; CFunc *fn; const llvm::BasicBlock *bb;
  std::map<CBlock *, vector<std::pair<int, Opnd>>> phis;
};
struct CFunc {
  const llvm::Function *F; string name; int nregs = 0; vector<CBlock *> blocks; bool compiled = false, isDecl = false;
  u64 addr = 0; Intr intr = I_NONE; vector<int> args; u64 entered = 0;
};

struct Frame {
  CFunc *f; CBlock *b; unsigned pc; vector<Val> regs; vector<u64> allocas; int retDst; vector<Val> va; 
};
typedef std::bitset<256> Dom;
struct State {
  vector<Dom> dom;          // per variable of width <= 8: values not yet excluded
  vector<uint8_t> multi;    // variable occurs in a constraint with others
  vector<Frame> stack;
  std::map<u64, ObjRef> mem;
  vector<Expr *> cons;
  shared_ptr<vector<u64>> model;
  vector<std::pair<uint32_t, uint8_t>> inputs;
  vector<std::pair<uint32_t, uint8_t>> allVars;
  vector<Val> obs;
  uint32_t nextVar = 0;
  u64 nextAddr = 0; u64 steps = 0; u64 undefVars = 0;
  std::set<string> covered;
  vector<std::pair<u64,u64>> freed;
};

static llvm::LLVMContext gCtx;
static std::unique_ptr<llvm::Module> gMod;
static const llvm::DataLayout *DL;
static std::unordered_map<const llvm::Function *, CFunc *> gFuncs;
static std::unordered_map<u64, CFunc *> gFuncByAddr;
static std::unordered_map<const llvm::GlobalVariable *, u64> gGlobAddr;
static std::map<u64, ObjRef> gConstMem;   // immutable globals
static u64 gErrnoAddr, gCtypeB, gCtypeLow, gCtypeUp, gCtypeBp, gCtypeLowp, gCtypeUpp;
static u64 gGen = 1;

struct PathEnd { int why; };        // thrown to end the current path
enum { END_OK, END_INFEASIBLE, END_ERROR, END_LIMIT, END_EXIT };
struct Retry {};                     // re-execute the current instruction

static vector<State *> gWork;
static std::set<string> gCoverSeen;
static std::map<string, int> gErrSeen;

static string locOf(const llvm::Instruction *I) {
  if (!I) return "?";
  const llvm::DebugLoc &d = I->getDebugLoc();
  if (!d) return "?";
  string f = d->getFilename().str();
  size_t p = f.rfind('/'); if (p != string::npos) f = f.substr(p + 1);
  return f + ":" + std::to_string(d.getLine());
}

// ---------------------------------------------------------------- solver
struct Solver {
  Z3_context ctx; Z3_sort bv[65]; Z3_symbol logic;
  std::unordered_map<u64, Z3_ast> symAst;
  struct CacheEnt { int r; vector<std::pair<uint32_t, u64>> m; };
  std::map<vector<uint32_t>, CacheEnt> cache;
  Solver() {
    Z3_config c = Z3_mk_config();
    ctx = Z3_mk_context(c); Z3_del_config(c);
    for (int i = 1; i <= 64; i++) bv[i] = Z3_mk_bv_sort(ctx, i);
    logic = Z3_mk_string_symbol(ctx, "QF_BV");
  }
  Z3_ast num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, bv[w]); }
  Z3_ast symOf(u64 id, unsigned w) {
    u64 k = id * 128 + w; auto it = symAst.find(k); if (it != symAst.end()) return it->second;
    string n = "v" + std::to_string(id) + "_" + std::to_string(w);
    Z3_ast a = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bv[w]);
    symAst[k] = a; return a;
  }
  Z3_ast toBool(Expr *e) { // e has width 1
    if (e->bo) return e->bo;
    Z3_ast r;
    switch (e->op) {
    case CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case EQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, toBool(e->a), toBool(e->b)) : Z3_mk_eq(ctx, toBv(e->a), toBv(e->b)); break;
    case ULT: r = Z3_mk_bvult(ctx, toBv(e->a), toBv(e->b)); break;
    case ULE: r = Z3_mk_bvule(ctx, toBv(e->a), toBv(e->b)); break;
    case SLT: r = Z3_mk_bvslt(ctx, toBv(e->a), toBv(e->b)); break;
    case SLE: r = Z3_mk_bvsle(ctx, toBv(e->a), toBv(e->b)); break;
    case AND: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case OR: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case XOR: if (isC(e->a, 1)) r = Z3_mk_not(ctx, toBool(e->b)); else r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b)); break;
    case ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->c)); break;
    default: r = Z3_mk_eq(ctx, toBv(e), num(1, 1));
    }
    return e->bo = r;
  }
  Z3_ast toBv(Expr *e) {
    if (e->bv) return e->bv;
    Z3_ast r;
    switch (e->op) {
    case CONST: r = num(e->val, e->w); break;
    case SYM: r = symOf(e->val, e->w); break;
    case ADD: r = Z3_mk_bvadd(ctx, toBv(e->a), toBv(e->b)); break;
    case SUB: r = Z3_mk_bvsub(ctx, toBv(e->a), toBv(e->b)); break;
    case MUL: r = Z3_mk_bvmul(ctx, toBv(e->a), toBv(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, toBv(e->a), toBv(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, toBv(e->a), toBv(e->b)); break;
    case UREM: r = Z3_mk_bvurem(ctx, toBv(e->a), toBv(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(ctx, toBv(e->a), toBv(e->b)); break;
    case SHL: r = Z3_mk_bvshl(ctx, toBv(e->a), toBv(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, toBv(e->a), toBv(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(ctx, toBv(e->a), toBv(e->b)); break;
    case CONCAT: r = Z3_mk_concat(ctx, toBv(e->a), toBv(e->b)); break;
    case EXTRACT: r = Z3_mk_extract(ctx, e->val + e->w - 1, e->val, toBv(e->a)); break;
    case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBv(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBv(e->a)); break;
    case AND: case OR: case XOR:
      if (e->w > 1) {
        Z3_ast x = toBv(e->a), y = toBv(e->b);
        r = e->op == AND ? Z3_mk_bvand(ctx, x, y) : e->op == OR ? Z3_mk_bvor(ctx, x, y) : Z3_mk_bvxor(ctx, x, y);
        break;
      }
      r = Z3_mk_ite(ctx, toBool(e), num(1, 1), num(0, 1)); break;
    case ITE:
      if (e->w > 1) { r = Z3_mk_ite(ctx, toBool(e->a), toBv(e->b), toBv(e->c)); break; }
      r = Z3_mk_ite(ctx, toBool(e), num(1, 1), num(0, 1)); break;
    default: r = Z3_mk_ite(ctx, toBool(e), num(1, 1), num(0, 1));
    }
    return e->bv = r;
  }
  // 1 sat, 0 unsat, -1 unknown
  int solve(const vector<Expr *> &cs, const vector<std::pair<uint32_t, uint8_t>> &vars, vector<std::pair<uint32_t, u64>> &m) {
    vector<uint32_t> key; key.reserve(cs.size());
    for (Expr *e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) { st.cacheHits++; m = it->second.m; return it->second.r; }
    double t0 = now();
    Z3_solver s = Z3_mk_solver_for_logic(ctx, logic);
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    double left = (gDeadline - now()) * 1000; if (left < 100) left = 100;
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)std::min<double>(gQueryTimeoutMs, left));
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    for (Expr *e : cs) Z3_solver_assert(ctx, s, toBool(e));
    Z3_lbool r = Z3_solver_check(ctx, s);
    st.queries++;
    if (r == Z3_L_TRUE) {
      st.sat++;
      Z3_model md = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, md);
      for (auto &v : vars) {
        Z3_ast o; uint64_t val = 0;
        if (Z3_model_eval(ctx, md, symOf(v.first, v.second), true, &o) && Z3_get_numeral_uint64(ctx, o, &val)) m.push_back({v.first, val});
      }
      Z3_model_dec_ref(ctx, md);
    } else if (r == Z3_L_FALSE) st.unsat++; else st.unknown++;
    Z3_solver_dec_ref(ctx, s);
    st.solverS += now() - t0;
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (cache.size() > 400000) cache.clear();
    cache[key] = CacheEnt{res, m};
    return res;
  }
};
static Solver *gSolver;

static inline u64 evalS(State &s, Expr *e) { return evalExpr(e, *s.model, ++gGen); }

// constraints of s connected to the variables of e
static void sliceFor(State &s, Expr *e, vector<Expr *> &out, vector<std::pair<uint32_t, uint8_t>> &vars) {
  vector<char> mark(s.nextVar + 1, 0);
  for (uint32_t v : *varsOf(e)) mark[v] = 1;
  vector<Expr *> rest = s.cons;
  bool ch = true;
  while (ch) {
    ch = false;
    size_t k = 0;
    for (Expr *c : rest) {
      auto *vs = varsOf(c); bool hit = false;
      for (uint32_t v : *vs) if (mark[v]) { hit = true; break; }
      if (hit) { out.push_back(c); for (uint32_t v : *vs) mark[v] = 1; ch = true; }
      else rest[k++] = c;
    }
    rest.resize(k);
  }
  for (auto &v : s.allVars) if (mark[v.first]) vars.push_back(v);
}
// truth set of an expression over one variable of width <= 8
static std::unordered_map<Expr *, Dom> gTruth;
static vector<u64> gScratch;
static const Dom &truthSet(Expr *e, uint32_t v, unsigned w) {
  auto it = gTruth.find(e);
  if (it != gTruth.end()) return it->second;
  Dom d;
  if (gScratch.size() <= v) gScratch.resize(v + 1, 0);
  for (unsigned k = 0; k < (1u << w); k++) { gScratch[v] = k; if (evalExpr(e, gScratch, ++gGen)) d.set(k); }
  return gTruth.emplace(e, d).first->second;
}
static inline bool smallVar(State &s, Expr *e, uint32_t &v, unsigned &w) {
  auto *vs = varsOf(e); if (vs->size() != 1) return false;
  v = (*vs)[0]; w = s.allVars[v].second; return w <= 8;
}
// is cons(s) & e satisfiable?  On success fills newModel.
static int maySat(State &s, Expr *e, shared_ptr<vector<u64>> &newModel) {
  if (isC(e)) { newModel = s.model; return e->val ? 1 : 0; }
  if (evalS(s, e)) { st.modelHits++; newModel = s.model; return 1; }
  uint32_t sv; unsigned sw;
  if (smallVar(s, e, sv, sw)) {
    Dom d = truthSet(e, sv, sw) & s.dom[sv];
    if (d.none()) { st.domHits++; return 0; }
    if (!s.multi[sv]) {
      st.domHits++;
      newModel = std::make_shared<vector<u64>>(*s.model);
      newModel->resize(s.nextVar, 0); (*newModel)[sv] = d._Find_first();
      return 1;
    }
  }
  vector<Expr *> cs; vector<std::pair<uint32_t, uint8_t>> vars;
  sliceFor(s, e, cs, vars);
  cs.push_back(e);
  vector<std::pair<uint32_t, u64>> m;
  int r = gSolver->solve(cs, vars, m);
  if (r == 1) {
    newModel = std::make_shared<vector<u64>>(*s.model);
    newModel->resize(s.nextVar, 0);
    for (auto &x : m) (*newModel)[x.first] = x.second;
    if (!evalExpr(e, *newModel, ++gGen)) { fprintf(stderr, "symx: internal: model does not satisfy query\n"); _exit(3); }
  }
  return r;
}
static void addCons(State &s, Expr *e) {
  if (isC(e)) return;
  if (e->op == AND && e->w == 1) { addCons(s, e->a); addCons(s, e->b); return; }
  uint32_t sv; unsigned sw;
  if (smallVar(s, e, sv, sw)) s.dom[sv] &= truthSet(e, sv, sw);
  else for (uint32_t v : *varsOf(e)) s.multi[v] = 1;
  s.cons.push_back(e);
}

// ---------------------------------------------------------------- reporting
static void writeInputs(State &s, const vector<u64> &model) {
  fprintf(gLog, "\"inputs\":[");
  for (size_t i = 0; i < s.inputs.size(); i++) {
    u64 v = s.inputs[i].first < model.size() ? model[s.inputs[i].first] & maskw(s.inputs[i].second) : 0;
    fprintf(gLog, "%s%llu", i ? "," : "", (unsigned long long)v);
  }
  fprintf(gLog, "]");
}
static void reportError(State &s, const string &kind, const string &msg, const shared_ptr<vector<u64>> &model) {
  st.errors++;
  const CInst *ci = nullptr; string fn = "?";
  if (!s.stack.empty()) { Frame &f = s.stack.back(); if (f.pc < f.b->ins.size()) ci = &f.b->ins[f.pc]; fn = f.f->name; }
  string loc = ci ? locOf(ci->I) : "?";
  string key = kind + "|" + msg + "|" + loc;
  if (gErrSeen[key]++ < 2) {
    fprintf(gLog, "{\"type\":\"error\",\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"func\":\"%s\",\"stack\":[", jesc(kind).c_str(), jesc(msg).c_str(), jesc(loc).c_str(), jesc(fn).c_str());
    for (size_t i = s.stack.size(); i-- > 0;) { Frame &f = s.stack[i]; fprintf(gLog, "%s\"%s@%s\"", i + 1 == s.stack.size() ? "" : ",", jesc(f.f->name).c_str(), f.pc < f.b->ins.size() ? jesc(locOf(f.b->ins[f.pc].I)).c_str() : "?"); }
    fprintf(gLog, "],\"undef\":%llu,", (unsigned long long)s.undefVars);
    writeInputs(s, *model);
    fprintf(gLog, "}\n"); fflush(gLog);
  }
  if (__sync_add_and_fetch(&gSh->errors, 1) >= gMaxErrors) gSh->stop = 1;
}
static void limit(State &s, const string &msg) {
  st.limits++;
  string loc = "?";
  if (!s.stack.empty()) { Frame &f = s.stack.back(); if (f.pc < f.b->ins.size()) loc = locOf(f.b->ins[f.pc].I); }
  string m = msg + " at " + loc;
  if (gLimitMsgs[m]++ == 0) {
    fprintf(gLog, "{\"type\":\"limit\",\"msg\":\"%s\",\"stack\":[", jesc(m).c_str());
    for (size_t i = s.stack.size(); i-- > 0;) { Frame &f = s.stack[i]; fprintf(gLog, "%s\"%s@%s\"", i + 1 == s.stack.size() ? "" : ",", jesc(f.f->name).c_str(), f.pc < f.b->ins.size() ? jesc(locOf(f.b->ins[f.pc].I)).c_str() : "?"); }
    fprintf(gLog, "],"); writeInputs(s, *s.model); fprintf(gLog, "}\n"); fflush(gLog);
  }
  throw PathEnd{END_LIMIT};
}

// ---------------------------------------------------------------- forking
static State *cloneState(State &s) { st.forks++; return new State(s); }

// Decide a width-1 condition on the current path, forking if both hold.
// The sibling re-executes the current instruction (its condition is then decided by its constraints).
static bool decide(State &s, Expr *c) {
  if (isC(c)) return c->val;
  bool v = evalS(s, c);
  Expr *other = v ? mkNot(c) : c;
  shared_ptr<vector<u64>> nm;
  int r = maySat(s, other, nm);
  if (r < 0) limit(s, "solver gave no answer for a branch");
  if (r == 1) {
    State *n = cloneState(s);
    addCons(*n, other); n->model = nm;
    gWork.push_back(n);
    addCons(s, v ? c : mkNot(c));
  }
  return v;
}
// Make a value concrete on this path, forking siblings for the other values.
static u64 concretize(State &s, const Val &v, unsigned w) {
  if (!v.e) return v.c;
  u64 k = evalS(s, v.e);
  Expr *eq = mkBin(EQ, mkConst(k, w), v.e);
  shared_ptr<vector<u64>> nm;
  int r = maySat(s, mkNot(eq), nm);
  if (r < 0) limit(s, "solver gave no answer for a value");
  if (r == 1) {
    State *n = cloneState(s);
    addCons(*n, mkNot(eq)); n->model = nm;
    gWork.push_back(n);
    addCons(s, eq);
  }
  return k;
}

// ---------------------------------------------------------------- memory ops
static Obj *findObj(State &s, u64 a) { // containing or nearest object
  auto tryMap = [&](std::map<u64, ObjRef> &m) -> Obj * {
    auto it = m.upper_bound(a);
    Obj *best = nullptr; u64 bd = ~0ull;
    if (it != m.end()) { u64 d = it->second.p->base - a; if (d < bd) { bd = d; best = it->second.p; } }
    if (it != m.begin()) { --it; Obj *o = it->second.p; u64 d = a < o->base + o->size ? 0 : a - (o->base + o->size); if (d <= bd) { bd = d; best = o; } }
    return bd <= GAP / 2 ? best : nullptr;
  };
  if (a < 0x100000000ull) return tryMap(gConstMem);
  return tryMap(s.mem);
}
static Obj *writable(State &s, Obj *o) {
  auto it = s.mem.find(o->base);
  if (it == s.mem.end()) return o;
  if (it->second.p->refs > 1) { Obj *n = new Obj(*it->second.p); n->refs = 0; it->second = ObjRef(n); }
  return it->second.p;
}
static u64 allocObj(State &s, u64 size, int kind, const string &name, bool undef) {
  Obj *o = new Obj(); o->refs = 0;
  u64 a = s.nextAddr; s.nextAddr += ((size + 15) & ~15ull) + GAP; s.nextAddr = (s.nextAddr + 4095) & ~4095ull;
  o->base = a; o->size = size; o->kind = kind; o->ro = false; o->name = name;
  u64 n0 = size > (1 << 16) ? 4096 : size;
  o->data.assign(n0, 0);
  if (undef && gShadowUndef) { o->undef.assign(n0, 1); o->lazyU = true; }
  s.mem[a] = ObjRef(o);
  return a;
}
static void memErr(State &s, const string &kind, const string &msg) { reportError(s, kind, msg, s.model); throw PathEnd{END_ERROR}; }

static uint32_t newVar(State &s, unsigned w) {
  uint32_t id = s.nextVar++; s.allVars.push_back({id, (uint8_t)w});
  Dom d; if (w <= 8) for (unsigned k = 0; k < (1u << w); k++) d.set(k);
  s.dom.push_back(d); s.multi.push_back(0);
  return id;
}
static Val newUndef(State &s, unsigned w) {
  uint32_t id = newVar(s, w); s.undefVars++;
  if (s.model->size() < s.nextVar) { s.model = std::make_shared<vector<u64>>(*s.model); s.model->resize(s.nextVar, 0); }
  return VE(mkSym(id, w));
}
static inline Expr *byteAt(State &s, Obj *&o, u64 off) {
  o->grow(off + 1);
  if (!o->undef.empty() && o->undef[off]) {
    o = writable(s, o);
    Val v = newUndef(s, 8);
    if (o->sym.empty()) o->sym.assign(o->data.size(), nullptr);
    o->sym[off] = v.e; o->undef[off] = 0;
    return v.e;
  }
  if (!o->sym.empty() && o->sym[off]) return o->sym[off];
  return nullptr;
}
static Val readConc(State &s, Obj *o, u64 off, unsigned nb) {
  bool conc = true;
  o->grow(off + nb);
  if (!o->sym.empty() || !o->undef.empty()) {
    for (unsigned i = 0; i < nb; i++) if ((!o->sym.empty() && o->sym[off + i]) || (!o->undef.empty() && o->undef[off + i])) { conc = false; break; }
  }
  if (conc) { u64 v = 0; memcpy(&v, &o->data[off], nb); return VC(v); }
  Expr *r = nullptr;
  for (unsigned i = nb; i-- > 0;) {
    Expr *b = byteAt(s, o, off + i);
    if (!b) b = mkConst(o->data[off + i], 8);
    r = r ? mkConcat(r, b) : b;
  }
  return VE(r);
}
static void writeConc(Obj *o, u64 off, unsigned nb, const Val &v) {
  o->grow(off + nb);
  if (!v.e) {
    memcpy(&o->data[off], &v.c, nb);
    if (!o->sym.empty()) for (unsigned i = 0; i < nb; i++) o->sym[off + i] = nullptr;
  } else {
    if (o->sym.empty()) o->sym.assign(o->data.size(), nullptr);
    for (unsigned i = 0; i < nb; i++) {
      Expr *b = nb == 1 ? v.e : mkExtract(v.e, 8 * i, 8);
      if (isC(b)) { o->data[off + i] = b->val; o->sym[off + i] = nullptr; } else o->sym[off + i] = b;
    }
  }
  if (!o->undef.empty()) for (unsigned i = 0; i < nb; i++) o->undef[off + i] = 0;
}

static void urange(Expr *e, u64 &lo, u64 &hi, int depth = 0) {
  lo = 0; hi = maskw(e->w);
  if (e->op == CONST) { lo = hi = e->val; return; }
  if (depth > 12) return;
  u64 l1, h1, l2, h2;
  switch (e->op) {
  case ZEXT: urange(e->a, lo, hi, depth + 1); break;
  case ADD: urange(e->a, l1, h1, depth + 1); urange(e->b, l2, h2, depth + 1);
    if (h1 + h2 >= h1 && h1 + h2 <= maskw(e->w)) { lo = l1 + l2; hi = h1 + h2; } break;
  case AND: urange(e->a, l1, h1, depth + 1); urange(e->b, l2, h2, depth + 1); hi = std::min(h1, h2); break;
  case CONCAT: urange(e->a, l1, h1, depth + 1); urange(e->b, l2, h2, depth + 1); lo = (l1 << e->b->w) | l2; hi = (h1 << e->b->w) | h2; break;
  case ITE: urange(e->b, l1, h1, depth + 1); urange(e->c, l2, h2, depth + 1); lo = std::min(l1, l2); hi = std::max(h1, h2); break;
  case UREM: if (isC(e->b) && e->b->val) hi = e->b->val - 1; break;
  case UDIV: if (isC(e->b) && e->b->val) { urange(e->a, l1, h1, depth + 1); lo = l1 / e->b->val; hi = h1 / e->b->val; } break;
  case MUL: urange(e->a, l1, h1, depth + 1); urange(e->b, l2, h2, depth + 1);
    if ((__uint128_t)h1 * h2 <= maskw(e->w)) { lo = l1 * l2; hi = h1 * h2; } break;
  default: break;
  }
}
static void knownLow(Expr *e, unsigned &t, u64 &r, int depth = 0) { // e mod 2^t == r
  t = 0; r = 0;
  if (e->op == CONST) { t = 63; r = e->val & maskw(63); return; }
  if (depth > 12) return;
  unsigned t1, t2; u64 r1, r2;
  switch (e->op) {
  case CONCAT: if (isC(e->b)) { t = std::min<unsigned>(e->b->w, 63); r = e->b->val & maskw(t); } else { knownLow(e->b, t, r, depth + 1); if (t > e->b->w) t = e->b->w; r &= maskw(t); } break;
  case ZEXT: case SEXT: knownLow(e->a, t, r, depth + 1); if (t > e->a->w) t = e->a->w; r &= t ? maskw(t) : 0; break;
  case ADD: knownLow(e->a, t1, r1, depth + 1); knownLow(e->b, t2, r2, depth + 1); t = std::min(t1, t2); r = t ? (r1 + r2) & maskw(t) : 0; break;
  case ITE: knownLow(e->b, t1, r1, depth + 1); knownLow(e->c, t2, r2, depth + 1); t = std::min(t1, t2);
    while (t && ((r1 ^ r2) & maskw(t))) t--; r = t ? r1 & maskw(t) : 0; break;
  default: break;
  }
}
static Expr *findPtrIte(Expr *e, int depth = 0) { // an ITE among the addends of an address
  if (e->op == ITE) return e;
  if (depth > 6) return nullptr;
  if (e->op == ADD || e->op == SUB) { if (Expr *x = findPtrIte(e->a, depth + 1)) return x; return e->op == ADD ? findPtrIte(e->b, depth + 1) : nullptr; }
  return nullptr;
}
static Expr *replaceExpr(Expr *e, Expr *from, Expr *to, int depth = 0) {
  if (e == from) return to;
  if (depth > 8 || e->op == CONST || e->op == SYM) return e;
  if (e->op == ADD || e->op == SUB) return mkBin(e->op, replaceExpr(e->a, from, to, depth + 1), replaceExpr(e->b, from, to, depth + 1));
  return e;
}
static bool ptrLike(u64 v) { return v >= 0x10000000ull && v < (1ull << 46); }

struct Place { Obj *o; Expr *off; u64 coff; };
static string objName(Obj *o) { return string(o->kind == K_HEAP ? "heap block" : o->kind == K_STACK ? "local" : "global") + " (" + o->name + ", " + std::to_string(o->size) + " bytes)"; }
static Place resolve(State &s, Val av, unsigned nb, const char *what) {
  st.memChecks++;
  if (av.e) {
    // resolve selects between pointers by forking on their condition
    for (int guard = 0; guard < 64; guard++) {
      Expr *e = av.e;
      u64 c = e->op == ADD && isC(e->a) ? e->a->val : 0;
      if (ptrLike(c)) break;
      Expr *it = findPtrIte(e);
      if (!it) break;
      bool v = decide(s, it->a);
      av = VE(replaceExpr(e, it, v ? it->b : it->c));
      if (!av.e) break;
    }
  }
  if (!av.e) {
    u64 a = av.c;
    Obj *o = findObj(s, a);
    if (!o || a < o->base || a + nb > o->base + o->size) {
      string m;
      if (a < 4096) m = string(what) + " through a null pointer";
      else if (!o) m = string(what) + " through an invalid or dangling pointer";
      else m = string(what) + " outside " + objName(o);
      for (auto &f : s.freed) if (a >= f.first && a < f.first + f.second) m = string(what) + " after free";
      memErr(s, "memory", m);
    }
    return Place{o, nullptr, a - o->base};
  }
  Expr *e = av.e;
  u64 c = e->op == ADD && isC(e->a) ? e->a->val : 0;
  Obj *o = ptrLike(c) ? findObj(s, c) : nullptr;
  if (!o) {
    u64 a = evalS(s, e);
    o = findObj(s, a);
    if (!o) memErr(s, "memory", string(what) + " through an invalid pointer");
  }
  Expr *off = mkBin(SUB, e, mkConst(o->base, 64));
  if (o->size < nb) memErr(s, "memory", string(what) + " outside " + objName(o));
  Expr *in = mkBin(ULE, off, mkConst(o->size - nb, 64));
  if (!isC(in, 1)) {
    shared_ptr<vector<u64>> nm;
    int r = maySat(s, mkNot(in), nm);
    if (r < 0) limit(s, "solver gave no answer for a bounds check");
    if (r == 1) {
      reportError(s, "memory", string(what) + " outside " + objName(o), nm);
      r = maySat(s, in, nm);
      if (r != 1) throw PathEnd{END_ERROR};
      addCons(s, in); s.model = nm;
    }
  }
  return Place{o, off, 0};
}
static bool candidates(State &s, Expr *off, u64 size, unsigned nb, vector<u64> &cand) {
  uint32_t sv; unsigned sw;
  if (smallVar(s, off, sv, sw)) {
    if (gScratch.size() <= sv) gScratch.resize(sv + 1, 0);
    for (unsigned k = 0; k < (1u << sw); k++) if (s.dom[sv].test(k)) { gScratch[sv] = k; u64 v = evalExpr(off, gScratch, ++gGen); if (v <= size - nb) cand.push_back(v); }
    std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
    return !cand.empty();
  }
  u64 lo, hi; urange(off, lo, hi); unsigned t; u64 r; knownLow(off, t, r);
  u64 max = size - nb; if (hi > max) hi = max;
  u64 step = t >= 16 ? 1 : (1ull << t); if (t >= 16) { r = 0; }
  u64 k = lo; if (step > 1) { u64 d = (r - lo) & (step - 1); k = lo + d; }
  for (; k <= hi; k += step) { cand.push_back(k); if (cand.size() > 2048) return false; }
  return !cand.empty();
}
static Expr *muxTree(Expr *off, const vector<u64> &cand, const vector<Expr *> &leaf, size_t l, size_t r) {
  bool same = true;
  for (size_t i = l + 1; i < r; i++) if (leaf[i] != leaf[l]) { same = false; break; }
  if (same) return leaf[l];
  size_t m = (l + r) / 2;
  return mkIte(mkBin(ULT, off, mkConst(cand[m], 64)), muxTree(off, cand, leaf, l, m), muxTree(off, cand, leaf, m, r));
}
static Val loadMem(State &s, const Val &addr, unsigned nb) {
  Place p = resolve(s, addr, nb, "read");
  if (!p.off) return readConc(s, p.o, p.coff, nb);
  vector<u64> cand;
  if (!candidates(s, p.off, p.o->size, nb, cand)) {
    u64 a = concretize(s, VE(p.off), 64);
    return readConc(s, p.o, a, nb);
  }
  vector<Expr *> leaf; leaf.reserve(cand.size());
  for (u64 k : cand) { leaf.push_back(toE(readConc(s, p.o, k, nb), nb * 8)); auto it = s.mem.find(p.o->base); if (it != s.mem.end()) p.o = it->second.p; }
  return VE(muxTree(p.off, cand, leaf, 0, cand.size()));
}
static void storeMem(State &s, const Val &addr, unsigned nb, const Val &v) {
  Place p = resolve(s, addr, nb, "write");
  if (p.o->ro) memErr(s, "memory", "write to read-only " + objName(p.o));
  Obj *o = writable(s, p.o);
  if (!p.off) { writeConc(o, p.coff, nb, v); return; }
  vector<u64> cand;
  if (!candidates(s, p.off, o->size, nb, cand) || cand.size() > 512) {
    u64 a = concretize(s, VE(p.off), 64);
    writeConc(o, a, nb, v); return;
  }
  Expr *ve = toE(v, nb * 8);
  for (u64 k : cand) {
    Expr *c = mkBin(EQ, mkConst(k, 64), p.off);
    if (isC(c, 0)) continue;
    Val old = readConc(s, o, k, nb); o = s.mem.find(o->base)->second.p;
    writeConc(o, k, nb, VE(mkIte(c, ve, toE(old, nb * 8))));
  }
}
static string readCStr(State &s, const Val &p) {
  string r; if (p.e) return "?";
  for (u64 a = p.c; r.size() < 300; a++) { Obj *o = findObj(s, a); if (!o || a < o->base || a >= o->base + o->size) break; Val v = readConc(s, o, a - o->base, 1); if (v.e) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; }
  return r;
}
static void copyMem(State &s, const Val &d, const Val &sr, u64 n) {
  if (!n) return;
  Place ps = resolve(s, sr, 1, "read"), pd = resolve(s, d, 1, "write");
  u64 so = ps.off ? concretize(s, VE(ps.off), 64) : ps.coff;
  u64 dofs = pd.off ? concretize(s, VE(pd.off), 64) : pd.coff;
  if (so + n > ps.o->size) memErr(s, "memory", "read outside " + objName(ps.o));
  if (dofs + n > pd.o->size) memErr(s, "memory", "write outside " + objName(pd.o));
  if (pd.o->ro) memErr(s, "memory", "write to read-only " + objName(pd.o));
  Obj *o = writable(s, pd.o);
  Obj *src = ps.o->base == o->base ? o : ps.o;
  src->grow(so + n); o->grow(dofs + n);
  vector<uint8_t> tmp(src->data.begin() + so, src->data.begin() + so + n);
  vector<Expr *> ts; if (!src->sym.empty()) ts.assign(src->sym.begin() + so, src->sym.begin() + so + n);
  vector<uint8_t> tu; if (!src->undef.empty()) tu.assign(src->undef.begin() + so, src->undef.begin() + so + n);
  std::copy(tmp.begin(), tmp.end(), o->data.begin() + dofs);
  if (!ts.empty()) { if (o->sym.empty()) o->sym.assign(o->data.size(), nullptr); std::copy(ts.begin(), ts.end(), o->sym.begin() + dofs); }
  else if (!o->sym.empty()) std::fill(o->sym.begin() + dofs, o->sym.begin() + dofs + n, nullptr);
  if (!tu.empty()) { if (o->undef.empty()) o->undef.assign(o->data.size(), 0); std::copy(tu.begin(), tu.end(), o->undef.begin() + dofs); }
  else if (!o->undef.empty()) std::fill(o->undef.begin() + dofs, o->undef.begin() + dofs + n, 0);
}

#include "compile.inc"
#include "exec.inc"
