#include "expr.h"
#include <set>
#include <map>
ExprPool pool;

uint64_t foldBin(Op op, unsigned w, uint64_t a, uint64_t b) {
  uint64_t m = maskw(w);
  switch (op) {
  case ADD: return (a + b) & m;
  case SUB: return (a - b) & m;
  case MUL: return (a * b) & m;
  case UDIV: return b ? a / b : m;
  case UREM: return b ? a % b : a;
  case SDIV: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (uint64_t)(0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case SREM: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case SHL: return b >= w ? 0 : (a << b) & m;
  case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: { int64_t x = sext64(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
  case EQ: return a == b;
  case ULT: return a < b;
  case ULE: return a <= b;
  case SLT: return sext64(a, w) < sext64(b, w);
  case SLE: return sext64(a, w) <= sext64(b, w);
  default: abort();
  }
}

static bool commut(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ; }
static bool isCmp(Op op) { return op >= EQ && op <= SLE; }

// an ITE tree whose leaves are all constants, with bounded size
static bool constLeaves(Expr *e, int &budget) {
  if (e->op == CONST) return true;
  if (e->op != ITE || --budget < 0) return false;
  return constLeaves(e->b, budget) && constLeaves(e->c, budget);
}
static Expr *mapLeaves(Op op, Expr *t, Expr *k, bool left) {
  if (t->op == CONST) return left ? mkBin(op, t, k) : mkBin(op, k, t);
  return mkIte(t->a, mapLeaves(op, t->b, k, left), mapLeaves(op, t->c, k, left));
}

// x | (y<<k), x + (y<<k) with x < 2^k: disjoint fields, i.e. a concatenation
static Expr *joinFields(Expr *a, Expr *b, unsigned w) {
  if (isC(a)) return nullptr;
  for (int s = 0; s < 2; s++) {
    Expr *x = s ? b : a, *y = s ? a : b;
    if (y->op == ZEXT) y = y->a;
    if (x->op == ZEXT && y->op == CONCAT && isC(y->b, 0) && x->a->w <= y->b->w)
      return mkZExt(mkConcat(y->a, mkZExt(x->a, y->b->w)), w);
  }
  return nullptr;
}

Expr *mkBin(Op op, Expr *a, Expr *b) {
  unsigned w = a->w, rw = isCmp(op) ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(foldBin(op, w, a->val, b->val), rw);
  if (commut(op)) {
    // constant on the left, otherwise order by id
    if (isC(b) || (!isC(a) && b->id < a->id)) std::swap(a, b);
  }
  uint64_t m = maskw(w);
  switch (op) {
  case ADD:
    if (isC(a, 0)) return b;
    if (isC(a) && b->op == ADD && isC(b->a)) return mkBin(ADD, mkConst(a->val + b->a->val, w), b->b);
    if (!isC(a) && a->op == ADD && isC(a->a)) return mkBin(ADD, a->a, mkBin(ADD, a->b, b));
    if (!isC(a) && b->op == ADD && isC(b->a)) return mkBin(ADD, b->a, mkBin(ADD, a, b->b));
    if (a->op == SUB && a->b == b) return a->a;
    if (b->op == SUB && b->b == a) return b->a;
    if (w == 1) return mkBin(XOR, a, b);
    if (Expr *j = joinFields(a, b, w)) return j;
    break;
  case SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(ADD, mkConst(0 - b->val, w), a);
    if (a->op == ADD && isC(a->a)) return mkBin(ADD, a->a, mkBin(SUB, a->b, b));
    if (b->op == ADD && isC(b->a)) return mkBin(ADD, mkConst(0 - b->a->val, w), mkBin(SUB, a, b->b));
    if (a->op == ADD && a->a == b) return a->b;
    if (a->op == ADD && a->b == b) return a->a;
    if (w == 1) return mkBin(XOR, a, b);
    break;
  case MUL:
    if (isC(a, 0)) return a;
    if (isC(a, 1)) return b;
    if (isC(a) && (a->val & (a->val - 1)) == 0) { unsigned k = __builtin_ctzll(a->val); return mkBin(SHL, b, mkConst(k, w)); }
    break;
  case UDIV:
    if (isC(b, 1)) return a;
    if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(LSHR, a, mkConst(__builtin_ctzll(b->val), w));
    break;
  case UREM:
    if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(AND, a, mkConst(b->val - 1, w));
    break;
  case AND:
    if (a == b) return a;
    if (isC(a, 0)) return a;
    if (isC(a, m)) return b;
    if (isC(a) && b->op == AND && isC(b->a)) return mkBin(AND, mkConst(a->val & b->a->val, w), b->b);
    if (isC(a) && b->op == ZEXT && (a->val & maskw(b->a->w)) == maskw(b->a->w)) return b;
    if (isC(a) && b->op == ZEXT) return mkZExt(mkBin(AND, mkConst(a->val, b->a->w), b->a), w);
    if (isC(a) && (a->val & (a->val + 1)) == 0) { unsigned k = __builtin_popcountll(a->val); return mkZExt(mkExtract(b, 0, k), w); }
    if (w == 1 && a->op == XOR && isC(a->a, 1) && a->b == b) return mkConst(0, 1);
    if (w == 1 && b->op == XOR && isC(b->a, 1) && b->b == a) return mkConst(0, 1);
    break;
  case OR:
    if (a == b) return a;
    if (isC(a, 0)) return b;
    if (isC(a, m)) return a;
    if (w == 1 && a->op == XOR && isC(a->a, 1) && a->b == b) return mkConst(1, 1);
    if (w == 1 && b->op == XOR && isC(b->a, 1) && b->b == a) return mkConst(1, 1);
    if (Expr *j = joinFields(a, b, w)) return j;
    break;
  case XOR:
    if (a == b) return mkConst(0, w);
    if (isC(a, 0)) return b;
    if (isC(a) && b->op == XOR && isC(b->a)) return mkBin(XOR, mkConst(a->val ^ b->a->val, w), b->b);
    if (w == 1 && isC(a, 1)) {
      if (b->op == ULT) return mkBin(ULE, b->b, b->a);
      if (b->op == ULE) return mkBin(ULT, b->b, b->a);
      if (b->op == SLT) return mkBin(SLE, b->b, b->a);
      if (b->op == SLE) return mkBin(SLT, b->b, b->a);
    }
    break;
  case SHL:
    if (isC(b, 0)) return a;
    if (isC(b) && b->val >= w) return mkConst(0, w);
    if (isC(b) && a->op == SHL && isC(a->b)) { uint64_t s = a->b->val + b->val; return s >= w ? mkConst(0, w) : mkBin(SHL, a->a, mkConst(s, w)); }
    if (isC(b)) return mkConcat(mkExtract(a, 0, w - b->val), mkConst(0, b->val));
    if (isC(a, 0)) return a;
    break;
  case LSHR:
    if (isC(b, 0)) return a;
    if (isC(b) && b->val >= w) return mkConst(0, w);
    if (isC(b)) return mkZExt(mkExtract(a, b->val, w - b->val), w);
    if (isC(a, 0)) return a;
    break;
  case ASHR:
    if (isC(b, 0)) return a;
    if (isC(b) && b->val < w) return mkSExt(mkExtract(a, b->val, w - b->val), w);
    break;
  case EQ:
    if (a == b) return mkConst(1, 1);
    if (w == 1) { if (isC(a, 1)) return b; if (isC(a, 0)) return mkNot(b); }
    if (isC(a)) {
      if (b->op == ZEXT) { if (a->val & ~maskw(b->a->w)) return mkConst(0, 1); return mkBin(EQ, mkConst(a->val, b->a->w), b->a); }
      if (b->op == SEXT) { if ((uint64_t)sext64(a->val, b->a->w) != (uint64_t)sext64(a->val, w)) return mkConst(0, 1); return mkBin(EQ, mkConst(a->val, b->a->w), b->a); }
      if (b->op == ADD && isC(b->a)) return mkBin(EQ, mkConst(a->val - b->a->val, w), b->b);
      if (b->op == XOR && isC(b->a)) return mkBin(EQ, mkConst(a->val ^ b->a->val, w), b->b);
      if (b->op == CONCAT) return mkBin(AND, mkBin(EQ, mkConst(a->val >> b->b->w, b->a->w), b->a), mkBin(EQ, mkConst(a->val, b->b->w), b->b));
      if (b->op == SUB && a->val == 0) return mkBin(EQ, b->a, b->b);
      if (b->op == ITE) {
        int bud = 64;
        if (constLeaves(b, bud)) return mapLeaves(EQ, b, a, true);
        if (isC(b->b) || isC(b->c)) return mkIte(b->a, mkBin(EQ, b->b, a), mkBin(EQ, b->c, a));
      }
    }
    if (!isC(a) && a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(EQ, a->a, b->a);
    if (!isC(a) && a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(EQ, a->a, b->a);
    break;
  case ULT:
    if (a == b) return mkConst(0, 1);
    if (isC(b, 0)) return mkConst(0, 1);
    if (isC(a, m)) return mkConst(0, 1);
    if (isC(b, 1)) return mkBin(EQ, mkConst(0, w), a);
    if (isC(a, 0)) return mkNot(mkBin(EQ, a, b));
    if (isC(b) && a->op == ZEXT) { if (b->val > maskw(a->a->w)) return mkConst(1, 1); return mkBin(ULT, a->a, mkConst(b->val, a->a->w)); }
    if (isC(a) && b->op == ZEXT) { if (a->val >= maskw(b->a->w)) return mkConst(0, 1); return mkBin(ULT, mkConst(a->val, b->a->w), b->a); }
    if (!isC(a) && !isC(b) && a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULT, a->a, b->a);
    break;
  case ULE:
    if (a == b) return mkConst(1, 1);
    if (isC(a, 0) || isC(b, m)) return mkConst(1, 1);
    if (isC(b)) return mkBin(ULT, a, mkConst(b->val + 1, w));
    if (isC(a)) return mkBin(ULT, mkConst(a->val - 1, w), b);
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULE, a->a, b->a);
    break;
  case SLT: case SLE: {
    if (a == b) return mkConst(op == SLE, 1);
    // nonnegative (zero-extended) operands: unsigned comparison
    auto nonneg = [&](Expr *e) { return (isC(e) && !(e->val >> (w - 1))) || (e->op == ZEXT && e->a->w < w) || (e->op == CONCAT && isC(e->a) && !(e->a->val >> (e->a->w - 1))); };
    if (nonneg(a) && nonneg(b)) return mkBin(op == SLT ? ULT : ULE, a, b);
    if (isC(b) && (b->val >> (w - 1)) && nonneg(a)) return mkConst(0, 1);
    if (isC(a) && (a->val >> (w - 1)) && nonneg(b)) return mkConst(1, 1);
    for (int s = 0; s < 2; s++) {
      Expr *x = s ? b : a, *k = s ? a : b;
      if (isC(k) && x->op == SEXT) {
        unsigned xw = x->a->w; int64_t kv = sext64(k->val, w), lo = -(int64_t)(1ull << (xw - 1)), hi = (int64_t)((1ull << (xw - 1)) - 1);
        if (kv >= lo && kv <= hi) { Expr *kk = mkConst(k->val, xw); return s ? mkBin(op, kk, x->a) : mkBin(op, x->a, kk); }
        // constant outside range
        if (!s) return mkConst(kv > hi, 1); else return mkConst(kv < lo, 1);
      }
    }
    if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
    break; }
  default: break;
  }
  // operations of an ITE tree of constants with a constant
  if (isC(a) && b->op == ITE) { int bud = 64; if (constLeaves(b, bud)) return mapLeaves(op, b, a, false); }
  if (isC(b) && a->op == ITE) { int bud = 64; if (constLeaves(a, bud)) return mapLeaves(op, a, b, true); }
  return pool.get(op, rw, 0, a, b);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == XOR && isC(c->a, 1)) return mkIte(c->b, b, a);
  if (a->w == 1) {
    if (isC(a, 1)) return mkBin(OR, c, b);
    if (isC(a, 0)) return mkBin(AND, mkNot(c), b);
    if (isC(b, 1)) return mkBin(OR, mkNot(c), a);
    if (isC(b, 0)) return mkBin(AND, c, a);
  }
  if (isC(a) && isC(b) && a->val == 1 && b->val == 0) return mkZExt(c, a->w);
  if (isC(a) && isC(b) && a->val == 0 && b->val == 1) return mkZExt(mkNot(c), a->w);
  if (a->op == ITE && a->a == c) a = a->b;
  if (b->op == ITE && b->a == c) b = b->c;
  if (b->op == ITE && b->b == a) return mkIte(mkBin(OR, c, b->a), a, b->c);
  if (a->op == ITE && a->c == b) return mkIte(mkBin(AND, c, a->a), a->b, b);
  if (a == b) return a;
  return pool.get(ITE, a->w, 0, c, a, b);
}

static bool shallow(Expr *e) { return e->op == CONST || e->op == ZEXT || e->op == SEXT || e->op == CONCAT || e->op == SYM; }
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->val >> lo, w);
  switch (a->op) {
  case EXTRACT: return mkExtract(a->a, a->val + lo, w);
  case CONCAT: {
    unsigned lw = a->b->w;
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
  case ZEXT: {
    unsigned iw = a->a->w;
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    if (lo >= iw) return mkConst(0, w);
    return mkZExt(mkExtract(a->a, lo, iw - lo), w); }
  case SEXT: {
    unsigned iw = a->a->w;
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
    break; }
  case ITE:
    { int bud = 64; if (constLeaves(a, bud) ) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); }
    if (isC(a->b) || isC(a->c) || a->b->op == ZEXT || a->c->op == ZEXT) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  case AND: case OR: case XOR:
    if (shallow(a->a) || shallow(a->b)) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    break;
  case ADD: case SUB: case MUL:
    if (lo == 0 && (shallow(a->a) || shallow(a->b))) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  default: break;
  }
  return pool.get(EXTRACT, w, lo, a);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isC(hi, 0)) return mkZExt(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w) return mkExtract(hi->a, lo->val, w);
  if (hi->op == EXTRACT && hi->a == lo && hi->val == lo->w && hi->val + hi->w <= lo->w) return mkExtract(lo, 0, w);
  // concat(extract(x,k,..), concat(extract(x,j..)..)) : merge across
  if (lo->op == CONCAT && hi->op == EXTRACT && lo->a->op == EXTRACT && hi->a == lo->a->a && hi->val == lo->a->val + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->val, hi->w + lo->a->w), lo->b);
  if (lo->op == CONCAT && isC(hi) && isC(lo->a)) return mkConcat(mkConst((hi->val << lo->a->w) | lo->a->val, hi->w + lo->a->w), lo->b);
  if (hi->op == ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  // right-assoc normal form
  if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->op == ITE && lo->op == ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  // ite tree of constants with a constant low part
  if (isC(lo) && hi->op == ITE) { int bud = 64; if (constLeaves(hi, bud)) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo)); }
  return pool.get(CONCAT, w, 0, hi, lo);
}
Expr *mkZExt(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkConst(a->val, w);
  if (a->op == ZEXT) return mkZExt(a->a, w);
  if (a->op == ITE) { int bud = 64; if (constLeaves(a, bud)) { Expr *x = mkZExt(a->b, w), *y = mkZExt(a->c, w); if (!(isC(x,1) && isC(y,0)) && !(isC(x,0) && isC(y,1))) return mkIte(a->a, x, y); } }
  return pool.get(ZEXT, w, 0, a);
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkConst((uint64_t)sext64(a->val, a->w), w);
  if (a->op == SEXT) return mkSExt(a->a, w);
  if (a->op == ZEXT) return mkZExt(a->a, w);
  if (a->op == ITE) { int bud = 64; if (constLeaves(a, bud)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w)); }
  if (a->w == 1) return mkIte(a, mkConst(~0ull, w), mkConst(0, w));
  return pool.get(SEXT, w, 0, a);
}

uint64_t evalExpr(Expr *e, const std::vector<uint64_t> &m, uint64_t gen) {
  if (e->op == CONST) return e->val;
  if (e->op == SYM) return e->val < m.size() ? (m[e->val] & maskw(e->w)) : 0;
  if (e->evalGen == gen) return e->evalVal;
  uint64_t r;
  switch (e->op) {
  case ITE: r = evalExpr(e->a, m, gen) ? evalExpr(e->b, m, gen) : evalExpr(e->c, m, gen); break;
  case CONCAT: r = (evalExpr(e->a, m, gen) << e->b->w) | evalExpr(e->b, m, gen); break;
  case EXTRACT: r = (evalExpr(e->a, m, gen) >> e->val) & maskw(e->w); break;
  case ZEXT: r = evalExpr(e->a, m, gen); break;
  case SEXT: r = (uint64_t)sext64(evalExpr(e->a, m, gen), e->a->w) & maskw(e->w); break;
  default: r = foldBin(e->op, e->a->w, evalExpr(e->a, m, gen), evalExpr(e->b, m, gen));
  }
  e->evalGen = gen; e->evalVal = r;
  return r;
}

static std::map<std::vector<uint32_t>, const std::vector<uint32_t> *> varSets;
static const std::vector<uint32_t> *intern(std::vector<uint32_t> &&v) {
  auto it = varSets.find(v);
  if (it != varSets.end()) return it->second;
  auto *p = new std::vector<uint32_t>(v);
  varSets.emplace(*p, p);
  return p;
}
const std::vector<uint32_t> *varsOf(Expr *e) {
  if (e->vars) return e->vars;
  const std::vector<uint32_t> *r;
  if (e->op == CONST) r = intern({});
  else if (e->op == SYM) r = intern({(uint32_t)e->val});
  else {
    const std::vector<uint32_t> *s[3]; int n = 0;
    for (Expr *k : {e->a, e->b, e->c}) if (k) { auto *x = varsOf(k); bool dup = x->empty(); for (int i = 0; i < n; i++) if (s[i] == x) dup = true; if (!dup) s[n++] = x; }
    if (n == 0) r = intern({});
    else if (n == 1) r = s[0];
    else {
      std::vector<uint32_t> u, t;
      std::set_union(s[0]->begin(), s[0]->end(), s[1]->begin(), s[1]->end(), std::back_inserter(u));
      if (n == 3) { std::set_union(u.begin(), u.end(), s[2]->begin(), s[2]->end(), std::back_inserter(t)); u.swap(t); }
      r = intern(std::move(u));
    }
  }
  e->vars = r;
  return r;
}
