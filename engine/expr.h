// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <string>
#include <z3.h>

enum Op : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct Expr {
  Op op; uint8_t w; uint32_t id; uint32_t hash;
  uint64_t val;            // CONST value, SYM id, EXTRACT low bit
  Expr *a, *b, *c;
  Expr *next;              // hash chain
  Z3_ast bv, bo;           // cached translations
  uint64_t evalVal; uint64_t evalGen;
  const std::vector<uint32_t> *vars; // cached sorted variable ids
  uint64_t substGen; Expr *substVal;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sext64(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

struct ExprPool {
  std::vector<Expr *> table;
  size_t count = 0;
  uint32_t nextId = 1;
  char *arena = nullptr; size_t arenaLeft = 0;
  ExprPool() { table.assign(1 << 16, nullptr); }
  Expr *allocExpr() {
    if (arenaLeft < sizeof(Expr)) { arenaLeft = sizeof(Expr) * 4096; arena = (char *)malloc(arenaLeft); if (!arena) abort(); }
    Expr *e = (Expr *)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr);
    return e;
  }
  static uint32_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return (uint32_t)h; }
  Expr *get(Op op, unsigned w, uint64_t val, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
    uint64_t h = (uint64_t)op * 1315423911u + w * 2654435761u;
    h = h * 31 + val * 0x9E3779B97F4A7C15ull;
    h = h * 1000003 + (a ? a->id : 0); h = h * 1000003 + (b ? b->id : 0); h = h * 1000003 + (c ? c->id : 0);
    uint32_t hh = mix(h);
    for (Expr *e = table[hh & (table.size() - 1)]; e; e = e->next)
      if (e->hash == hh && e->op == op && e->w == w && e->val == val && e->a == a && e->b == b && e->c == c) return e;
    if (count > table.size()) {
      std::vector<Expr *> nt(table.size() * 2, nullptr);
      for (Expr *e : table) while (e) { Expr *n = e->next; e->next = nt[e->hash & (nt.size() - 1)]; nt[e->hash & (nt.size() - 1)] = e; e = n; }
      table.swap(nt);
    }
    Expr *e = allocExpr();
    *e = Expr{op, (uint8_t)w, nextId++, hh, val, a, b, c, nullptr, nullptr, nullptr, 0, 0, nullptr, 0, nullptr};
    e->next = table[hh & (table.size() - 1)];
    table[hh & (table.size() - 1)] = e;
    count++;
    return e;
  }
};

extern ExprPool pool;

static inline Expr *mkConst(uint64_t v, unsigned w) { return pool.get(CONST, w, v & maskw(w)); }
static inline Expr *mkSym(uint64_t id, unsigned w) { return pool.get(SYM, w, id); }
static inline bool isC(Expr *e) { return e->op == CONST; }
static inline bool isC(Expr *e, uint64_t v) { return e->op == CONST && e->val == v; }

uint64_t foldBin(Op op, unsigned w, uint64_t a, uint64_t b);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
static inline Expr *mkNot(Expr *a) { return mkBin(XOR, a, mkConst(1, 1)); }
uint64_t evalExpr(Expr *e, const std::vector<uint64_t> &model, uint64_t gen);
const std::vector<uint32_t> *varsOf(Expr *e);
