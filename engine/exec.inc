// ---------------------------------------------------------------- execution
static inline Val getv(State &s, Frame &f, const Opnd &o, unsigned w) {
  if (o.reg >= 0) return f.regs[o.reg];
  if (o.undef && w) return newUndef(s, w);
  return VC(o.c);
}
static void jump(State &s, Frame &f, CBlock *to) {
  auto it = to->phis.find(f.b);
  if (it != to->phis.end()) {
    auto &v = it->second;
    if (v.size() == 1) f.regs[v[0].first] = v[0].second.reg >= 0 ? f.regs[v[0].second.reg] : VC(v[0].second.c);
    else {
      Val tmp[64]; vector<Val> big; Val *t = tmp; if (v.size() > 64) { big.resize(v.size()); t = big.data(); }
      for (size_t i = 0; i < v.size(); i++) t[i] = v[i].second.reg >= 0 ? f.regs[v[i].second.reg] : VC(v[i].second.c);
      for (size_t i = 0; i < v.size(); i++) f.regs[v[i].first] = t[i];
    }
  }
  f.b = to; f.pc = 0;
}
static void sampleMaybe(State &s, bool force) {
  u64 n = st.paths;
  bool take = force || n < 4 || (n & (n - 1)) == 0 || n % 997 == 0;
  if (!take) return;
  fprintf(gLog, "{\"type\":\"path\",\"undef\":%llu,", (unsigned long long)s.undefVars);
  writeInputs(s, *s.model);
  fprintf(gLog, ",\"obs\":[");
  for (size_t i = 0; i < s.obs.size(); i++) fprintf(gLog, "%s%llu", i ? "," : "", (unsigned long long)(s.obs[i].e ? evalS(s, s.obs[i].e) : s.obs[i].c));
  fprintf(gLog, "]}\n");
}
static Val newSym(State &s, unsigned w) {
  uint32_t id = newVar(s, w); s.inputs.push_back({id, (uint8_t)w});
  if (s.model->size() < s.nextVar) { s.model = std::make_shared<vector<u64>>(*s.model); s.model->resize(s.nextVar, 0); }
  return VE(mkSym(id, w));
}
static Val binop(State &s, Op op, unsigned w, const Val &a, const Val &b) {
  if (!a.e && !b.e) return VC(foldBin(op, w, a.c & maskw(w), b.c & maskw(w)));
  return VE(mkBin(op, toE(a, w), toE(b, w)));
}
static Val cmpop(int pred, unsigned w, const Val &a, const Val &b) {
  using P = llvm::CmpInst;
  Op op; bool sw = false, neg = false;
  switch (pred) {
  case P::ICMP_EQ: op = EQ; break; case P::ICMP_NE: op = EQ; neg = true; break;
  case P::ICMP_ULT: op = ULT; break; case P::ICMP_ULE: op = ULE; break; case P::ICMP_UGT: op = ULT; sw = true; break; case P::ICMP_UGE: op = ULE; sw = true; break;
  case P::ICMP_SLT: op = SLT; break; case P::ICMP_SLE: op = SLE; break; case P::ICMP_SGT: op = SLT; sw = true; break; default: op = SLE; sw = true; break;
  }
  const Val &x = sw ? b : a, &y = sw ? a : b;
  if (!x.e && !y.e) return VC(foldBin(op, w, x.c & maskw(w), y.c & maskw(w)) ^ (neg ? 1 : 0));
  Expr *e = mkBin(op, toE(x, w), toE(y, w));
  return VE(neg ? mkNot(e) : e);
}
static void freeBlock(State &s, u64 p, const char *who) {
  if (!p) return;
  auto it = s.mem.find(p);
  if (it == s.mem.end() || it->second.p->kind != K_HEAP) {
    bool was = false; for (auto &f : s.freed) if (f.first == p) was = true;
    memErr(s, "memory", was ? string(who) + ": double free" : string(who) + ": pointer was not returned by an allocator");
  }
  s.freed.push_back({p, it->second.p->size});
  s.mem.erase(it);
}
static bool gQuiet = false;
// returns true if a frame was pushed (no result to store yet)
static bool doCall(State &s, Frame &f, CInst &ci) {
  CFunc *cf = ci.callee; unsigned base = 0;
  if (!cf) {
    Val fp = getv(s, f, ci.o[0], 64); base = 1;
    u64 a = concretize(s, fp, 64);
    auto it = gFuncByAddr.find(a);
    if (it == gFuncByAddr.end()) memErr(s, "memory", "call through an invalid function pointer");
    cf = it->second;
  }
  unsigned na = ci.o.size() - base;
  auto arg = [&](unsigned i) { return getv(s, f, ci.o[base + i], ci.argw[i]); };
  auto ret = [&](const Val &v) { if (ci.dst >= 0) f.regs[ci.dst] = v; };
  if (cf->isDecl || cf->intr != I_NONE) {
    switch (cf->intr) {
    case I_NOP: return false;
    case I_SYM: ret(newSym(s, ci.w)); return false;
    case I_ASSUME: {
      Val c = arg(0); unsigned w = ci.argw[0];
      if (!c.e) { if (!(c.c & maskw(w))) throw PathEnd{END_INFEASIBLE}; return false; }
      Expr *e = mkNot(mkBin(EQ, mkConst(0, w), c.e));
      shared_ptr<vector<u64>> nm; int r = maySat(s, e, nm);
      if (r < 0) limit(s, "solver gave no answer for an assumption");
      if (r == 0) throw PathEnd{END_INFEASIBLE};
      s.model = nm; addCons(s, e); return false; }
    case I_CHECK: {
      st.checks++;
      Val c = arg(0); unsigned w = ci.argw[0]; Val mv = VC(concretize(s, arg(1), 64));
      if (!c.e) { st.checksConst++; if (!(c.c & maskw(w))) { reportError(s, "check", readCStr(s, mv), s.model); throw PathEnd{END_ERROR}; } return false; }
      Expr *e = mkNot(mkBin(EQ, mkConst(0, w), c.e));
      shared_ptr<vector<u64>> nm; int r = maySat(s, mkNot(e), nm);
      if (r < 0) limit(s, "solver gave no answer for a check");
      if (r == 1) {
        reportError(s, "check", readCStr(s, mv), nm);
        r = maySat(s, e, nm); if (r != 1) throw PathEnd{END_ERROR};
        s.model = nm; addCons(s, e);
      }
      return false; }
    case I_FAIL: { Val mv = arg(0); st.checks++; reportError(s, "check", readCStr(s, mv), s.model); throw PathEnd{END_ERROR}; }
    case I_COVER: {
      string l = readCStr(s, VC(concretize(s, arg(0), 64)));
      if (gCoverSeen.insert(l).second) { fprintf(gLog, "{\"type\":\"cover\",\"label\":\"%s\",\"undef\":%llu,", jesc(l).c_str(), (unsigned long long)s.undefVars); writeInputs(s, *s.model); fprintf(gLog, "}\n"); fflush(gLog); }
      return false; }
    case I_OBSERVE: s.obs.push_back(arg(0)); return false;
    case I_CHOOSE: {
      Val lo = arg(0), hi = arg(1); u64 l = concretize(s, lo, 32), h = concretize(s, hi, 32);
      if (l > h) throw PathEnd{END_INFEASIBLE};
      // fork over every value explicitly (each sibling continues after this call)
      uint32_t id = s.nextVar;
      Val v = newSym(s, 32); (void)id;
      for (u64 k = h; k > l; k--) {
        State *n = cloneState(s);
        addCons(*n, mkBin(EQ, mkConst(k, 32), v.e));
        n->model = std::make_shared<vector<u64>>(*n->model); (*n->model)[v.e->val] = k;
        Frame &nf = n->stack.back(); if (ci.dst >= 0) nf.regs[ci.dst] = VC(k); nf.pc++;
        gWork.push_back(n);
      }
      addCons(s, mkBin(EQ, mkConst(l, 32), v.e));
      s.model = std::make_shared<vector<u64>>(*s.model); (*s.model)[v.e->val] = l;
      ret(VC(l)); return false; }
    case I_ALLOCSIZE: { u64 a = concretize(s, arg(0), 64); Obj *o = findObj(s, a); ret(VC(o && a >= o->base && a <= o->base + o->size ? o->size - (a - o->base) : 0)); return false; }
    case I_ISSYM: ret(VC(arg(0).e ? 1 : 0)); return false;
    case I_CONCRETE: { ret(VC(concretize(s, arg(0), ci.argw[0]))); return false; }
    case I_UNDEFCHECK: { // all bytes written?
      u64 a = concretize(s, arg(0), 64), n = concretize(s, arg(1), ci.argw[1]); Obj *o = findObj(s, a); bool ok = o && a >= o->base && a + n <= o->base + o->size;
      if (ok) o->grow(a - o->base + n);
      if (ok && !o->undef.empty()) for (u64 i = 0; i < n; i++) if (o->undef[a - o->base + i]) ok = false;
      ret(VC(ok)); return false; }
    case I_MALLOC: { u64 n = concretize(s, arg(0), 64); if (n >= (1ull << 40)) { ret(VC(0)); return false; } if (n > (1ull << 32)) limit(s, "allocation too large"); ret(VC(allocObj(s, n, K_HEAP, "malloc at " + locOf(ci.I), true))); return false; }
    case I_CALLOC: { u64 n = concretize(s, arg(0), 64) * concretize(s, arg(1), 64); if (n > (1u << 24)) limit(s, "allocation too large"); ret(VC(allocObj(s, n, K_HEAP, "calloc at " + locOf(ci.I), false))); return false; }
    case I_REALLOC: {
      u64 p = concretize(s, arg(0), 64), n = concretize(s, arg(1), 64); if (n > (1u << 24)) limit(s, "allocation too large");
      if (p) { auto it = s.mem.find(p); if (it == s.mem.end() || it->second.p->kind != K_HEAP) memErr(s, "memory", "realloc of a pointer not returned by an allocator"); }
      u64 q = allocObj(s, n, K_HEAP, "realloc at " + locOf(ci.I), true);
      if (p) { u64 k = std::min(n, s.mem[p].p->size); copyMem(s, VC(q), VC(p), k); freeBlock(s, p, "realloc"); }
      ret(VC(q)); return false; }
    case I_FREE: { u64 p = concretize(s, arg(0), 64); freeBlock(s, p, "free"); return false; }
    case I_MEMCPY: case I_MEMMOVE: { Val d = arg(0); u64 n = concretize(s, arg(2), ci.argw[2]); Val sr = arg(1); if (n > (1u << 24)) memErr(s, "memory", "copy of a huge length"); copyMem(s, d, sr, n); ret(d); return false; }
    case I_MEMSET: {
      Val d = arg(0); u64 n = concretize(s, arg(2), ci.argw[2]); Val v = arg(1); if (v.e && ci.argw[1] > 8) v = VE(mkExtract(v.e, 0, 8)); if (!v.e) v.c &= 255;
      if (n > (1u << 24)) memErr(s, "memory", "memset of a huge length");
      if (n) {
        Place p = resolve(s, d, 1, "write"); u64 off = p.off ? concretize(s, VE(p.off), 64) : p.coff;
        if (off + n > p.o->size) memErr(s, "memory", "write outside " + objName(p.o));
        Obj *o = writable(s, p.o); for (u64 i = 0; i < n; i++) writeConc(o, off + i, 1, v);
      }
      ret(d); return false; }
    case I_ASSERTFAIL: reportError(s, "assert", "assertion in the program failed: " + readCStr(s, arg(0)), s.model); throw PathEnd{END_ERROR};
    case I_ABORT: reportError(s, "abort", "program aborted", s.model); throw PathEnd{END_ERROR};
    case I_EXIT: throw PathEnd{END_EXIT};
    case I_CTYPEB: ret(VC(gCtypeBp)); return false;
    case I_CTYPELOW: ret(VC(gCtypeLowp)); return false;
    case I_CTYPEUP: ret(VC(gCtypeUpp)); return false;
    case I_ERRNO: ret(VC(gErrnoAddr)); return false;
    case I_MINMAX: {
      Val a = arg(0), b = arg(1); unsigned w = ci.w; bool sg = cf->name[5] == 's', mx = cf->name[7] == 'a' || cf->name[8] == 'x';
      mx = cf->name.compare(6, 3, "max") == 0;
      Expr *lt = mkBin(sg ? SLT : ULT, toE(a, w), toE(b, w));
      ret(VE(mx ? mkIte(lt, toE(b, w), toE(a, w)) : mkIte(lt, toE(a, w), toE(b, w)))); return false; }
    case I_ABS: { Expr *a = toE(arg(0), ci.w); ret(VE(mkIte(mkBin(SLT, a, mkConst(0, ci.w)), mkBin(SUB, mkConst(0, ci.w), a), a))); return false; }
    case I_FSHL: case I_FSHR: {
      unsigned w = ci.w; Expr *hi = toE(arg(0), w), *lo = toE(arg(1), w); u64 k = concretize(s, arg(2), w) % w;
      if (cf->intr == I_FSHR) k = (w - k) % w, hi = hi, lo = lo;
      if (cf->intr == I_FSHR && k == 0) { ret(VE(lo)); return false; }
      if (k == 0) { ret(VE(hi)); return false; }
      ret(VE(mkBin(OR, mkBin(SHL, hi, mkConst(k, w)), mkBin(LSHR, lo, mkConst(w - k, w))))); return false; }
    case I_BSWAP: { unsigned w = ci.w; Expr *a = toE(arg(0), w), *r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } ret(VE(r)); return false; }
    case I_CTPOP: { unsigned w = ci.w; Expr *a = toE(arg(0), w), *r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZExt(mkExtract(a, i, 1), w)); ret(VE(r)); return false; }
    case I_CTLZ: { unsigned w = ci.w; Expr *a = toE(arg(0), w), *r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r); ret(VE(r)); return false; }
    case I_CTTZ: { unsigned w = ci.w; Expr *a = toE(arg(0), w), *r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r); ret(VE(r)); return false; }
    case I_USUBSAT: { unsigned w = ci.w; Expr *a = toE(arg(0), w), *b = toE(arg(1), w); ret(VE(mkIte(mkBin(ULT, a, b), mkConst(0, w), mkBin(SUB, a, b)))); return false; }
    case I_UADDSAT: { unsigned w = ci.w; Expr *a = toE(arg(0), w), *b = toE(arg(1), w); Expr *r = mkBin(ADD, a, b); ret(VE(mkIte(mkBin(ULT, r, a), mkConst(~0ull, w), r))); return false; }
    case I_EXPECT: ret(arg(0)); return false;
    case I_OBJSIZE: ret(VC(maskw(ci.w))); return false;
    case I_VASTART: {
      Val ap = arg(0);
      u64 a = allocObj(s, f.va.size() * 8 + 8, K_STACK, "varargs", false); f.allocas.push_back(a);
      for (size_t i = 0; i < f.va.size(); i++) storeMem(s, VC(a + 8 * i), 8, f.va[i]);
      u64 p = concretize(s, ap, 64);
      storeMem(s, VC(p), 4, VC(48)); storeMem(s, VC(p + 4), 4, VC(304)); storeMem(s, VC(p + 8), 8, VC(a)); storeMem(s, VC(p + 16), 8, VC(0));
      return false; }
    case I_VACOPY: copyMem(s, arg(0), arg(1), 24); return false;
    default: limit(s, "no model for external function " + cf->name);
    }
  }
  if (!cf->compiled) compileFunc(cf);
  cf->entered++;
  if (s.stack.size() > 400) limit(s, "recursion too deep");
  Frame nf; nf.f = cf; nf.b = cf->blocks[0]; nf.pc = 0; nf.regs.assign(cf->nregs, VC(0)); nf.retDst = ci.dst;
  unsigned np = cf->args.size();
  for (unsigned i = 0; i < na; i++) {
    Val v = arg(i);
    if (i < np) nf.regs[cf->args[i]] = v;
    else { if (v.e && ci.argw[i] < 64) v = VE(mkZExt(v.e, 64)); nf.va.push_back(v); }
  }
  f.pc++; // resume after the call
  s.stack.push_back(std::move(nf));
  return true;
}
static void popFrame(State &s, Val rv, bool has) {
  Frame &f = s.stack.back(); int d = f.retDst;
  for (u64 a : f.allocas) s.mem.erase(a);
  s.stack.pop_back();
  if (!s.stack.empty() && d >= 0 && has) s.stack.back().regs[d] = rv;
}

static void maybeShare();

static void runState(State *sp) {
  State &s = *sp;
  int why = END_OK;
  try {
    u64 local = 0;
    while (!s.stack.empty()) {
      Frame &f = s.stack.back();
      CInst &ci = f.b->ins[f.pc];
      ci.hit = true;
      st.instrs++; s.steps++;
      if (s.steps > gMaxSteps) limit(s, "step limit reached (possible non-termination)");
      if ((++local & 0x3ff) == 0) { if (gSh->stop) { why = END_LIMIT; throw PathEnd{END_LIMIT}; } if (now() > gDeadline) { gSh->timedOut = 1; gSh->stop = 1; throw PathEnd{END_LIMIT}; } if ((local & 0xfff) == 0) maybeShare(); }
      switch (ci.op) {
      case C_BIN: {
        Val a = getv(s, f, ci.o[0], ci.w), b = getv(s, f, ci.o[1], ci.w);
        if (ci.sub == UDIV || ci.sub == SDIV || ci.sub == UREM || ci.sub == SREM) {
          if (!b.e) { if ((b.c & maskw(ci.w)) == 0) memErr(s, "div", "division by zero"); }
          else {
            Expr *z = mkBin(EQ, mkConst(0, ci.w), b.e); shared_ptr<vector<u64>> nm; int r = maySat(s, z, nm);
            if (r == 1) { reportError(s, "div", "division by zero", nm); if (maySat(s, mkNot(z), nm) != 1) throw PathEnd{END_ERROR}; s.model = nm; addCons(s, mkNot(z)); }
          }
        }
        f.regs[ci.dst] = binop(s, (Op)ci.sub, ci.w, a, b); f.pc++; break; }
      case C_ICMP: f.regs[ci.dst] = cmpop(ci.sub, ci.w2, getv(s, f, ci.o[0], ci.w2), getv(s, f, ci.o[1], ci.w2)); f.pc++; break;
      case C_CAST: {
        Val a = getv(s, f, ci.o[0], ci.w2);
        if (!a.e) f.regs[ci.dst] = VC(ci.sub ? (u64)sext64(a.c, ci.w2) & maskw(ci.w) : (a.c & maskw(ci.w2)) & maskw(ci.w));
        else f.regs[ci.dst] = VE(ci.w < ci.w2 ? mkExtract(a.e, 0, ci.w) : ci.sub ? mkSExt(a.e, ci.w) : mkZExt(a.e, ci.w));
        f.pc++; break; }
      case C_FP: { // floating point: on one value of the operands at a time, all of them in turn
        using llvm::Instruction; using llvm::CmpInst;
        double x[3]; u64 raw = 0; bool in = ci.sub == Instruction::SIToFP || ci.sub == Instruction::UIToFP;
        for (size_t i = 0; i < ci.o.size(); i++) {
          u64 v = concretize(s, getv(s, f, ci.o[i], ci.w2), ci.w2); if (!i) raw = v & maskw(ci.w2);
          if (in) continue;
          if (ci.w2 == 32) { uint32_t t = v; float g; memcpy(&g, &t, 4); x[i] = g; } else memcpy(&x[i], &v, 8);
        }
        double r = 0; u64 q = 0; bool isint = false;
        auto fit = [&](bool sg) { double lo = sg ? -std::ldexp(1.0, ci.w - 1) : 0, hi = std::ldexp(1.0, sg ? ci.w - 1 : ci.w); double t = std::trunc(x[0]); if (!(t >= lo && t < hi)) memErr(s, "fp", "a floating-point value does not fit the integer"); q = (sg ? (u64)(long long)t : (u64)t) & maskw(ci.w); isint = true; };
        switch (ci.sub) {
        case Instruction::FAdd: r = x[0] + x[1]; break; case Instruction::FSub: r = x[0] - x[1]; break; case Instruction::FMul: r = x[0] * x[1]; break; case Instruction::FDiv: r = x[0] / x[1]; break;
        case Instruction::FNeg: r = -x[0]; break; case Instruction::FPExt: case Instruction::FPTrunc: r = x[0]; break;
        case Instruction::SIToFP: r = (double)(long long)sext64(raw, ci.w2); break; case Instruction::UIToFP: r = (double)raw; break;
        case Instruction::FPToSI: fit(true); break; case Instruction::FPToUI: fit(false); break;
        case Instruction::Call: r = x[0] * x[1] + x[2]; break;
        default: { // FCmp: predicate bits are U L G E
          bool un = std::isnan(x[0]) || std::isnan(x[1]); int m = un ? 8 : x[0] < x[1] ? 4 : x[0] > x[1] ? 2 : 1; q = (ci.imm & m) != 0; isint = true; }
        }
        if (!isint) { if (ci.w == 32) { float g = (float)r; uint32_t t; memcpy(&t, &g, 4); q = t; } else memcpy(&q, &r, 8); }
        f.regs[ci.dst] = VC(q); f.pc++; break; }
      case C_ALLOCA: {
        u64 n = concretize(s, getv(s, f, ci.o[0], ci.w2), ci.w2);
        if (n * ci.imm > (1u << 24)) limit(s, "alloca too large");
        u64 a = allocObj(s, n * ci.imm, K_STACK, ci.name + " at " + locOf(ci.I), true);
        f.allocas.push_back(a); f.regs[ci.dst] = VC(a); f.pc++; break; }
      case C_LOAD: {
        unsigned nb = (ci.w + 7) / 8; Val v = loadMem(s, getv(s, f, ci.o[0], 64), nb);
        if (ci.w & 7) { if (v.e) v = VE(mkExtract(v.e, 0, ci.w)); else v.c &= maskw(ci.w); }
        f.regs[ci.dst] = v; f.pc++; break; }
      case C_STORE: {
        unsigned nb = (ci.w + 7) / 8; Val v = getv(s, f, ci.o[1], ci.w);
        if (ci.w & 7) { if (v.e) v = VE(mkZExt(v.e, nb * 8)); else v.c &= maskw(ci.w); }
        storeMem(s, getv(s, f, ci.o[0], 64), nb, v); f.pc++; break; }
      case C_GEP: {
        Val b = getv(s, f, ci.o[0], 64);
        u64 k = ci.imm; Expr *e = nullptr;
        for (size_t i = 0; i < ci.scale.size(); i++) {
          Val x = getv(s, f, ci.o[i + 1], ci.argw[i]);
          if (!x.e) k += (u64)sext64(x.c, ci.argw[i]) * ci.scale[i];
          else { Expr *t = mkBin(MUL, mkConst(ci.scale[i], 64), mkSExt(x.e, 64)); e = e ? mkBin(ADD, e, t) : t; }
        }
        if (!b.e) k += b.c; else e = e ? mkBin(ADD, b.e, e) : b.e;
        f.regs[ci.dst] = e ? VE(mkBin(ADD, mkConst(k, 64), e)) : VC(k);
        f.pc++; break; }
      case C_SELECT: {
        Val c = getv(s, f, ci.o[0], 1), a = getv(s, f, ci.o[1], ci.w), b = getv(s, f, ci.o[2], ci.w);
        if (!c.e) f.regs[ci.dst] = (c.c & 1) ? a : b;
        else f.regs[ci.dst] = VE(mkIte(c.e, toE(a, ci.w), toE(b, ci.w)));
        f.pc++; break; }
      case C_COPY: f.regs[ci.dst] = getv(s, f, ci.o[0], ci.w); f.pc++; break;
      case C_BR: jump(s, f, ci.t); break;
      case C_CONDBR: {
        Val c = getv(s, f, ci.o[0], 1);
        bool v = c.e ? decide(s, c.e) : (c.c & 1);
        jump(s, f, v ? ci.t : ci.f); break; }
      case C_SWITCH: {
        Val v = getv(s, f, ci.o[0], ci.w);
        CBlock *to = ci.t;
        if (!v.e) { for (auto &k : ci.cases) if (k.first == (v.c & maskw(ci.w))) { to = k.second; break; } }
        else {
          // group by destination, decide one destination at a time
          u64 cur = evalS(s, v.e); CBlock *mine = ci.t;
          for (auto &k : ci.cases) if (k.first == cur) mine = k.second;
          Expr *cond = nullptr;
          if (mine == ci.t) { for (auto &k : ci.cases) if (k.second != mine) { Expr *x = mkNot(mkBin(EQ, mkConst(k.first, ci.w), v.e)); cond = cond ? mkBin(AND, cond, x) : x; } }
          else { for (auto &k : ci.cases) if (k.second == mine) { Expr *x = mkBin(EQ, mkConst(k.first, ci.w), v.e); cond = cond ? mkBin(OR, cond, x) : x; } }
          if (cond) decide(s, cond); // sibling re-executes and picks another destination
          to = mine;
        }
        jump(s, f, to); break; }
      case C_CALL: {
        if (doCall(s, f, ci)) break;
        s.stack.back().pc++; break; }
      case C_RET: {
        if (ci.o.empty()) popFrame(s, VC(0), false);
        else { Val v = getv(s, f, ci.o[0], widthOf(ci.I->getOperand(0)->getType())); popFrame(s, v, true); }
        break; }
      case C_UNREACH: memErr(s, "abort", "reached an unreachable point"); break;
      default: limit(s, "unsupported instruction " + ci.name);
      }
    }
  } catch (PathEnd &p) { why = p.why; }
  if (why == END_OK || why == END_EXIT) { if (why == END_OK) st.paths++; else st.exits++; sampleMaybe(s, false); __sync_add_and_fetch(&gSh->paths, 1); }
  else if (why == END_INFEASIBLE) st.infeasible++;
  delete sp;
}

static int gDepth = 0;
static vector<pid_t> gKids;
static string gLogName;
static double gLastShare = 0;
static void openLog() { gLogName = gOut + "/w" + std::to_string(getpid()) + ".jsonl"; gLog = fopen(gLogName.c_str(), "w"); if (!gLog) { perror(gLogName.c_str()); _exit(3); } }
static void maybeShare() {
  if (gMaxProcs <= 1 || gWork.size() < 2) return;
  double t = now(); if (t - gLastShare < 0.05) return;
  int a = gSh->active; if (a >= gMaxProcs) return;
  if (!__sync_bool_compare_and_swap(&gSh->active, a, a + 1)) return;
  gLastShare = t;
  fflush(gLog);
  pid_t p = fork();
  if (p < 0) { __sync_sub_and_fetch(&gSh->active, 1); return; }
  // states alternate between the two processes, shallow ones first
  size_t n = gWork.size(); vector<State *> mine, theirs;
  for (size_t i = 0; i < n; i++) ((i & 1) ? mine : theirs).push_back(gWork[i]);
  if (p == 0) {
    gWork = theirs; st = Stats(); gKids.clear(); gDepth++; gErrSeen.clear();
    for (auto &kv : gFuncs) kv.second->entered = 0;
    openLog(); gLastShare = now();
    throw PathEnd{100}; // child drops the state it was running (the parent continues it)
  }
  gKids.push_back(p); gWork = mine;
}

static void finish() {
  // wait for helpers, then write the summary of this process
  fprintf(gLog, "{\"type\":\"stats\",\"paths\":%llu,\"exits\":%llu,\"infeasible\":%llu,\"errors\":%llu,\"limits\":%llu,\"forks\":%llu,\"instrs\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache\":%llu,\"modelhits\":%llu,\"domhits\":%llu,\"checks\":%llu,\"memchecks\":%llu,\"solver_s\":%.3f,\"exprs\":%llu}\n",
    (unsigned long long)st.paths, (unsigned long long)st.exits, (unsigned long long)st.infeasible, (unsigned long long)st.errors, (unsigned long long)st.limits, (unsigned long long)st.forks, (unsigned long long)st.instrs,
    (unsigned long long)st.queries, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, (unsigned long long)st.cacheHits, (unsigned long long)st.modelHits, (unsigned long long)st.domHits, (unsigned long long)st.checks, (unsigned long long)st.memChecks, st.solverS, (unsigned long long)pool.count);
  fprintf(gLog, "{\"type\":\"funcs\",\"list\":[");
  bool first = true;
  FILE *cov = getenv("SYMX_COV") ? fopen((string(getenv("SYMX_COV")) + "/" + std::to_string(getpid())).c_str(), "a") : nullptr;
  for (auto &kv : gFuncs) {
    CFunc *c = kv.second; if (!c->compiled || c->isDecl) continue;
    auto *SP = c->F->getSubprogram(); string file = SP ? SP->getFilename().str() : "?";
    size_t p = file.rfind('/'); if (p != string::npos) file = file.substr(p + 1);
    if (cov) for (auto *b : c->blocks) for (auto &in : b->ins) if (in.I) fprintf(cov, "%d %s\n", (int) in.hit, locOf(in.I).c_str());
    unsigned hit = 0, tot = 0; for (auto *b : c->blocks) { bool h = !b->ins.empty() && b->ins[0].hit; tot++; hit += h; }
    if (!hit) continue;
    fprintf(gLog, "%s[\"%s\",\"%s\",%u,%u]", first ? "" : ",", jesc(c->name).c_str(), jesc(file).c_str(), hit, tot); first = false;
  }
  fprintf(gLog, "]}\n"); fclose(gLog); if (cov) fclose(cov);
  __sync_sub_and_fetch(&gSh->active, 1);
  for (pid_t k : gKids) { int ws; while (waitpid(k, &ws, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(ws) || WEXITSTATUS(ws) != 0) { FILE *l = fopen((gOut + "/crash" + std::to_string(k)).c_str(), "w"); if (l) { fprintf(l, "%d\n", ws); fclose(l); } } }
}

int main(int argc, char **argv) {
  string bc, entry = "harness";
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--out") gOut = nx(); else if (a == "--timeout") gTimeout = atof(nx().c_str()); else if (a == "--procs") gMaxProcs = atoi(nx().c_str());
    else if (a == "--max-steps") gMaxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--query-ms") gQueryTimeoutMs = atoi(nx().c_str());
    else if (a == "--max-errors") gMaxErrors = atoi(nx().c_str()); else if (a == "--entry") entry = nx(); else bc = a;
  }
  gDeadline = now() + gTimeout;
  llvm::SMDiagnostic err; gMod = llvm::parseIRFile(bc, err, gCtx);
  if (!gMod) { err.print("symx", llvm::errs()); return 3; }
  DL = &gMod->getDataLayout();
  gSh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)gSh, 0, sizeof(Shared)); gSh->active = 1;
  openLog(); gLastShare = now();
  gSolver = new Solver();
  State *s = new State(); s->model = std::make_shared<vector<u64>>();
  for (auto &F : *gMod) funcFor(&F);
  setupGlobals(*s);
  llvm::Function *H = gMod->getFunction(entry);
  if (!H || H->isDeclaration()) { fprintf(stderr, "symx: no function %s\n", entry.c_str()); return 3; }
  CFunc *hf = funcFor(H); compileFunc(hf); hf->entered++;
  Frame f; f.f = hf; f.b = hf->blocks[0]; f.pc = 0; f.regs.assign(hf->nregs, VC(0)); f.retDst = -1; s->stack.push_back(f);
  gWork.push_back(s);
  while (!gWork.empty()) {
    if (gSh->stop) break;
    State *n = gWork.back(); gWork.pop_back();
    runState(n);
    try { maybeShare(); } catch (PathEnd &) {}
  }
  if (!gWork.empty()) { st.limits += gSh->timedOut ? gWork.size() : 0; }
  finish();
  return 0;
}
