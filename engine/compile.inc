// LLVM IR -> compact internal form; globals -> memory objects
static u64 evalConstInt(const llvm::Constant *C, bool &undef);

static CFunc *funcFor(const llvm::Function *F);
static u64 globalAddr(const llvm::GlobalValue *G) {
  if (auto *F = llvm::dyn_cast<llvm::Function>(G)) return funcFor(F)->addr;
  if (auto *V = llvm::dyn_cast<llvm::GlobalVariable>(G)) return gGlobAddr.at(V);
  if (auto *A = llvm::dyn_cast<llvm::GlobalAlias>(G)) { bool u = false; return evalConstInt(A->getAliasee(), u); }
  fprintf(stderr, "symx: unsupported global %s\n", G->getName().str().c_str()); exit(3);
}
static u64 evalConstInt(const llvm::Constant *C, bool &undef) {
  using namespace llvm;
  if (auto *CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() > 64) { fprintf(stderr, "symx: wide constant\n"); exit(3); } return CI->getZExtValue(); }
  if (isa<ConstantPointerNull>(C) || isa<ConstantAggregateZero>(C)) return 0;
  if (auto *CF = dyn_cast<ConstantFP>(C)) { APInt b = CF->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) { fprintf(stderr, "symx: wide constant\n"); exit(3); } return b.getZExtValue(); }
  if (isa<UndefValue>(C)) { undef = true; return 0; }
  if (auto *G = dyn_cast<GlobalValue>(C)) return globalAddr(G);
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    unsigned w = CE->getType()->isPointerTy() ? 64 : CE->getType()->getIntegerBitWidth();
    auto op = [&](int i) { return evalConstInt(CE->getOperand(i), undef); };
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *GO = cast<GEPOperator>(CE); APInt off(64, 0);
      if (!GO->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "symx: const gep\n"); exit(3); }
      return op(0) + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return op(0) & maskw(w);
    case Instruction::Trunc: return op(0) & maskw(w);
    case Instruction::Add: return (op(0) + op(1)) & maskw(w);
    case Instruction::Sub: return (op(0) - op(1)) & maskw(w);
    case Instruction::Mul: return (op(0) * op(1)) & maskw(w);
    case Instruction::And: return op(0) & op(1);
    default: break;
    }
  }
  fprintf(stderr, "symx: unsupported constant expression\n"); C->print(llvm::errs()); exit(3);
}
static void initBytes(const llvm::Constant *C, vector<uint8_t> &d, u64 off) {
  using namespace llvm;
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    u64 es = DL->getTypeAllocSize(CD->getElementType());
    for (unsigned i = 0; i < CD->getNumElements(); i++) { u64 v = CD->getElementAsInteger(i); memcpy(&d[off + i * es], &v, es); }
    return;
  }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) { auto *SL = DL->getStructLayout(CS->getType()); for (unsigned i = 0; i < CS->getNumOperands(); i++) initBytes(CS->getOperand(i), d, off + SL->getElementOffset(i)); return; }
  if (auto *CA = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(CA->getType()->getElementType()); for (unsigned i = 0; i < CA->getNumOperands(); i++) initBytes(CA->getOperand(i), d, off + i * es); return; }
  if (T->isIntegerTy() || T->isPointerTy()) { bool u = false; u64 v = evalConstInt(C, u); memcpy(&d[off], &v, DL->getTypeStoreSize(T)); return; }
  if (T->isFloatingPointTy()) return;
  fprintf(stderr, "symx: unsupported initializer\n"); exit(3);
}

static const std::map<string, Intr> &intrTable() {
  static std::map<string, Intr> t = {
    {"__symx_sym_u8", I_SYM}, {"__symx_sym_u16", I_SYM}, {"__symx_sym_u32", I_SYM}, {"__symx_sym_u64", I_SYM},
    {"__symx_assume", I_ASSUME}, {"__symx_check", I_CHECK}, {"__symx_cover", I_COVER}, {"__symx_observe", I_OBSERVE}, {"__symx_choose", I_CHOOSE},
    {"__symx_fail", I_FAIL}, {"__symx_allocsize", I_ALLOCSIZE}, {"__symx_is_symbolic", I_ISSYM}, {"__symx_concrete", I_CONCRETE}, {"__symx_initialised", I_UNDEFCHECK},
    {"malloc", I_MALLOC}, {"calloc", I_CALLOC}, {"realloc", I_REALLOC}, {"free", I_FREE},
    {"memcpy", I_MEMCPY}, {"memmove", I_MEMMOVE}, {"memset", I_MEMSET},
    {"__assert_fail", I_ASSERTFAIL}, {"abort", I_ABORT}, {"exit", I_EXIT}, {"_exit", I_EXIT}, {"_Exit", I_EXIT},
    {"__ctype_b_loc", I_CTYPEB}, {"__ctype_tolower_loc", I_CTYPELOW}, {"__ctype_toupper_loc", I_CTYPEUP}, {"__errno_location", I_ERRNO},
  };
  return t;
}
static CFunc *funcFor(const llvm::Function *F) {
  auto it = gFuncs.find(F); if (it != gFuncs.end()) return it->second;
  CFunc *f = new CFunc(); f->F = F; f->name = F->getName().str(); gFuncs[F] = f;
  f->addr = 0x8000000ull + gFuncs.size() * 16; gFuncByAddr[f->addr] = f;
  f->isDecl = F->isDeclaration();
  auto ti = intrTable().find(f->name);
  if (ti != intrTable().end()) { f->intr = ti->second; f->isDecl = true; }
  else if (f->name.rfind("llvm.", 0) == 0) {
    auto has = [&](const char *p) { return f->name.rfind(string("llvm.") + p, 0) == 0; };
    if (has("memcpy")) f->intr = I_MEMCPY; else if (has("memmove")) f->intr = I_MEMMOVE; else if (has("memset")) f->intr = I_MEMSET;
    else if (has("dbg") || has("lifetime") || has("assume") || has("va_end") || has("stacksave") || has("stackrestore") || has("experimental.noalias") || has("donothing")) f->intr = I_NOP;
    else if (has("smax") || has("smin") || has("umax") || has("umin")) f->intr = I_MINMAX;
    else if (has("abs")) f->intr = I_ABS; else if (has("fshl")) f->intr = I_FSHL; else if (has("fshr")) f->intr = I_FSHR; else if (has("bswap")) f->intr = I_BSWAP;
    else if (has("expect")) f->intr = I_EXPECT; else if (has("va_start")) f->intr = I_VASTART; else if (has("va_copy")) f->intr = I_VACOPY;
    else if (has("objectsize")) f->intr = I_OBJSIZE; else if (has("trap")) f->intr = I_ABORT; else if (has("ctpop")) f->intr = I_CTPOP;
    else if (has("usub.sat")) f->intr = I_USUBSAT; else if (has("uadd.sat")) f->intr = I_UADDSAT; else if (has("ctlz")) f->intr = I_CTLZ; else if (has("cttz")) f->intr = I_CTTZ;
  }
  return f;
}

static unsigned widthOf(llvm::Type *T) {
  if (T->isPointerTy() || T->isDoubleTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isIntegerTy() && T->getIntegerBitWidth() <= 64) return T->getIntegerBitWidth();
  return 0;
}

static void compileFunc(CFunc *f) {
  using namespace llvm;
  if (f->compiled) return;
  f->compiled = true;
  const Function *F = f->F;
  std::unordered_map<const Value *, int> reg;
  std::unordered_map<const BasicBlock *, CBlock *> bm;
  for (auto &A : F->args()) { reg[&A] = f->nregs++; f->args.push_back(reg[&A]); }
  for (auto &B : *F) { CBlock *cb = new CBlock(); cb->fn = f; cb->bb = &B; bm[&B] = cb; f->blocks.push_back(cb); for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = f->nregs++; }
  auto opnd = [&](const Value *V) -> Opnd {
    if (auto *C = dyn_cast<Constant>(V)) { bool u = false; u64 v = widthOf(C->getType()) ? evalConstInt(C, u) : 0; return Opnd{-1, v, u}; }
    auto it = reg.find(V); if (it == reg.end()) return Opnd{-1, 0, false}; // metadata etc.
    return Opnd{it->second, 0, false};
  };
  for (auto &B : *F) {
    CBlock *cb = bm[&B];
    for (auto &I : B) {
      if (auto *P = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) cb->phis[bm[P->getIncomingBlock(i)]].push_back({reg[P], opnd(P->getIncomingValue(i))}); continue; }
      CInst c; c.I = &I; c.op = C_UNSUP;
      if (!I.getType()->isVoidTy()) { c.dst = reg[&I]; c.w = widthOf(I.getType()); }
      bool badw = !I.getType()->isVoidTy() && !c.w;
      if (auto *O = dyn_cast<BinaryOperator>(&I)) {
        c.op = C_BIN; c.o = {opnd(O->getOperand(0)), opnd(O->getOperand(1))};
        switch (O->getOpcode()) {
        case Instruction::Add: c.sub = ADD; break; case Instruction::Sub: c.sub = SUB; break; case Instruction::Mul: c.sub = MUL; break;
        case Instruction::UDiv: c.sub = UDIV; break; case Instruction::SDiv: c.sub = SDIV; break; case Instruction::URem: c.sub = UREM; break; case Instruction::SRem: c.sub = SREM; break;
        case Instruction::And: c.sub = AND; break; case Instruction::Or: c.sub = OR; break; case Instruction::Xor: c.sub = XOR; break;
        case Instruction::Shl: c.sub = SHL; break; case Instruction::LShr: c.sub = LSHR; break; case Instruction::AShr: c.sub = ASHR; break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: c.op = C_FP; c.sub = O->getOpcode(); c.w2 = c.w; break;
        default: c.op = C_UNSUP;
        }
      } else if (isa<FCmpInst>(&I) || I.getOpcode() == Instruction::FNeg || I.getOpcode() == Instruction::SIToFP || I.getOpcode() == Instruction::UIToFP || I.getOpcode() == Instruction::FPToSI || I.getOpcode() == Instruction::FPToUI || I.getOpcode() == Instruction::FPExt || I.getOpcode() == Instruction::FPTrunc) {
        c.op = C_FP; c.sub = I.getOpcode(); c.w2 = widthOf(I.getOperand(0)->getType()); if (!c.w2) badw = true;
        for (unsigned i = 0; i < I.getNumOperands(); i++) c.o.push_back(opnd(I.getOperand(i)));
        if (auto *P = dyn_cast<FCmpInst>(&I)) c.imm = P->getPredicate();
      } else if (isa<CallInst>(&I) && cast<CallInst>(I).getCalledFunction() && cast<CallInst>(I).getCalledFunction()->getName().starts_with("llvm.fmuladd")) {
        c.op = C_FP; c.sub = Instruction::Call; c.w2 = c.w;
        for (unsigned i = 0; i < 3; i++) c.o.push_back(opnd(I.getOperand(i)));
      } else if (auto *P = dyn_cast<ICmpInst>(&I)) {
        c.op = C_ICMP; c.sub = P->getPredicate(); c.w2 = widthOf(P->getOperand(0)->getType()); if (!c.w2) badw = true;
        c.o = {opnd(P->getOperand(0)), opnd(P->getOperand(1))};
      } else if (auto *X = dyn_cast<CastInst>(&I)) {
        c.op = C_CAST; c.w2 = widthOf(X->getOperand(0)->getType()); if (!c.w2) badw = true; c.o = {opnd(X->getOperand(0))}; c.sub = X->getOpcode() == Instruction::SExt;
      } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
        c.op = C_ALLOCA; c.imm = DL->getTypeAllocSize(A->getAllocatedType()); c.o = {opnd(A->getArraySize())}; c.w2 = widthOf(A->getArraySize()->getType()); c.name = A->getName().str();
      } else if (auto *L = dyn_cast<LoadInst>(&I)) { c.op = C_LOAD; c.o = {opnd(L->getPointerOperand())}; }
      else if (auto *S = dyn_cast<StoreInst>(&I)) { c.op = C_STORE; c.w = widthOf(S->getValueOperand()->getType()); if (!c.w) badw = true; c.o = {opnd(S->getPointerOperand()), opnd(S->getValueOperand())}; }
      else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        c.op = C_GEP; c.o = {opnd(G->getPointerOperand())};
        MapVector<Value *, APInt> vo; APInt co(64, 0);
        if (!cast<GEPOperator>(G)->collectOffset(*DL, 64, vo, co)) badw = true;
        c.imm = co.getSExtValue();
        for (auto &kv : vo) { c.o.push_back(opnd(kv.first)); c.scale.push_back(kv.second.getSExtValue()); c.argw.push_back(widthOf(kv.first->getType())); }
      } else if (auto *S = dyn_cast<SelectInst>(&I)) { c.op = C_SELECT; c.o = {opnd(S->getCondition()), opnd(S->getTrueValue()), opnd(S->getFalseValue())}; }
      else if (auto *Br = dyn_cast<BranchInst>(&I)) {
        if (Br->isConditional()) { c.op = C_CONDBR; c.o = {opnd(Br->getCondition())}; c.t = bm[Br->getSuccessor(0)]; c.f = bm[Br->getSuccessor(1)]; }
        else { c.op = C_BR; c.t = bm[Br->getSuccessor(0)]; }
      } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
        c.op = C_SWITCH; c.w = widthOf(Sw->getCondition()->getType()); c.o = {opnd(Sw->getCondition())}; c.t = bm[Sw->getDefaultDest()];
        for (auto &k : Sw->cases()) c.cases.push_back({k.getCaseValue()->getZExtValue(), bm[k.getCaseSuccessor()]});
      } else if (auto *Cl = dyn_cast<CallInst>(&I)) {
        c.op = C_CALL; c.name = "indirect";
        if (Cl->isInlineAsm()) { c.op = C_UNSUP; c.name = "inline asm"; }
        const Value *cv = Cl->getCalledOperand()->stripPointerCasts();
        if (auto *CF = dyn_cast<Function>(cv)) { c.callee = funcFor(CF); c.intr = c.callee->intr; c.name = c.callee->name; if (c.intr == I_NOP) continue; }
        else c.o.push_back(opnd(Cl->getCalledOperand()));
        c.imm = c.callee ? 0 : 1;
        for (unsigned i = 0; i < Cl->arg_size(); i++) {
          c.o.push_back(opnd(Cl->getArgOperand(i))); c.argw.push_back(widthOf(Cl->getArgOperand(i)->getType()));
          if (Cl->paramHasAttr(i, Attribute::ByVal)) badw = true;
        }
        if (badw && !Cl->getType()->isVoidTy() && c.callee && !c.w) badw = true;
      } else if (auto *R = dyn_cast<ReturnInst>(&I)) { c.op = C_RET; if (R->getReturnValue()) c.o = {opnd(R->getReturnValue())}; }
      else if (isa<UnreachableInst>(&I)) c.op = C_UNREACH;
      else if (isa<FreezeInst>(&I)) { c.op = C_COPY; c.o = {opnd(I.getOperand(0))}; }
      if (badw) c.op = C_UNSUP;
      if (c.op == C_UNSUP) { c.name += string(" ") + I.getOpcodeName(); }
      cb->ins.push_back(std::move(c));
    }
  }
}

static void setupGlobals(State &s) {
  using namespace llvm;
  u64 ca = 0x10000000ull, va = 0x100000000ull;
  vector<const GlobalVariable *> gs;
  for (auto &G : gMod->globals()) gs.push_back(&G);
  for (auto *G : gs) {
    u64 sz = G->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G->getValueType()) : 8;
    bool konst = G->isConstant() && G->hasInitializer();
    u64 &a = konst ? ca : va;
    gGlobAddr[G] = a;
    // compact spacing for constants would still leave a gap larger than any small overrun
    a += ((sz + 15) & ~15ull) + (konst ? 65536 : GAP); a = (a + 4095) & ~4095ull;
  }
  if (ca >= 0x100000000ull) { fprintf(stderr, "symx: too many constants\n"); exit(3); }
  for (auto *G : gs) {
    u64 sz = G->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G->getValueType()) : 8;
    bool konst = G->isConstant() && G->hasInitializer();
    Obj *o = new Obj(); o->refs = 0; o->base = gGlobAddr[G]; o->size = sz; o->kind = K_GLOBAL; o->ro = konst; o->name = G->getName().str();
    o->data.assign(sz, 0);
    if (G->hasInitializer()) initBytes(G->getInitializer(), o->data, 0);
    if (konst) gConstMem[o->base] = ObjRef(o); else s.mem[o->base] = ObjRef(o);
  }
  s.nextAddr = va;
  auto mk = [&](u64 sz, const char *n) { return allocObj(s, sz, K_GLOBAL, n, false); };
  gErrnoAddr = mk(4, "errno");
  gCtypeB = mk(384 * 2, "ctype table"); gCtypeLow = mk(384 * 4, "tolower table"); gCtypeUp = mk(384 * 4, "toupper table");
  memcpy(s.mem[gCtypeB].p->data.data(), (const char *)(*__ctype_b_loc() - 128), 384 * 2);
  memcpy(s.mem[gCtypeLow].p->data.data(), (const char *)(*__ctype_tolower_loc() - 128), 384 * 4);
  memcpy(s.mem[gCtypeUp].p->data.data(), (const char *)(*__ctype_toupper_loc() - 128), 384 * 4);
  auto ptrTo = [&](u64 v, const char *n) { u64 a = mk(8, n); memcpy(s.mem[a].p->data.data(), &v, 8); return a; };
  gCtypeBp = ptrTo(gCtypeB + 256, "ctype_b"); gCtypeLowp = ptrTo(gCtypeLow + 512, "ctype_lower"); gCtypeUpp = ptrTo(gCtypeUp + 512, "ctype_upper");
  for (const char *n : {"stdin", "stdout", "stderr"}) if (auto *G = gMod->getGlobalVariable(n)) if (!G->hasInitializer()) { u64 d = mk(256, n); memcpy(s.mem[gGlobAddr[G]].p->data.data(), &d, 8); }
}
