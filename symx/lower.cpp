// symx: LLVM IR -> executable form.
#include "prog.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/DCE.h>
#include <set>
using namespace llvm;

static const DataLayout* DL;
static Program* PP;

[[noreturn]] static void die(const std::string& s) { fprintf(stderr, "symx: cannot encode: %s\n", s.c_str()); exit(3); }
static std::string show(const Value* v) { std::string s; raw_string_ostream o(s); v->print(o); return s; }
static unsigned widthOf(Type* t) {
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) die("integer wider than 64 bits"); return w; }
  if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  std::string s; raw_string_ostream o(s); t->print(o); die("type " + o.str());
}
static void leaves(Type* t, std::vector<Type*>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { for (auto* e : st->elements()) leaves(e, out); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), out); return; }
  out.push_back(t);
}
static unsigned nleaves(Type* t) { if (t->isVoidTy()) return 0; std::vector<Type*> v; leaves(t, v); return v.size(); }
static unsigned leafIndex(Type* t, ArrayRef<unsigned> idx) {
  unsigned n = 0;
  for (unsigned i : idx) {
    if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) n += nleaves(st->getElementType(k)); t = st->getElementType(i); }
    else { auto* at = cast<ArrayType>(t); n += i * nleaves(at->getElementType()); t = at->getElementType(); }
  }
  return n;
}

static uint64_t constBits(const Constant* c);
static uint64_t constBits(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
  if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto* gv = dyn_cast<GlobalVariable>(c)) { auto it = PP->globByName.find(gv->getName().str()); if (it == PP->globByName.end()) die("global " + gv->getName().str()); return PP->globals[it->second].addr; }
  if (auto* fn = dyn_cast<Function>(c)) return fn_addr(PP->fnByName.at(fn->getName().str()));
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return constBits(ga->getAliasee());
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("constant gep");
        return constBits(ce->getOperand(0)) + (uint64_t)off.getSExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constBits(ce->getOperand(0));
      case Instruction::Add: return constBits(ce->getOperand(0)) + constBits(ce->getOperand(1));
      case Instruction::Sub: return constBits(ce->getOperand(0)) - constBits(ce->getOperand(1));
      case Instruction::Trunc: return constBits(ce->getOperand(0)) & (ce->getType()->getIntegerBitWidth() >= 64 ? ~0ull : (1ull << ce->getType()->getIntegerBitWidth()) - 1);
      default: break;
    }
  }
  die("constant " + show(c));
}
static void writeInit(const Constant* c, std::vector<uint8_t>& buf, uint64_t off) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || c->isNullValue()) return;
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    unsigned es = cds->getElementByteSize();
    StringRef raw = cds->getRawDataValues(); (void)es;
    memcpy(buf.data() + off, raw.data(), raw.size()); return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) writeInit(ca->getOperand(i), buf, off + i * es); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeInit(cs->getOperand(i), buf, off + sl->getElementOffset(i)); return; }
  uint64_t v = constBits(c); unsigned n = DL->getTypeStoreSize(t);
  memcpy(buf.data() + off, &v, n);
}

struct FL { // function lowering
  Function& F; Func& out;
  std::map<const Value*, int> reg; std::map<uint64_t, Opnd> cpool; std::map<const BasicBlock*, uint32_t> bbpc;
  struct Fix { uint32_t edge; const BasicBlock* to; }; std::vector<Fix> fixes;
  FL(Function& F, Func& o) : F(F), out(o) {}
  Opnd cst(uint64_t v) { auto it = cpool.find(v); if (it != cpool.end()) return it->second; out.consts.push_back(v); Opnd o = ~(int32_t)(out.consts.size() - 1); cpool[v] = o; return o; }
  int def(const Value* v) { auto it = reg.find(v); if (it != reg.end()) return it->second; int r = out.nregs; out.nregs += std::max(1u, nleaves(v->getType())); reg[v] = r; return r; }
  Opnd use(const Value* v, unsigned leaf = 0) {
    if (auto* c = dyn_cast<Constant>(v)) {
      if (c->getType()->isAggregateType()) {
        if (isa<UndefValue>(c) || c->isNullValue()) return cst(0);
        if (auto* cs = dyn_cast<ConstantStruct>(c)) { unsigned n = 0; for (unsigned i = 0; i < cs->getNumOperands(); i++) { unsigned k = nleaves(cs->getOperand(i)->getType()); if (leaf < n + k) return use(cs->getOperand(i), leaf - n); n += k; } }
        die("aggregate constant " + show(c));
      }
      return cst(constBits(c));
    }
    return def(v) + leaf;
  }
  Inst& emit(IOp op, unsigned w, int dst, Opnd a = 0, Opnd b = 0, Opnd c = 0) {
    Inst i; memset(&i, 0, sizeof i); i.op = op; i.w = w; i.dst = dst; i.a = a; i.b = b; i.c = c; out.code.push_back(i); out.line.push_back(curLine); return out.code.back();
  }
  uint32_t curLine = 0;
  uint32_t edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = 0;
    for (auto& phi : to->phis()) { const Value* v = phi.getIncomingValueForBlock(from); unsigned n = nleaves(phi.getType()); for (unsigned k = 0; k < n; k++) e.copies.push_back({ def(&phi) + (int)k, use(v, k) }); }
    out.edges.push_back(e); fixes.push_back({ (uint32_t)out.edges.size() - 1, to }); return out.edges.size() - 1;
  }
  void run();
  void inst(Instruction& I);
  void call(CallBase& C);
};

void FL::run() {
  out.nargs = F.arg_size();
  for (auto& a : F.args()) { def(&a); out.argw.push_back(widthOf(a.getType())); }
  for (auto& bb : F) { bbpc[&bb] = out.code.size(); for (auto& I : bb) { if (auto dl = I.getDebugLoc()) curLine = dl.getLine(); inst(I); } }
  for (auto& f : fixes) out.edges[f.edge].target = bbpc[f.to];
  out.covered.assign(out.code.size(), 0);
  if (auto* sp = F.getSubprogram()) out.file = sp->getFilename().str();
}

void FL::inst(Instruction& I) {
  Type* T = I.getType();
  switch (I.getOpcode()) {
    case Instruction::PHI: return;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      Inst& i = emit(I_BIN, widthOf(T), def(&I), use(I.getOperand(0)), use(I.getOperand(1)));
      i.sub = I.getOpcode();
      if (auto* o = dyn_cast<OverflowingBinaryOperator>(&I)) { if (o->hasNoSignedWrap()) i.flags |= 1; }
      // map
      switch (I.getOpcode()) {
        case Instruction::Add: i.sub = 2; break; case Instruction::Sub: i.sub = 3; break; case Instruction::Mul: i.sub = 4; break;
        case Instruction::UDiv: i.sub = 5; break; case Instruction::SDiv: i.sub = 6; break; case Instruction::URem: i.sub = 7; break; case Instruction::SRem: i.sub = 8; break;
        case Instruction::Shl: i.sub = 9; break; case Instruction::LShr: i.sub = 10; break; case Instruction::AShr: i.sub = 11; break;
        case Instruction::And: i.sub = 12; break; case Instruction::Or: i.sub = 13; break; case Instruction::Xor: i.sub = 14; break;
      }
      return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      if (!T->isDoubleTy() && !T->isFloatTy()) die("non-double arithmetic");
      Inst& i = emit(I_FBIN, widthOf(T), def(&I), use(I.getOperand(0)), use(I.getOperand(1)));
      i.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : I.getOpcode() == Instruction::FDiv ? 3 : 4; return; }
    case Instruction::FNeg: emit(I_FNEG, widthOf(T), def(&I), use(I.getOperand(0))); return;
    case Instruction::ICmp: {
      auto& c = cast<ICmpInst>(I); Inst& i = emit(I_ICMP, widthOf(c.getOperand(0)->getType()), def(&I), use(c.getOperand(0)), use(c.getOperand(1)));
      switch (c.getPredicate()) { case CmpInst::ICMP_EQ: i.sub = 0; break; case CmpInst::ICMP_NE: i.sub = 1; break; case CmpInst::ICMP_ULT: i.sub = 2; break; case CmpInst::ICMP_ULE: i.sub = 3; break; case CmpInst::ICMP_UGT: i.sub = 4; break; case CmpInst::ICMP_UGE: i.sub = 5; break;
        case CmpInst::ICMP_SLT: i.sub = 6; break; case CmpInst::ICMP_SLE: i.sub = 7; break; case CmpInst::ICMP_SGT: i.sub = 8; break; default: i.sub = 9; }
      return; }
    case Instruction::FCmp: {
      if (!I.getOperand(0)->getType()->isDoubleTy() && !I.getOperand(0)->getType()->isFloatTy()) die("non-double comparison");
      Inst& i = emit(I_FCMP, 1, def(&I), use(I.getOperand(0)), use(I.getOperand(1))); i.sub = cast<FCmpInst>(I).getPredicate(); if (I.getOperand(0)->getType()->isFloatTy()) i.flags |= 8; return; }
    case Instruction::Trunc: emit(I_TRUNC, widthOf(T), def(&I), use(I.getOperand(0))).sub = widthOf(I.getOperand(0)->getType()); return;
    case Instruction::ZExt: emit(I_ZEXT, widthOf(T), def(&I), use(I.getOperand(0))).sub = widthOf(I.getOperand(0)->getType()); return;
    case Instruction::SExt: emit(I_SEXT, widthOf(T), def(&I), use(I.getOperand(0))).sub = widthOf(I.getOperand(0)->getType()); return;
    case Instruction::FPToSI: case Instruction::FPToUI: { Type* o = I.getOperand(0)->getType(); if (!o->isDoubleTy() && !o->isFloatTy()) die("long double");
      Inst& i = emit(I.getOpcode() == Instruction::FPToSI ? I_FPTOSI : I_FPTOUI, widthOf(T), def(&I), use(I.getOperand(0))); if (o->isFloatTy()) i.flags |= 8; return; }
    case Instruction::FPTrunc: if (!T->isFloatTy() || !I.getOperand(0)->getType()->isDoubleTy()) die("long double"); emit(I_FPTRUNC, 32, def(&I), use(I.getOperand(0))); return;
    case Instruction::FPExt: if (!T->isDoubleTy() || !I.getOperand(0)->getType()->isFloatTy()) die("long double"); emit(I_FPEXT, 64, def(&I), use(I.getOperand(0))); return;
    case Instruction::SIToFP: if (!T->isDoubleTy() && !T->isFloatTy()) die("float"); emit(I_SITOFP, widthOf(T), def(&I), use(I.getOperand(0))).sub = widthOf(I.getOperand(0)->getType()); return;
    case Instruction::UIToFP: if (!T->isDoubleTy() && !T->isFloatTy()) die("float"); emit(I_UITOFP, widthOf(T), def(&I), use(I.getOperand(0))).sub = widthOf(I.getOperand(0)->getType()); return;
    case Instruction::PtrToInt: { unsigned w = widthOf(T); if (w == 64) emit(I_COPY, 64, def(&I), use(I.getOperand(0))); else emit(I_TRUNC, w, def(&I), use(I.getOperand(0))).sub = 64; return; }
    case Instruction::IntToPtr: { unsigned w = widthOf(I.getOperand(0)->getType()); if (w == 64) emit(I_COPY, 64, def(&I), use(I.getOperand(0))); else emit(I_ZEXT, 64, def(&I), use(I.getOperand(0))).sub = w; return; }
    case Instruction::BitCast: case Instruction::Freeze: { unsigned n = nleaves(T); int d = def(&I); for (unsigned k = 0; k < n; k++) emit(I_COPY, 64, d + k, use(I.getOperand(0), k)); return; }
    case Instruction::Load: {
      if (T->isAggregateType()) die("aggregate load");
      Inst& i = emit(I_LOAD, widthOf(T), def(&I), use(I.getOperand(0))); i.sub = DL->getTypeStoreSize(T); if (T->isPointerTy()) i.flags |= 4; return; }
    case Instruction::Store: {
      Value* v = I.getOperand(0); if (v->getType()->isAggregateType()) die("aggregate store");
      Inst& i = emit(I_STORE, widthOf(v->getType()), 0, use(I.getOperand(1)), use(v)); i.sub = DL->getTypeStoreSize(v->getType()); return; }
    case Instruction::Alloca: {
      auto& a = cast<AllocaInst>(I); uint64_t sz = DL->getTypeAllocSize(a.getAllocatedType());
      Inst& i = emit(I_ALLOCA, 64, def(&I), use(a.getArraySize())); i.x = sz; return; }
    case Instruction::GetElementPtr: {
      GepInfo g; g.base = use(I.getOperand(0)); g.off = 0;
      auto* gep = cast<GetElementPtrInst>(&I);
      Type* ty = gep->getSourceElementType(); bool first = true;
      for (auto it = gep->idx_begin(); it != gep->idx_end(); ++it) {
        Value* ix = *it; uint64_t scale;
        if (first) { scale = DL->getTypeAllocSize(ty); first = false; }
        else if (auto* st = dyn_cast<StructType>(ty)) { unsigned k = cast<ConstantInt>(ix)->getZExtValue(); g.off += DL->getStructLayout(st)->getElementOffset(k); ty = st->getElementType(k); continue; }
        else { ty = cast<ArrayType>(ty)->getElementType(); scale = DL->getTypeAllocSize(ty); }
        if (auto* c = dyn_cast<ConstantInt>(ix)) g.off += c->getSExtValue() * (int64_t)scale;
        else g.terms.push_back({ use(ix), (uint8_t)widthOf(ix->getType()), (int64_t)scale });
      }
      out.geps.push_back(g); emit(I_GEP, 64, def(&I)).x = out.geps.size() - 1; return; }
    case Instruction::Select: { unsigned n = nleaves(T); int d = def(&I); std::vector<Type*> lv; leaves(T, lv); for (unsigned k = 0; k < n; k++) emit(I_SELECT, widthOf(lv[k]), d + k, use(I.getOperand(0)), use(I.getOperand(1), k), use(I.getOperand(2), k)); return; }
    case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(I); unsigned k = leafIndex(e.getAggregateOperand()->getType(), e.getIndices()); unsigned n = nleaves(T); int d = def(&I); for (unsigned j = 0; j < n; j++) emit(I_COPY, 64, d + j, use(e.getAggregateOperand(), k + j)); return; }
    case Instruction::InsertValue: { auto& e = cast<InsertValueInst>(I); unsigned n = nleaves(T), k = leafIndex(T, e.getIndices()), m = nleaves(e.getInsertedValueOperand()->getType()); int d = def(&I);
      for (unsigned j = 0; j < n; j++) emit(I_COPY, 64, d + j, j >= k && j < k + m ? use(e.getInsertedValueOperand(), j - k) : use(e.getAggregateOperand(), j)); return; }
    case Instruction::Br: {
      auto& b = cast<BranchInst>(I);
      if (b.isUnconditional()) { uint32_t e = edge(I.getParent(), b.getSuccessor(0)); emit(I_BR, 0, 0).x = e; }
      else { uint32_t e1 = edge(I.getParent(), b.getSuccessor(0)), e2 = edge(I.getParent(), b.getSuccessor(1)); Inst& i = emit(I_CONDBR, 0, 0, use(b.getCondition())); i.x = e1; i.b = e2; }
      return; }
    case Instruction::Switch: {
      auto& s = cast<SwitchInst>(I); SwitchInfo si;
      for (auto& c : s.cases()) si.cases.push_back({ c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor()) });
      si.def = edge(I.getParent(), s.getDefaultDest()); out.switches.push_back(si);
      emit(I_SWITCH, widthOf(s.getCondition()->getType()), 0, use(s.getCondition())).x = out.switches.size() - 1; return; }
    case Instruction::Ret: { std::vector<Opnd> r; if (auto* v = cast<ReturnInst>(I).getReturnValue()) { unsigned n = nleaves(v->getType()); for (unsigned k = 0; k < n; k++) r.push_back(use(v, k)); } out.rets.push_back(r); emit(I_RET, 0, 0).x = out.rets.size() - 1; return; }
    case Instruction::Unreachable: emit(I_UNREACHABLE, 0, 0); return;
    case Instruction::Call: call(cast<CallBase>(I)); return;
    default: die("instruction " + show(&I) + " in " + F.getName().str());
  }
}

void FL::call(CallBase& C) {
  Function* callee = C.getCalledFunction();
  if (callee && callee->isIntrinsic()) {
    switch (callee->getIntrinsicID()) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::vaend: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: return;
      case Intrinsic::vastart: emit(I_VASTART, 64, 0, use(C.getArgOperand(0))); return;
      case Intrinsic::expect: emit(I_COPY, 64, def(&C), use(C.getArgOperand(0))); return;
      default: break;
    }
  }
  CallInfo ci; ci.fn = -1; ci.ext = -1; ci.target = 0;
  if (callee) ci.fn = PP->fnByName.at(callee->getName().str());
  else { if (isa<InlineAsm>(C.getCalledOperand())) die("inline assembly"); if (auto* k = dyn_cast<Constant>(C.getCalledOperand())) { uint64_t a = constBits(k); ci.target = cst(a); } else ci.target = use(C.getCalledOperand()); }
  for (unsigned i = 0; i < C.arg_size(); i++) {
    if (C.isByValArgument(i)) die("byval argument in call to " + (callee ? callee->getName().str() : std::string("?")));
    ci.args.push_back(use(C.getArgOperand(i))); ci.widths.push_back(widthOf(C.getArgOperand(i)->getType())); }
  std::vector<Type*> lv; if (!C.getType()->isVoidTy()) leaves(C.getType(), lv);
  ci.nret = lv.size(); for (auto* t : lv) ci.retw.push_back(widthOf(t));
  out.calls.push_back(ci);
  emit(I_CALL, 0, ci.nret ? def(&C) : -1).x = out.calls.size() - 1;
}

void load_program(const std::vector<std::string>& files, Program& P, uint32_t& nextObj) {
  static LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (auto& f : files) {
    auto m = parseIRFile(f, err, ctx); if (!m) { err.print("symx", errs()); exit(3); }
    if (!M) { M = std::move(m); for (auto& G : M->globals()) P.sutGlobals.insert(G.getName().str()); for (auto& F : *M) if (!F.isDeclaration()) P.sutFuncs.insert(F.getName().str()); }
    else if (Linker::linkModules(*M, std::move(m))) die("link " + f);
  }
  // promote locals to registers, except where setjmp is called
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    for (auto& F : *M) {
      if (F.isDeclaration()) continue;
      bool twice = false;
      for (auto& bb : F) for (auto& I : bb) if (auto* c = dyn_cast<CallBase>(&I)) if (auto* fn = c->getCalledFunction()) if (fn->getName().contains("setjmp")) twice = true;
      if (twice) continue;
      SROAPass(SROAOptions::PreserveCFG).run(F, FAM);
      FAM.clear();
      EarlyCSEPass(false).run(F, FAM); FAM.clear();
      DCEPass().run(F, FAM); FAM.clear();
    }
  }
  static DataLayout dl(M.get()); DL = &dl; PP = &P;
  for (auto& F : *M) { auto f = std::make_unique<Func>(); f->name = F.getName().str(); f->id = P.funcs.size(); f->vararg = F.isVarArg(); f->defined = !F.isDeclaration(); P.fnByName[f->name] = f->id; P.funcs.push_back(std::move(f)); }
  for (auto& G : M->globals()) {
    Global g; g.name = G.getName().str(); g.size = DL->getTypeAllocSize(G.getValueType()); g.constant = G.isConstant(); g.addr = obj_addr(nextObj++);
    P.globByName[g.name] = P.globals.size(); P.globals.push_back(g);
  }
  for (auto& G : M->globals()) {
    Global& g = P.globals[P.globByName[G.getName().str()]]; g.init.assign(g.size, 0);
    if (G.hasInitializer()) writeInit(G.getInitializer(), g.init, 0);
    else fprintf(stderr, "symx: warning: external global %s\n", g.name.c_str());
  }
  for (auto& F : *M) if (!F.isDeclaration()) { Func& f = *P.funcs[P.fnByName[F.getName().str()]]; FL l(F, f); l.run(); f.lowered = true; }
  M.release();
}
