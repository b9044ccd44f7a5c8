// LLVM IR -> pre-decoded code
#include "decode.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;

std::vector<Val> constPool;
std::map<std::string, DFunc*> funcByName;
std::unordered_map<uint64_t, DFunc*> funcByAddr;
std::map<std::string, uint64_t> globalByName; std::set<uint32_t> ownGlobals; std::set<std::string> ownNames;   // objects every thread has its own of, or whose model is not how they really work
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static Module* M; static const DataLayout* DL;
static LLVMContext* C;
std::vector<std::string> externGlobals;
std::vector<DFunc*> globalCtors;
static Memory* gmem;

static int poolVal(Val v) {
  static std::map<std::pair<uint64_t, Expr*>, int> idx;
  auto k = std::make_pair(v.c, v.e);
  auto it = idx.find(k);
  if (it != idx.end()) return it->second;
  constPool.push_back(v);
  return idx[k] = ~(int)(constPool.size() - 1);
}
static unsigned bitsOf(Type* t) { return t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits().getFixedValue(); }
struct FlatEl { Type* t; uint64_t off; };
static bool flatten(Type* t, std::vector<FlatEl>& o, uint64_t off = 0) {
  if (t->isVoidTy()) return true;
  if (t->isIntegerTy() || t->isPointerTy() || t->isFloatTy() || t->isDoubleTy()) {
    if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) return false;
    o.push_back({t, off}); return true;
  }
  if (auto* s = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) if (!flatten(s->getElementType(i), o, off + sl->getElementOffset(i))) return false;
    return true;
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    if (a->getNumElements() > 256) return false;
    for (unsigned i = 0; i < a->getNumElements(); i++) if (!flatten(a->getElementType(), o, off + i * DL->getTypeAllocSize(a->getElementType()))) return false;
    return true;
  }
  if (auto* a = dyn_cast<FixedVectorType>(t)) {
    if (bitsOf(a->getElementType()) % 8) return false;
    for (unsigned i = 0; i < a->getNumElements(); i++) if (!flatten(a->getElementType(), o, off + i * DL->getTypeAllocSize(a->getElementType()))) return false;
    return true;
  }
  return false;
}
static int nslots(Type* t) { std::vector<FlatEl> o; if (!flatten(t, o)) return -1; return o.size(); }

static bool constInt(const Constant* c, uint64_t& out);
static bool flatConst(const Constant* c, std::vector<Val>& o) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) {   // includes poison
    std::vector<FlatEl> f; if (!flatten(t, f)) return false;
    for (auto& e : f) { unsigned w = bitsOf(e.t); Expr* u = mkUndef8(); Expr* r = u; while (r->w < w) r = mkConcat(u, r); o.push_back({0, mkExtract(r, 0, w)}); }
    return true;
  }
  if (isa<ConstantAggregateZero>(c)) { int n = nslots(t); if (n < 0) return false; for (int i = 0; i < n; i++) o.push_back({0, nullptr}); return true; }
  if (auto* a = dyn_cast<ConstantAggregate>(c)) { for (auto& op : a->operands()) if (!flatConst(cast<Constant>(op), o)) return false; return true; }
  if (auto* a = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < a->getNumElements(); i++) if (!flatConst(a->getElementAsConstant(i), o)) return false; return true; }
  uint64_t v; if (!constInt(c, v)) return false;
  o.push_back({v, nullptr}); return true;
}
static bool constInt(const Constant* c, uint64_t& out) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return false; out = ci->getZExtValue(); return true; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { auto b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) return false; out = b.getZExtValue(); return true; }
  if (isa<ConstantPointerNull>(c)) { out = 0; return true; }
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return constInt(ga->getAliasee(), out);
  if (auto* gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) return false; out = it->second; return true; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    uint64_t a, b;
    unsigned w = c->getType()->isPointerTy() ? 64 : c->getType()->getPrimitiveSizeInBits().getFixedValue();
    if (auto* g = dyn_cast<GEPOperator>(ce)) {
      if (!constInt(cast<Constant>(g->getPointerOperand()), a)) return false;
      APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) return false;
      out = a + off.getSExtValue(); return true;
    }
    switch (ce->getOpcode()) {
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast:
        if (!constInt(ce->getOperand(0), a)) return false; out = a & maskw(w); return true;
      case Instruction::Add: if (!constInt(ce->getOperand(0), a) || !constInt(ce->getOperand(1), b)) return false; out = (a + b) & maskw(w); return true;
      case Instruction::Sub: if (!constInt(ce->getOperand(0), a) || !constInt(ce->getOperand(1), b)) return false; out = (a - b) & maskw(w); return true;
      case Instruction::ICmp: {
        if (!constInt(ce->getOperand(0), a) || !constInt(ce->getOperand(1), b)) return false;
        switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: out = a == b; return true; case CmpInst::ICMP_NE: out = a != b; return true; default: return false; } }
      default: return false;
    }
  }
  return false;
}
static void writeConst(const Constant* c, Obj* o, uint64_t off) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;   // object is zero-filled
  if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) writeConst(s->getOperand(i), o, off + sl->getElementOffset(i)); return; }
  if (auto* s = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(s->getType()->getElementType()); for (unsigned i = 0; i < s->getNumOperands(); i++) writeConst(s->getOperand(i), o, off + i * es); return; }
  if (auto* s = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(s->getElementType()); for (unsigned i = 0; i < s->getNumElements(); i++) writeConst(s->getElementAsConstant(i), o, off + i * es); return; }
  uint64_t v;
  if (!constInt(c, v)) { fprintf(stderr, "posym: unsupported global initialiser\n"); return; }
  unsigned n = (bitsOf(c->getType()) + 7) / 8;
  for (unsigned i = 0; i < n && off + i < o->size; i++) o->data[off + i] = v >> (8 * i);
}

static const std::map<std::string, int>& builtinTable() {
  static std::map<std::string, int> t = {
    {"posym_sym_bytes", B_SYM}, {"posym_choice", B_CHOICE}, {"posym_assume", B_ASSUME}, {"posym_assert", B_ASSERT}, {"posym_cover", B_COVER},
    {"posym_observe", B_OBSERVE}, {"posym_unwind", B_UNWIND}, {"posym_fail", B_FAIL}, {"posym_concrete", B_CONCRETE}, {"posym_isSymbolic", B_ISSYM}, {"posym_print", B_PRINT}, {"posym_dump", B_DUMP},
    {"posym_stop", B_STOP}, {"posym_shared", B_SHARED}, {"posym_guard", B_GUARD},
    {"malloc", B_MALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP},
    {"__dynamic_cast", B_DYNCAST}, {"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"posym_objsize", B_OBJSIZE}, {"_exit", B_EXIT}, {"exit", B_EXIT}};
  return t;
}

struct FDec {
  const Function* F; DFunc* D; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bbStart;
  int newSlots(int n) { int s = D->nslots; D->nslots += n; return s; }
  bool ops(const Value* v, std::vector<int>& o) {
    if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> vs; if (!flatConst(c, vs)) return false; for (auto& x : vs) o.push_back(poolVal(x)); return true; }
    auto it = slot.find(v); if (it == slot.end()) return false;
    int n = nslots(v->getType()); for (int i = 0; i < n; i++) o.push_back(it->second + i);
    return true;
  }
  int op1(const Value* v) { std::vector<int> o; if (!ops(v, o) || o.size() != 1) throw std::string("operand"); return o[0]; }
  Inst mk(int op, int dst = -1, int a = 0, int b = 0, int c = 0, unsigned w = 0) { Inst i; memset(&i, 0, sizeof i); i.op = op; i.dst = dst; i.a = a; i.b = b; i.c = c; i.w = w; return i; }
  void emit(Inst i) { D->code.push_back(i); }
  void unsup(const std::string& m) { Inst i = mk(I_UNSUP); i.x = D->msgs.size(); D->msgs.push_back(m); emit(i); }
  int edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = -1; e.par = false;
    std::vector<std::pair<int, int>> cp;
    for (auto& phi : to->phis()) {
      std::vector<int> o; const Value* in = phi.getIncomingValueForBlock(from);
      if (!ops(in, o)) throw std::string("phi operand");
      int s = slot[&phi];
      for (size_t i = 0; i < o.size(); i++) cp.push_back({s + (int)i, o[i]});
    }
    std::set<int> dsts; for (auto& p : cp) { if (dsts.count(p.second)) e.par = true; dsts.insert(p.first); }
    e.copies = cp;
    D->edges.push_back(e); fix.push_back({(int)D->edges.size() - 1, to});
    return D->edges.size() - 1;
  }
  std::vector<std::pair<int, const BasicBlock*>> fix;
  void run();
  void inst(const Instruction& I);
  void call(const CallBase& cb);
  void gep(const GEPOperator* g, int dst) {
    uint64_t off = 0; std::vector<GepTerm> terms;
    for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
      const Value* idx = gti.getOperand();
      if (auto* st = gti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
      uint64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
      if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += sz * (uint64_t)ci->getSExtValue(); continue; }
      terms.push_back({op1(idx), sz, (uint8_t)bitsOf(idx->getType())});
    }
    Inst i = mk(terms.empty() ? I_GEPC : I_GEP, dst, op1(g->getPointerOperand())); i.imm = off;
    if (!terms.empty()) { i.x = D->geps.size(); D->geps.push_back(terms); }
    emit(i);
  }
};
void FDec::run() {
  D->nslots = 0;
  for (auto& a : F->args()) { int n = nslots(a.getType()); if (n < 0) throw std::string("arg type"); slot[&a] = newSlots(n); }
  D->nargs = D->nslots;
  for (auto& bb : *F) for (auto& I : bb) if (!I.getType()->isVoidTy()) {
    int n = nslots(I.getType());
    if (n < 0) n = 1;
    slot[&I] = newSlots(n);
  }
  for (auto& bb : *F) {
    bbStart[&bb] = D->code.size();
    for (auto& I : bb) {
      if (isa<PHINode>(I)) continue;
      size_t before = D->code.size();
      try { inst(I); } catch (std::string& s) { D->code.resize(before); std::string t; raw_string_ostream os(t); I.print(os); unsup(s + ": " + t); }
    }
  }
  for (auto& f : fix) D->edges[f.first].target = bbStart[f.second];
}
static int predOp(CmpInst::Predicate p, bool& swap, bool& neg) {
  swap = neg = false;
  switch (p) {
    case CmpInst::ICMP_EQ: return O_EQ; case CmpInst::ICMP_NE: neg = true; return O_EQ;
    case CmpInst::ICMP_ULT: return O_ULT; case CmpInst::ICMP_ULE: return O_ULE;
    case CmpInst::ICMP_UGT: swap = true; return O_ULT; case CmpInst::ICMP_UGE: swap = true; return O_ULE;
    case CmpInst::ICMP_SLT: return O_SLT; case CmpInst::ICMP_SLE: return O_SLE;
    case CmpInst::ICMP_SGT: swap = true; return O_SLT; case CmpInst::ICMP_SGE: swap = true; return O_SLE;
    default: throw std::string("pred");
  }
}
void FDec::inst(const Instruction& I) {
  int dst = I.getType()->isVoidTy() ? -1 : slot[&I];
  if (!I.getType()->isVoidTy() && nslots(I.getType()) < 0) throw std::string("type");
  if (auto* b = dyn_cast<BinaryOperator>(&I)) {
    Type* t = I.getType();
    static const std::map<unsigned, int> bo = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV},
      {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
    auto it = bo.find(b->getOpcode());
    std::vector<int> x, y; if (!ops(b->getOperand(0), x) || !ops(b->getOperand(1), y)) throw std::string("ops");
    Type* et = t->getScalarType();
    if (it != bo.end()) {
      for (size_t i = 0; i < x.size(); i++) { Inst n = mk(I_BIN, dst + i, x[i], y[i], 0, bitsOf(et)); n.sub = it->second; emit(n); }
      return;
    }
    if (x.size() != 1) throw std::string("vector fp");
    Inst n = mk(I_FBIN, dst, x[0], y[0], 0, bitsOf(et));
    switch (b->getOpcode()) { case Instruction::FAdd: n.sub = 0; break; case Instruction::FSub: n.sub = 1; break; case Instruction::FMul: n.sub = 2; break; case Instruction::FDiv: n.sub = 3; break; default: throw std::string("fp op"); }
    emit(n); return;
  }
  switch (I.getOpcode()) {
    case Instruction::ICmp: {
      auto& ic = cast<ICmpInst>(I); bool sw, ng; int o = predOp(ic.getPredicate(), sw, ng);
      std::vector<int> x, y; if (!ops(ic.getOperand(0), x) || !ops(ic.getOperand(1), y)) throw std::string("ops");
      if (sw) std::swap(x, y);
      for (size_t i = 0; i < x.size(); i++) { Inst n = mk(I_CMP, dst + i, x[i], y[i], 0, bitsOf(ic.getOperand(0)->getType()->getScalarType())); n.sub = o; n.w2 = ng; emit(n); }
      return; }
    case Instruction::FCmp: { auto& fc = cast<FCmpInst>(I); Inst n = mk(I_FCMP, dst, op1(fc.getOperand(0)), op1(fc.getOperand(1)), 0, bitsOf(fc.getOperand(0)->getType())); n.sub = fc.getPredicate(); emit(n); return; }
    case Instruction::Select: {
      auto& s = cast<SelectInst>(I); std::vector<int> x, y, cc; if (!ops(s.getTrueValue(), x) || !ops(s.getFalseValue(), y) || !ops(s.getCondition(), cc)) throw std::string("ops");
      std::vector<FlatEl> fe; flatten(I.getType(), fe);
      if (cc.size() != 1 && cc.size() != x.size()) throw std::string("sel");
      for (size_t i = 0; i < x.size(); i++) emit(mk(I_SELECT, dst + i, cc.size() == 1 ? cc[0] : cc[i], x[i], y[i], bitsOf(fe[i].t)));
      return; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      std::vector<int> x; if (!ops(I.getOperand(0), x)) throw std::string("ops");
      for (size_t i = 0; i < x.size(); i++) {
        Inst n = mk(I.getOpcode() == Instruction::ZExt ? I_ZEXT : I.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC, dst + i, x[i], 0, 0, bitsOf(I.getType()->getScalarType()));
        n.w2 = bitsOf(I.getOperand(0)->getType()->getScalarType()); emit(n); }
      return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
      unsigned w1 = 0, w2 = 0; std::vector<int> x; if (!ops(I.getOperand(0), x)) throw std::string("ops");
      if (x.size() != 1 || nslots(I.getType()) != 1) throw std::string("vector cast");
      w1 = bitsOf(I.getOperand(0)->getType()); w2 = bitsOf(I.getType());
      if (w1 == w2) emit(mk(I_MOV, dst, x[0], 0, 0, w2));
      else { Inst n = mk(w2 > w1 ? I_ZEXT : I_TRUNC, dst, x[0], 0, 0, w2); n.w2 = w1; emit(n); }
      return; }
    case Instruction::Freeze: { std::vector<int> x; if (!ops(I.getOperand(0), x)) throw std::string("ops"); for (size_t i = 0; i < x.size(); i++) emit(mk(I_MOV, dst + i, x[i])); return; }
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FNeg: {
      Inst n = mk(I_FCVT, dst, op1(I.getOperand(0)), 0, 0, bitsOf(I.getType())); n.w2 = bitsOf(I.getOperand(0)->getType());
      switch (I.getOpcode()) { case Instruction::UIToFP: n.sub = 0; break; case Instruction::SIToFP: n.sub = 1; break; case Instruction::FPToUI: n.sub = 2; break; case Instruction::FPToSI: n.sub = 3; break; case Instruction::FPExt: n.sub = 4; break; case Instruction::FPTrunc: n.sub = 5; break; default: n.sub = 6; }
      emit(n); return; }
    case Instruction::Alloca: { auto& a = cast<AllocaInst>(I); Inst n = mk(I_ALLOCA, dst, op1(a.getArraySize()), 0, 0, bitsOf(a.getArraySize()->getType())); n.imm = DL->getTypeAllocSize(a.getAllocatedType()); emit(n); return; }
    case Instruction::Load: case Instruction::Store: {
      bool ld = I.getOpcode() == Instruction::Load;
      Type* t = ld ? I.getType() : I.getOperand(0)->getType(); const Value* p = ld ? cast<LoadInst>(I).getPointerOperand() : cast<StoreInst>(I).getPointerOperand();
      std::vector<FlatEl> fe; if (!flatten(t, fe)) throw std::string("mem type");
      std::vector<int> v; if (!ld && !ops(I.getOperand(0), v)) throw std::string("ops");
      int pp = op1(p);
      for (size_t i = 0; i < fe.size(); i++) { Inst n = mk(ld ? I_LOAD : I_STORE, ld ? dst + (int)i : -1, pp, ld ? 0 : v[i], 0, bitsOf(fe[i].t)); n.imm = fe[i].off; if (!ld && cast<StoreInst>(I).isAtomic()) n.sub = 1; emit(n); }
      return; }
    case Instruction::GetElementPtr: if (I.getType()->isVectorTy()) throw std::string("vec gep"); gep(cast<GEPOperator>(&I), dst); return;
    case Instruction::Br: {
      auto& b = cast<BranchInst>(I);
      if (b.isUnconditional()) { Inst n = mk(I_BR); n.x = edge(I.getParent(), b.getSuccessor(0)); emit(n); return; }
      Inst n = mk(I_CBR, -1, op1(b.getCondition())); n.b = edge(I.getParent(), b.getSuccessor(0)); n.c = edge(I.getParent(), b.getSuccessor(1)); emit(n); return; }
    case Instruction::Switch: {
      auto& s = cast<SwitchInst>(I); Inst n = mk(I_SWITCH, -1, op1(s.getCondition()), 0, 0, bitsOf(s.getCondition()->getType()));
      n.b = edge(I.getParent(), s.getDefaultDest()); std::vector<std::pair<uint64_t, int>> cs;
      for (auto& c : s.cases()) cs.push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())});
      n.x = D->switches.size(); D->switches.push_back(cs); emit(n); return; }
    case Instruction::Ret: {
      std::vector<int> o; if (I.getNumOperands() && !ops(I.getOperand(0), o)) throw std::string("ops");
      Inst n = mk(I_RET); n.imm = o.size(); n.x = D->geps.size(); std::vector<GepTerm> t; for (auto x : o) t.push_back({x, 0, 0}); D->geps.push_back(t); emit(n); return; }
    case Instruction::Unreachable: emit(mk(I_UNREACHABLE)); return;
    case Instruction::ExtractValue: {
      auto& e = cast<ExtractValueInst>(I); std::vector<int> o; if (!ops(e.getAggregateOperand(), o)) throw std::string("ops");
      int base = 0; Type* t = e.getAggregateOperand()->getType();
      for (unsigned ix : e.indices()) { for (unsigned k = 0; k < ix; k++) base += nslots(ExtractValueInst::getIndexedType(t, {k})); t = ExtractValueInst::getIndexedType(t, {ix}); }
      int n = nslots(t); for (int i = 0; i < n; i++) emit(mk(I_MOV, dst + i, o[base + i])); return; }
    case Instruction::InsertValue: {
      auto& e = cast<InsertValueInst>(I); std::vector<int> o, v; if (!ops(e.getAggregateOperand(), o) || !ops(e.getInsertedValueOperand(), v)) throw std::string("ops");
      int base = 0; Type* t = e.getAggregateOperand()->getType();
      for (unsigned ix : e.indices()) { for (unsigned k = 0; k < ix; k++) base += nslots(ExtractValueInst::getIndexedType(t, {k})); t = ExtractValueInst::getIndexedType(t, {ix}); }
      for (size_t i = 0; i < v.size(); i++) o[base + i] = v[i];
      for (size_t i = 0; i < o.size(); i++) emit(mk(I_MOV, dst + i, o[i])); return; }
    case Instruction::ExtractElement: {
      auto& e = cast<ExtractElementInst>(I); auto* ci = dyn_cast<ConstantInt>(e.getIndexOperand()); if (!ci) throw std::string("ee");
      std::vector<int> o; if (!ops(e.getVectorOperand(), o)) throw std::string("ops"); emit(mk(I_MOV, dst, o[ci->getZExtValue()])); return; }
    case Instruction::InsertElement: {
      auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) throw std::string("ie");
      std::vector<int> o; if (!ops(I.getOperand(0), o)) throw std::string("ops"); o[ci->getZExtValue()] = op1(I.getOperand(1));
      for (size_t i = 0; i < o.size(); i++) emit(mk(I_MOV, dst + i, o[i])); return; }
    case Instruction::ShuffleVector: {
      auto& sv = cast<ShuffleVectorInst>(I); std::vector<int> o, p; if (!ops(I.getOperand(0), o) || !ops(I.getOperand(1), p)) throw std::string("ops");
      o.insert(o.end(), p.begin(), p.end()); auto m = sv.getShuffleMask();
      for (size_t i = 0; i < m.size(); i++) emit(mk(I_MOV, dst + i, m[i] < 0 ? o[0] : o[m[i]])); return; }
    case Instruction::LandingPad: {
      auto& lp = cast<LandingPadInst>(I); LPad l; l.cleanup = lp.isCleanup(); l.filter = false;
      for (unsigned i = 0; i < lp.getNumClauses(); i++) { if (lp.isFilter(i)) { l.filter = true; continue; } uint64_t a = 0; constInt(lp.getClause(i), a); l.catches.push_back(a); }
      Inst n = mk(I_LPAD, dst); n.x = D->lpads.size(); D->lpads.push_back(l); emit(n); return; }
    case Instruction::Resume: { std::vector<int> o; if (!ops(I.getOperand(0), o)) throw std::string("ops"); emit(mk(I_RESUME, -1, o[0])); return; }
    case Instruction::AtomicRMW: {
      auto& a = cast<AtomicRMWInst>(I); Inst n = mk(I_RMW, dst, op1(a.getPointerOperand()), op1(a.getValOperand()), 0, bitsOf(I.getType()));
      switch (a.getOperation()) { case AtomicRMWInst::Add: n.sub = O_ADD; break; case AtomicRMWInst::Sub: n.sub = O_SUB; break; case AtomicRMWInst::And: n.sub = O_AND; break; case AtomicRMWInst::Or: n.sub = O_OR; break; case AtomicRMWInst::Xor: n.sub = O_XOR; break; case AtomicRMWInst::Xchg: n.sub = 255; break; default: throw std::string("rmw"); }
      emit(n); return; }
    case Instruction::AtomicCmpXchg: { auto& a = cast<AtomicCmpXchgInst>(I); emit(mk(I_CMPXCHG, dst, op1(a.getPointerOperand()), op1(a.getCompareOperand()), op1(a.getNewValOperand()), bitsOf(a.getCompareOperand()->getType()))); return; }
    case Instruction::Fence: return;
    case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
    default: throw std::string("opcode");
  }
}
void FDec::call(const CallBase& cb) {
  int dst = cb.getType()->isVoidTy() ? -1 : slot[&cb];
  if (auto* ii = dyn_cast<IntrinsicInst>(&cb)) {
    unsigned w = cb.getType()->isVoidTy() ? 0 : (cb.getType()->isStructTy() ? bitsOf(cb.getType()->getStructElementType(0)) : bitsOf(cb.getType()->getScalarType()));
    auto I2 = [&](int sub) { Inst n = mk(I_INTR, dst, op1(cb.getArgOperand(0)), cb.arg_size() > 1 ? op1(cb.getArgOperand(1)) : 0, cb.arg_size() > 2 ? op1(cb.getArgOperand(2)) : 0, w); n.sub = sub; n.w2 = cb.getArgOperand(0)->getType()->isPointerTy() ? 64 : bitsOf(cb.getArgOperand(0)->getType()); emit(n); };
    switch (ii->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::var_annotation: break;
      case Intrinsic::invariant_start: emit(mk(I_MOV, dst, poolVal({0, nullptr}))); break;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: emit(mk(I_MEMCPY, -1, op1(cb.getArgOperand(0)), op1(cb.getArgOperand(1)), op1(cb.getArgOperand(2)))); break;
      case Intrinsic::memset: emit(mk(I_MEMSET, -1, op1(cb.getArgOperand(0)), op1(cb.getArgOperand(1)), op1(cb.getArgOperand(2)))); break;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ptr_annotation: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: emit(mk(I_MOV, dst, op1(cb.getArgOperand(0)))); break;
      case Intrinsic::umax: I2(N_UMAX); break; case Intrinsic::umin: I2(N_UMIN); break; case Intrinsic::smax: I2(N_SMAX); break; case Intrinsic::smin: I2(N_SMIN); break;
      case Intrinsic::abs: I2(N_ABS); break; case Intrinsic::ctpop: I2(N_CTPOP); break; case Intrinsic::ctlz: I2(N_CTLZ); break; case Intrinsic::cttz: I2(N_CTTZ); break; case Intrinsic::bswap: I2(N_BSWAP); break;
      case Intrinsic::usub_sat: I2(N_USUBSAT); break; case Intrinsic::uadd_sat: I2(N_UADDSAT); break; case Intrinsic::fshl: I2(N_FSHL); break; case Intrinsic::fshr: I2(N_FSHR); break;
      case Intrinsic::uadd_with_overflow: I2(N_UADDO); break; case Intrinsic::usub_with_overflow: I2(N_USUBO); break; case Intrinsic::umul_with_overflow: I2(N_UMULO); break;
      case Intrinsic::sadd_with_overflow: I2(N_SADDO); break; case Intrinsic::ssub_with_overflow: I2(N_SSUBO); break; case Intrinsic::smul_with_overflow: I2(N_SMULO); break;
      case Intrinsic::is_constant: emit(mk(I_MOV, dst, poolVal({0, nullptr}))); break;
      case Intrinsic::objectsize: emit(mk(I_MOV, dst, poolVal({~0ull & maskw(w), nullptr}))); break;
      case Intrinsic::eh_typeid_for: { Inst n = mk(I_TYPEID, dst, op1(cb.getArgOperand(0))); emit(n); break; }
      case Intrinsic::stacksave: emit(mk(I_MOV, dst, poolVal({0, nullptr}))); break;
      case Intrinsic::stackrestore: break;
      case Intrinsic::trap: case Intrinsic::ubsantrap: unsup("trap"); break;
      default: throw std::string("intrinsic");
    }
    return;
  }
  CallInfo ci; ci.dst = dst;
  if (dst >= 0) { std::vector<FlatEl> fe; if (!flatten(cb.getType(), fe)) throw std::string("ret type"); ci.nret = fe.size(); for (auto& e : fe) ci.retW.push_back(bitsOf(e.t)); }
  if (isa<InlineAsm>(cb.getCalledOperand())) {
    if (cb.getType()->isVoidTy()) return;   // compiler barrier
    throw std::string("inline asm");
  }
  const Value* cv = cb.getCalledOperand()->stripPointerCasts();
  if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
  if (auto* f = dyn_cast<Function>(cv)) {
    ci.name = f->getName().str(); ci.direct = funcByName[ci.name];
    auto it = builtinTable().find(ci.name); if (it != builtinTable().end()) ci.builtin = it->second;
  } else ci.callee = op1(cv);
  for (unsigned i = 0; i < cb.arg_size(); i++) {
    if (cb.getArgOperand(i)->getType()->isMetadataTy()) continue;
    if (cb.isByValArgument(i)) ci.byval.push_back({(int)ci.args.size(), (uint32_t)DL->getTypeAllocSize(cb.getParamByValType(i)).getFixedValue()});
    if (!ops(cb.getArgOperand(i), ci.args)) throw std::string("call arg");
  }
  if (auto* iv = dyn_cast<InvokeInst>(&cb)) { ci.invoke = true; ci.normal = edge(cb.getParent(), iv->getNormalDest()); ci.unwind = edge(cb.getParent(), iv->getUnwindDest()); }
  Inst n = mk(I_CALL, dst); n.x = D->calls.size(); D->calls.push_back(ci); emit(n);
}

void decodeFunc(DFunc* d) {
  if (!d->llvmf) return;
  FDec f; f.F = (Function*)d->llvmf; f.D = d; d->llvmf = nullptr;
  try { f.run(); } catch (std::string& s) { d->code.clear(); f.unsup("function " + d->name + ": " + s); d->defined = true; }
}
std::string demangled(const std::string& n) { return demangle(n); }

void loadModule(const char* path, Memory& mem) {
  C = new LLVMContext; SMDiagnostic err;
  auto m = parseIRFile(path, err, *C);
  if (!m) { err.print("posym", errs()); exit(2); }
  M = m.release(); DL = &M->getDataLayout(); gmem = &mem;
  for (auto& f : *M) {
    if (f.isIntrinsic()) continue;
    DFunc* d = new DFunc; d->name = f.getName().str(); d->addr = mem.alloc(16, K_FUNC, false); d->llvmf = f.isDeclaration() ? nullptr : (void*)&f; d->defined = !f.isDeclaration();
    d->nounwind = f.doesNotThrow();
    auto it = builtinTable().find(d->name); if (it != builtinTable().end()) d->builtin = it->second;
    funcByName[d->name] = d; funcByAddr[d->addr] = d; gaddr[&f] = d->addr;
  }
  for (auto& g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
    if (g.isDeclaration()) { externGlobals.push_back(g.getName().str()); if (sz < 64) sz = 64; }
    gaddr[&g] = mem.alloc(sz, g.isDeclaration() ? K_OPAQUE : g.isConstant() ? K_CONST : K_GLOBAL, false);
    globalByName[g.getName().str()] = gaddr[&g]; std::string on = g.getName().str(); if (on.rfind("_Z", 0) == 0) { size_t dot = on.rfind('.'); if (dot != std::string::npos && on.find_first_not_of("0123456789", dot + 1) == std::string::npos) on.resize(dot); }   // split by the optimiser
    if (g.isThreadLocal() || ownNames.count(on)) ownGlobals.insert(addrId(gaddr[&g]));
  }
  for (auto& g : M->globals()) if (gaddr.count(&g) && g.hasInitializer()) writeConst(g.getInitializer(), mem.getW(addrId(gaddr[&g])), 0);
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* a = dyn_cast<ConstantArray>(g->getInitializer())) {
    std::vector<std::pair<uint64_t, DFunc*>> v;
    for (auto& o : a->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(s->getOperand(1))) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), funcByName[f->getName().str()]}); }
    std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
    for (auto& p : v) globalCtors.push_back(p.second);
  }
}
