// LLVM IR -> Inst arrays.
#include "lower.h"

#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"

using namespace llvm;
namespace sx {

static uint16_t scalarW(Type* t, const DataLayout& dl) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}

void Program::flatten(Type* t, uint64_t off, std::vector<Leaf>& out) {
  if (auto* s = dyn_cast<StructType>(t)) {
    auto* l = dl.getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + l->getElementOffset(i), out);
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t sz = dl.getTypeAllocSize(a->getElementType());
    for (uint64_t i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + i * sz, out);
  } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
    uint64_t sz = dl.getTypeStoreSize(v->getElementType());
    for (unsigned i = 0; i < v->getNumElements(); i++) flatten(v->getElementType(), off + i * sz, out);
  } else if (!t->isVoidTy()) {
    out.push_back({off, scalarW(t, dl)});
  }
}
const std::vector<Leaf>& Program::flat(Type* t) {
  auto it = flatCache_.find(t);
  if (it != flatCache_.end()) return it->second;
  std::vector<Leaf> out;
  flatten(t, 0, out);
  return flatCache_[t] = out;
}

int32_t Program::poolConst(uint64_t v) {
  auto it = poolIdx_.find(v);
  if (it != poolIdx_.end()) return it->second;
  pool.push_back(Val(v));
  return poolIdx_[v] = -(int32_t)pool.size();
}
int32_t Program::poolVal(const Val& v) {
  if (v.conc()) return poolConst(v.c);
  pool.push_back(v);
  return -(int32_t)pool.size();
}

int Program::funcOf(const Function* f) {
  auto it = funcIdx.find(f);
  if (it != funcIdx.end()) return it->second;
  int idx = funcs.size();
  auto fn = std::make_unique<Func>();
  fn->name = f->getName().str();
  fn->pretty = demangle(fn->name);
  fn->lf = f;
  fn->defined = !f->isDeclaration();
  if (auto* sp = f->getSubprogram()) {
    fn->file = sp->getFilename().str();
  }
  byName[fn->name] = idx;
  funcs.push_back(std::move(fn));
  return funcIdx[f] = idx;
}

static unsigned gUndef = 0;

Val Program::constVal(const Constant* c, unsigned lane) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue());
    return Val::sym(mkBig(ci->getValue()));
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() <= 64) return Val(b.getZExtValue());
    return Val::sym(mkBig(b));
  }
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (auto* gv = dyn_cast<GlobalAlias>(c)) return constVal(gv->getAliasee(), lane);
  if (auto* f = dyn_cast<Function>(c)) return Val(funcAddr(funcOf(f)));
  if (auto* g = dyn_cast<GlobalVariable>(c)) return Val(gaddr.at(g));
  if (isa<ConstantAggregateZero>(c)) {
    auto& fl = flat(t);
    if (fl[lane].w > 64) return Val::sym(mkBig(APInt(fl[lane].w, 0)));
    return Val(0);
  }
  if (isa<UndefValue>(c)) {
    if (t->isAggregateType() || t->isVectorTy()) return Val(0);
    unsigned w = scalarW(t, dl);
    return Val::sym(mkVar("undef" + std::to_string(gUndef++), w, 0, maskOf(w)));
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) return constVal(cd->getElementAsConstant(lane), 0);
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); i++) {
      unsigned n = flat(ca->getOperand(i)->getType()).size();
      if (lane < n) return constVal(ca->getOperand(i), lane);
      lane -= n;
    }
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto* gep = cast<GEPOperator>(ce);
        if (!gep->accumulateConstantOffset(dl, off)) break;
        Val b = constVal(cast<Constant>(gep->getPointerOperand()), 0);
        return Val(b.c + off.getZExtValue());
      }
      case Instruction::PtrToInt: {
        Val v = constVal(ce->getOperand(0), 0);
        return Val(v.c & maskOf(scalarW(t, dl)));
      }
      case Instruction::IntToPtr:
      case Instruction::BitCast:
      case Instruction::AddrSpaceCast:
        return constVal(ce->getOperand(0), 0);
      case Instruction::Trunc: return Val(constVal(ce->getOperand(0), 0).c & maskOf(scalarW(t, dl)));
      case Instruction::Sub: return Val((constVal(ce->getOperand(0), 0).c - constVal(ce->getOperand(1), 0).c) & maskOf(scalarW(t, dl)));
      case Instruction::Add: return Val((constVal(ce->getOperand(0), 0).c + constVal(ce->getOperand(1), 0).c) & maskOf(scalarW(t, dl)));
      default: break;
    }
  }
  fprintf(stderr, "sx: unsupported constant\n");
  c->print(errs()); errs() << "\n";
  return Val(0);
}

void Program::writeInit(uint64_t id, uint64_t off, const Constant* c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef s = cd->getRawDataValues();
    for (size_t i = 0; i < s.size(); i++) memStore(init, id, off + i, 1, Val((uint8_t)s[i]));
    return;
  }
  if (auto* s = dyn_cast<ConstantStruct>(c)) {
    auto* l = dl.getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) writeInit(id, off + l->getElementOffset(i), s->getOperand(i));
    return;
  }
  if (auto* a = dyn_cast<ConstantAggregate>(c)) {
    uint64_t sz = dl.getTypeAllocSize(a->getOperand(0)->getType());
    for (unsigned i = 0; i < a->getNumOperands(); i++) writeInit(id, off + i * sz, a->getOperand(i));
    return;
  }
  unsigned w = scalarW(c->getType(), dl);
  memStore(init, id, off, (w + 7) / 8, constVal(c, 0));
}

Program::Program(Module& m) : mod(m), dl(m.getDataLayout()) {
  for (auto& f : m) funcOf(&f);
  static std::string fvd = "vtable";
  uint64_t fv = init.alloc(1024, Kind::Global, true, &fvd);
  fakeVtable = (fv << ADDR_SHIFT) + 512;
  for (auto& g : m.globals()) {
    uint64_t sz = g.getValueType()->isSized() ? dl.getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
    if (g.isDeclaration() && sz < 1024) sz = 1024;
    uint64_t id = init.alloc(sz, g.isConstant() && !g.isDeclaration() ? Kind::ConstGlobal : Kind::Global, true, new std::string("global " + g.getName().str()));
    gaddr[&g] = id << ADDR_SHIFT;
    if (g.isDeclaration()) {
      // External objects such as std::cout: give them a vtable whose virtual-base offsets are 0.
      if (g.getName().starts_with("_ZSt")) memStore(init, id, 0, 8, Val(fakeVtable));
      if (g.getName().starts_with("_ZTV"))  memStore(init, id, 0, 8, Val(0));
    }
  }
  for (auto& g : m.globals())
    if (g.hasInitializer()) writeInit(gaddr[&g] >> ADDR_SHIFT, 0, g.getInitializer());
}

namespace {
struct Lower {
  Program& P;
  Func& F;
  const DataLayout& dl;
  DenseMap<const Value*, int32_t> base;
  DenseMap<const BasicBlock*, uint32_t> blockNo;
  std::vector<uint32_t> blockPc;
  uint32_t line = 0;

  Lower(Program& p, Func& f) : P(p), F(f), dl(p.dl) {}

  int32_t opnd(const Value* v, unsigned lane = 0) {
    if (auto* c = dyn_cast<Constant>(v)) return P.poolVal(P.constVal(c, lane));
    auto it = base.find(v);
    if (it == base.end()) return P.poolConst(0);  // metadata or token
    return it->second + lane;
  }
  uint16_t W(const Value* v, unsigned lane = 0) {
    auto& f = P.flat(v->getType());
    return lane < f.size() ? f[lane].w : 0;
  }
  Inst& emit(I op) {
    F.code.emplace_back();
    F.code.back().op = op;
    F.code.back().line = line;
    return F.code.back();
  }
  void trap(const std::string& s) {
    Inst& i = emit(I::Trap);
    i.aux = F.traps.size();
    F.traps.push_back(s);
  }
  uint32_t edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e;
    e.block = blockNo[to];
    for (auto& phi : to->phis()) {
      const Value* v = phi.getIncomingValueForBlock(from);
      unsigned n = P.flat(phi.getType()).size();
      for (unsigned l = 0; l < n; l++) {
        int32_t s = opnd(v, l), d = base[&phi] + l;
        if (s != d) e.copies.push_back({d, s});
      }
    }
    F.edges.push_back(e);
    return F.edges.size() - 1;
  }
  void run();
  void inst(const Instruction& in);
  void call(const CallBase& cb);
  bool intrinsic(const CallBase& cb, const Function* f);
};

void Lower::run() {
  const Function& lf = *F.lf;
  uint32_t n = 0;
  for (auto& a : lf.args()) { base[&a] = n; n += P.flat(a.getType()).size(); }
  F.nargs = n;
  uint32_t bn = 0;
  for (auto& bb : lf) {
    blockNo[&bb] = bn++;
    for (auto& in : bb) {
      unsigned k = P.flat(in.getType()).size();
      if (k) { base[&in] = n; n += k; }
    }
  }
  F.nregs = n;
  blockPc.resize(bn);
  for (auto& bb : lf) {
    blockPc[blockNo[&bb]] = F.code.size();
    for (auto& in : bb) {
      if (auto& d = in.getDebugLoc()) {
        line = d.getLine();
        for (const llvm::DILocation* l = d.get(); l && l->getInlinedAt(); l = l->getInlinedAt())
          if (auto* sp = l->getScope()->getSubprogram())
            if (sp->getFilename().contains("DPPIR/")) F.inlined.insert(demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()));
      }
      inst(in);
    }
  }
  for (auto& e : F.edges) e.pc = blockPc[e.block];
}

void Lower::inst(const Instruction& in) {
  int32_t d = base.count(&in) ? base[&in] : -1;
  unsigned lanes = P.flat(in.getType()).size();
  if (isa<PHINode>(in)) return;
  if (auto* bo = dyn_cast<BinaryOperator>(&in)) {
    static const std::map<unsigned, Op> im = {{Instruction::Add, Op::Add}, {Instruction::Sub, Op::Sub}, {Instruction::Mul, Op::Mul}, {Instruction::UDiv, Op::UDiv}, {Instruction::SDiv, Op::SDiv}, {Instruction::URem, Op::URem}, {Instruction::SRem, Op::SRem}, {Instruction::And, Op::And}, {Instruction::Or, Op::Or}, {Instruction::Xor, Op::Xor}, {Instruction::Shl, Op::Shl}, {Instruction::LShr, Op::LShr}, {Instruction::AShr, Op::AShr}};
    static const std::map<unsigned, Op> fm = {{Instruction::FAdd, Op::FAdd}, {Instruction::FSub, Op::FSub}, {Instruction::FMul, Op::FMul}, {Instruction::FDiv, Op::FDiv}};
    auto ii = im.find(bo->getOpcode());
    auto fi = fm.find(bo->getOpcode());
    if (ii == im.end() && fi == fm.end()) { trap("unsupported binary operator"); return; }
    for (unsigned l = 0; l < lanes; l++) {
      int32_t a = opnd(bo->getOperand(0), l), b = opnd(bo->getOperand(1), l);
      Inst& i = emit(ii != im.end() ? I::Bin : I::FBin);
      i.sub = (uint8_t)(ii != im.end() ? ii->second : fi->second);
      i.w = W(&in, l); i.dst = d + l; i.a = a; i.b = b;
    }
    return;
  }
  if (auto* uo = dyn_cast<UnaryOperator>(&in)) {
    for (unsigned l = 0; l < lanes; l++) {
      int32_t a = opnd(uo->getOperand(0), l);
      Inst& i = emit(I::Fp1);
      i.sub = (uint8_t)Op::FNeg; i.w = W(&in, l); i.w2 = i.w; i.dst = d + l; i.a = a;
    }
    return;
  }
  if (auto* c = dyn_cast<ICmpInst>(&in)) {
    static const std::map<unsigned, Pred> pm = {{CmpInst::ICMP_EQ, EQ}, {CmpInst::ICMP_NE, NE}, {CmpInst::ICMP_UGT, UGT}, {CmpInst::ICMP_UGE, UGE}, {CmpInst::ICMP_ULT, ULT}, {CmpInst::ICMP_ULE, ULE}, {CmpInst::ICMP_SGT, SGT}, {CmpInst::ICMP_SGE, SGE}, {CmpInst::ICMP_SLT, SLT}, {CmpInst::ICMP_SLE, SLE}};
    for (unsigned l = 0; l < lanes; l++) {
      int32_t a = opnd(c->getOperand(0), l), b = opnd(c->getOperand(1), l);
      Inst& i = emit(I::ICmp);
      i.sub = pm.at(c->getPredicate()); i.w = W(c->getOperand(0), l); i.dst = d + l; i.a = a; i.b = b;
    }
    return;
  }
  if (auto* c = dyn_cast<FCmpInst>(&in)) {
    for (unsigned l = 0; l < lanes; l++) {
      int32_t a = opnd(c->getOperand(0), l), b = opnd(c->getOperand(1), l);
      Inst& i = emit(I::FCmp);
      i.sub = c->getPredicate(); i.w = W(c->getOperand(0), l); i.dst = d + l; i.a = a; i.b = b;
    }
    return;
  }
  if (auto* c = dyn_cast<CastInst>(&in)) {
    unsigned op = c->getOpcode();
    const Value* s = c->getOperand(0);
    if (op == Instruction::BitCast && P.flat(s->getType()).size() != lanes) { trap("vector bitcast"); return; }
    for (unsigned l = 0; l < lanes; l++) {
      int32_t a = opnd(s, l);
      uint16_t w = W(&in, l), w2 = W(s, l);
      I o = I::Mov;
      uint8_t sub = 0;
      switch (op) {
        case Instruction::Trunc: o = I::Trunc; break;
        case Instruction::ZExt: o = I::ZExt; break;
        case Instruction::SExt: o = I::SExt; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: o = w < w2 ? I::Trunc : w > w2 ? I::ZExt : I::Mov; break;
        case Instruction::BitCast: case Instruction::AddrSpaceCast: o = I::Mov; break;
        case Instruction::UIToFP: o = I::Fp1; sub = (uint8_t)Op::UIToFP; break;
        case Instruction::SIToFP: o = I::Fp1; sub = (uint8_t)Op::SIToFP; break;
        case Instruction::FPToUI: o = I::Fp1; sub = (uint8_t)Op::FPToUI; break;
        case Instruction::FPToSI: o = I::Fp1; sub = (uint8_t)Op::FPToSI; break;
        case Instruction::FPExt: o = I::Fp1; sub = (uint8_t)Op::FPExt; break;
        case Instruction::FPTrunc: o = I::Fp1; sub = (uint8_t)Op::FPTrunc; break;
        default: trap("unsupported cast"); return;
      }
      if (o == I::Fp1 && (w > 64 || w2 > 64)) { trap("extended precision"); return; }
      Inst& i = emit(o);
      i.sub = sub; i.w = w; i.w2 = w2; i.dst = d + l; i.a = a;
    }
    return;
  }
  if (auto* s = dyn_cast<SelectInst>(&in)) {
    bool vc = s->getCondition()->getType()->isVectorTy();
    for (unsigned l = 0; l < lanes; l++) {
      int32_t c = opnd(s->getCondition(), vc ? l : 0), a = opnd(s->getTrueValue(), l), b = opnd(s->getFalseValue(), l);
      Inst& i = emit(I::Select);
      i.w = W(&in, l); i.dst = d + l; i.a = c; i.b = a; i.c = b;
    }
    return;
  }
  if (auto* g = dyn_cast<GetElementPtrInst>(&in)) {
    if (in.getType()->isVectorTy()) { trap("vector gep"); return; }
    GepInfo gi;
    gi.off = 0;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      const Value* ix = it.getOperand();
      if (StructType* st = it.getStructTypeOrNull()) {
        gi.off += dl.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
      } else {
        int64_t sz = dl.getTypeAllocSize(it.getIndexedType()).getFixedValue();
        if (auto* ci = dyn_cast<ConstantInt>(ix)) gi.off += sz * ci->getSExtValue();
        else { gi.idx.push_back({opnd(ix), sz}); gi.w.push_back(W(ix)); }
      }
    }
    int32_t p = opnd(g->getPointerOperand());
    Inst& i = emit(I::Gep);
    i.w = 64; i.dst = d; i.a = p; i.aux = F.geps.size();
    F.geps.push_back(gi);
    return;
  }
  if (auto* ld = dyn_cast<LoadInst>(&in)) {
    auto fl = P.flat(in.getType());
    int32_t p = opnd(ld->getPointerOperand());
    for (unsigned l = 0; l < fl.size(); l++) {
      Inst& i = emit(I::Load);
      i.w = fl[l].w; i.dst = d + l; i.a = p; i.aux = fl[l].off;
    }
    return;
  }
  if (auto* st = dyn_cast<StoreInst>(&in)) {
    auto fl = P.flat(st->getValueOperand()->getType());
    int32_t p = opnd(st->getPointerOperand());
    bool undef = isa<UndefValue>(st->getValueOperand());
    if (undef) return;
    for (unsigned l = 0; l < fl.size(); l++) {
      int32_t v = opnd(st->getValueOperand(), l);
      Inst& i = emit(I::Store);
      i.w = fl[l].w; i.a = p; i.b = v; i.aux = fl[l].off;
    }
    return;
  }
  if (auto* al = dyn_cast<AllocaInst>(&in)) {
    int32_t n = opnd(al->getArraySize());
    Inst& i = emit(I::Alloca);
    i.w = W(al->getArraySize()); i.dst = d; i.a = n;
    i.aux = dl.getTypeAllocSize(al->getAllocatedType()).getFixedValue();
    return;
  }
  if (auto* b = dyn_cast<BranchInst>(&in)) {
    if (b->isUnconditional()) {
      uint32_t e = edge(in.getParent(), b->getSuccessor(0));
      emit(I::Br).aux = e;
    } else {
      uint32_t e0 = edge(in.getParent(), b->getSuccessor(0)), e1 = edge(in.getParent(), b->getSuccessor(1));
      int32_t c = opnd(b->getCondition());
      Inst& i = emit(I::CondBr);
      i.a = c; i.b = e0; i.c = e1; i.w = 1;
    }
    return;
  }
  if (auto* s = dyn_cast<SwitchInst>(&in)) {
    SwitchInfo si;
    si.def = edge(in.getParent(), s->getDefaultDest());
    for (auto& c : s->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(in.getParent(), c.getCaseSuccessor())});
    int32_t c = opnd(s->getCondition());
    Inst& i = emit(I::Switch);
    i.a = c; i.w = W(s->getCondition()); i.aux = F.switches.size();
    F.switches.push_back(si);
    return;
  }
  if (auto* r = dyn_cast<ReturnInst>(&in)) {
    std::vector<int32_t> v;
    if (r->getReturnValue()) {
      unsigned n = P.flat(r->getReturnValue()->getType()).size();
      for (unsigned l = 0; l < n; l++) v.push_back(opnd(r->getReturnValue(), l));
    }
    emit(I::Ret).aux = F.rets.size();
    F.rets.push_back(v);
    return;
  }
  if (isa<UnreachableInst>(in)) { emit(I::Unreachable); return; }
  if (auto* ev = dyn_cast<ExtractValueInst>(&in)) {
    Type* t = ev->getAggregateOperand()->getType();
    unsigned lane = 0;
    for (unsigned ix : ev->indices()) {
      if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) lane += P.flat(s->getElementType(k)).size(); t = s->getElementType(ix); }
      else { auto* a = cast<ArrayType>(t); t = a->getElementType(); lane += ix * P.flat(t).size(); }
    }
    for (unsigned l = 0; l < lanes; l++) {
      int32_t a = opnd(ev->getAggregateOperand(), lane + l);
      Inst& i = emit(I::Mov);
      i.w = W(&in, l); i.dst = d + l; i.a = a;
    }
    return;
  }
  if (auto* iv = dyn_cast<InsertValueInst>(&in)) {
    Type* t = iv->getAggregateOperand()->getType();
    unsigned lane = 0;
    for (unsigned ix : iv->indices()) {
      if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) lane += P.flat(s->getElementType(k)).size(); t = s->getElementType(ix); }
      else { auto* a = cast<ArrayType>(t); t = a->getElementType(); lane += ix * P.flat(t).size(); }
    }
    unsigned n = P.flat(t).size();
    for (unsigned l = 0; l < lanes; l++) {
      int32_t a = l >= lane && l < lane + n ? opnd(iv->getInsertedValueOperand(), l - lane) : opnd(iv->getAggregateOperand(), l);
      Inst& i = emit(I::Mov);
      i.w = W(&in, l); i.dst = d + l; i.a = a;
    }
    return;
  }
  if (auto* ee = dyn_cast<ExtractElementInst>(&in)) {
    unsigned n = P.flat(ee->getVectorOperand()->getType()).size();
    if (auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) {
      int32_t a = opnd(ee->getVectorOperand(), std::min<uint64_t>(ci->getZExtValue(), n - 1));
      Inst& i = emit(I::Mov);
      i.w = W(&in); i.dst = d; i.a = a;
    } else trap("dynamic extractelement");
    return;
  }
  if (auto* ie = dyn_cast<InsertElementInst>(&in)) {
    auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2));
    if (!ci) { trap("dynamic insertelement"); return; }
    for (unsigned l = 0; l < lanes; l++) {
      int32_t a = l == ci->getZExtValue() ? opnd(ie->getOperand(1)) : opnd(ie->getOperand(0), l);
      Inst& i = emit(I::Mov);
      i.w = W(&in, l); i.dst = d + l; i.a = a;
    }
    return;
  }
  if (auto* sv = dyn_cast<ShuffleVectorInst>(&in)) {
    unsigned n = P.flat(sv->getOperand(0)->getType()).size();
    for (unsigned l = 0; l < lanes; l++) {
      int m = sv->getMaskValue(l);
      int32_t a = m < 0 ? P.poolConst(0) : m < (int)n ? opnd(sv->getOperand(0), m) : opnd(sv->getOperand(1), m - n);
      Inst& i = emit(I::Mov);
      i.w = W(&in, l); i.dst = d + l; i.a = a;
    }
    return;
  }
  if (auto* fz = dyn_cast<FreezeInst>(&in)) {
    for (unsigned l = 0; l < lanes; l++) {
      int32_t a = opnd(fz->getOperand(0), l);
      Inst& i = emit(I::Mov);
      i.w = W(&in, l); i.dst = d + l; i.a = a;
    }
    return;
  }
  if (auto* rmw = dyn_cast<AtomicRMWInst>(&in)) {
    int32_t p = opnd(rmw->getPointerOperand()), v = opnd(rmw->getValOperand());
    Inst& i = emit(I::AtomicRMW);
    i.sub = rmw->getOperation(); i.w = W(&in); i.dst = d; i.a = p; i.b = v;
    return;
  }
  if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&in)) {
    int32_t p = opnd(cx->getPointerOperand()), e = opnd(cx->getCompareOperand()), n = opnd(cx->getNewValOperand());
    Inst& i = emit(I::CmpXchg);
    i.w = W(cx->getCompareOperand()); i.dst = d; i.a = p; i.b = e; i.c = n;
    return;
  }
  if (isa<FenceInst>(in)) return;
  if (auto* cb = dyn_cast<CallBase>(&in)) { call(*cb); return; }
  if (isa<LandingPadInst>(in) || isa<ResumeInst>(in)) { trap("exception handling"); return; }
  trap(std::string("unsupported instruction ") + in.getOpcodeName());
}

bool Lower::intrinsic(const CallBase& cb, const Function* f) {
  int32_t d = base.count(&cb) ? base[&cb] : -1;
  unsigned lanes = P.flat(cb.getType()).size();
  auto simple = [&](Intr k, unsigned nargs) {
    for (unsigned l = 0; l < lanes; l++) {
      int32_t a = opnd(cb.getArgOperand(0), l), b = nargs > 1 ? opnd(cb.getArgOperand(1), P.flat(cb.getArgOperand(1)->getType()).size() == lanes ? l : 0) : 0, c = nargs > 2 ? opnd(cb.getArgOperand(2), l) : 0;
      Inst& i = emit(I::Intr);
      i.sub = (uint8_t)k; i.w = W(&cb, l); i.w2 = W(cb.getArgOperand(0), l); i.dst = d + l; i.a = a; i.b = b; i.c = c;
    }
  };
  auto fp1 = [&](Op o) {
    for (unsigned l = 0; l < lanes; l++) {
      int32_t a = opnd(cb.getArgOperand(0), l);
      Inst& i = emit(I::Fp1);
      i.sub = (uint8_t)o; i.w = W(&cb, l); i.w2 = i.w; i.dst = d + l; i.a = a;
    }
  };
  auto fp2 = [&](Op o) {
    for (unsigned l = 0; l < lanes; l++) {
      int32_t a = opnd(cb.getArgOperand(0), l), b = opnd(cb.getArgOperand(1), l);
      Inst& i = emit(I::FBin);
      i.sub = (uint8_t)o; i.w = W(&cb, l); i.dst = d + l; i.a = a; i.b = b;
    }
  };
  auto ovf = [&](Intr k) {
    int32_t a = opnd(cb.getArgOperand(0)), b = opnd(cb.getArgOperand(1));
    Inst& i = emit(I::Intr);
    i.sub = (uint8_t)k; i.w = W(cb.getArgOperand(0)); i.dst = d; i.a = a; i.b = b;
  };
  auto math = [&](const char* nm, unsigned n) {
    int32_t a = opnd(cb.getArgOperand(0)), b = n > 1 ? opnd(cb.getArgOperand(1)) : 0;
    Inst& i = emit(I::Intr);
    i.sub = (uint8_t)(n > 1 ? Intr::Math2 : Intr::Math1); i.w = W(&cb); i.dst = d; i.a = a; i.b = b; i.aux = F.traps.size();
    F.traps.push_back(nm);
  };
  switch (f->getIntrinsicID()) {
    case Intrinsic::umin: simple(Intr::UMin, 2); return true;
    case Intrinsic::umax: simple(Intr::UMax, 2); return true;
    case Intrinsic::smin: simple(Intr::SMin, 2); return true;
    case Intrinsic::smax: simple(Intr::SMax, 2); return true;
    case Intrinsic::abs: simple(Intr::Abs, 1); return true;
    case Intrinsic::ctpop: simple(Intr::Ctpop, 1); return true;
    case Intrinsic::ctlz: simple(Intr::Ctlz, 1); return true;
    case Intrinsic::cttz: simple(Intr::Cttz, 1); return true;
    case Intrinsic::bswap: simple(Intr::BSwap, 1); return true;
    case Intrinsic::fshl: simple(Intr::FShl, 3); return true;
    case Intrinsic::fshr: simple(Intr::FShr, 3); return true;
    case Intrinsic::usub_sat: simple(Intr::USubSat, 2); return true;
    case Intrinsic::uadd_sat: simple(Intr::UAddSat, 2); return true;
    case Intrinsic::uadd_with_overflow: ovf(Intr::UAddO); return true;
    case Intrinsic::usub_with_overflow: ovf(Intr::USubO); return true;
    case Intrinsic::umul_with_overflow: ovf(Intr::UMulO); return true;
    case Intrinsic::sadd_with_overflow: ovf(Intr::SAddO); return true;
    case Intrinsic::ssub_with_overflow: ovf(Intr::SSubO); return true;
    case Intrinsic::smul_with_overflow: ovf(Intr::SMulO); return true;
    case Intrinsic::floor: fp1(Op::FFloor); return true;
    case Intrinsic::ceil: fp1(Op::FCeil); return true;
    case Intrinsic::trunc: fp1(Op::FTrunc); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: fp1(Op::FRint); return true;
    case Intrinsic::fabs: fp1(Op::FAbs); return true;
    case Intrinsic::sqrt: fp1(Op::FSqrt); return true;
    case Intrinsic::minnum: fp2(Op::FMin); return true;
    case Intrinsic::maxnum: fp2(Op::FMax); return true;
    case Intrinsic::log: math("log", 1); return true;
    case Intrinsic::log2: math("log2", 1); return true;
    case Intrinsic::log10: math("log10", 1); return true;
    case Intrinsic::exp: math("exp", 1); return true;
    case Intrinsic::exp2: math("exp2", 1); return true;
    case Intrinsic::round: math("round", 1); return true;
    case Intrinsic::pow: math("pow", 2); return true;
    case Intrinsic::copysign: math("copysign", 2); return true;
    case Intrinsic::fmuladd: simple(Intr::FMulAdd, 3); return true;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: case Intrinsic::memset: {
      int32_t a = opnd(cb.getArgOperand(0)), b = opnd(cb.getArgOperand(1)), c = opnd(cb.getArgOperand(2));
      Inst& i = emit(I::Intr);
      auto id = f->getIntrinsicID();
      i.sub = (uint8_t)(id == Intrinsic::memset ? Intr::MemSet : id == Intrinsic::memmove ? Intr::MemMove : Intr::MemCpy);
      i.a = a; i.b = b; i.c = c; i.w = W(cb.getArgOperand(2));
      return true;
    }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptrmask: {
      for (unsigned l = 0; l < lanes; l++) { int32_t a = opnd(cb.getArgOperand(0), l); Inst& i = emit(I::Mov); i.w = W(&cb, l); i.dst = d + l; i.a = a; }
      return true;
    }
    case Intrinsic::objectsize: { Inst& i = emit(I::Mov); i.w = W(&cb); i.dst = d; i.a = P.poolConst(~0ull & maskOf(i.w)); return true; }
    case Intrinsic::is_constant: { Inst& i = emit(I::Mov); i.w = 1; i.dst = d; i.a = P.poolConst(0); return true; }
    case Intrinsic::stacksave: { Inst& i = emit(I::Mov); i.w = 64; i.dst = d; i.a = P.poolConst(0); return true; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing:
      return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: trap("llvm.trap"); return true;
    case Intrinsic::eh_typeid_for: trap("exception handling"); return true;
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
      Op o = f->getIntrinsicID() == Intrinsic::vector_reduce_add ? Op::Add : f->getIntrinsicID() == Intrinsic::vector_reduce_or ? Op::Or : f->getIntrinsicID() == Intrinsic::vector_reduce_and ? Op::And : f->getIntrinsicID() == Intrinsic::vector_reduce_xor ? Op::Xor : Op::Mul;
      unsigned n = P.flat(cb.getArgOperand(0)->getType()).size();
      int32_t acc = opnd(cb.getArgOperand(0), 0);
      for (unsigned l = 1; l < n; l++) { int32_t b = opnd(cb.getArgOperand(0), l); Inst& i = emit(I::Bin); i.sub = (uint8_t)o; i.w = W(&cb); i.dst = d; i.a = acc; i.b = b; acc = d; }
      return true;
    }
    default: break;
  }
  if (f->getName().starts_with("llvm.")) { trap("unsupported intrinsic " + f->getName().str()); return true; }
  return false;
}

void Lower::call(const CallBase& cb) {
  const Value* cv = cb.getCalledOperand()->stripPointerCasts();
  if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
  const Function* f = dyn_cast<Function>(cv);
  bool done = false;
  if (isa<InlineAsm>(cv)) done = true;  // compiler barriers only
  if (!done && f && f->isIntrinsic()) done = intrinsic(cb, f);
  if (done) {
    if (auto* iv = dyn_cast<InvokeInst>(&cb)) { uint32_t e = edge(cb.getParent(), iv->getNormalDest()); emit(I::Br).aux = e; }
    return;
  }
  CallInfo ci;
  if (f) ci.callee = P.funcOf(f); else ci.fp = opnd(cb.getCalledOperand());
  for (unsigned a = 0; a < cb.arg_size(); a++) {
    const Value* v = cb.getArgOperand(a);
    unsigned n = P.flat(v->getType()).size();
    for (unsigned l = 0; l < n; l++) {
      ci.args.push_back(opnd(v, l));
      ci.argw.push_back(W(v, l));
      ci.byval.push_back(cb.isByValArgument(a) ? dl.getTypeAllocSize(cb.getParamByValType(a)).getFixedValue() : 0);
    }
  }
  ci.nret = P.flat(cb.getType()).size();
  ci.dst = base.count(&cb) ? base[&cb] : -1;
  ci.retw = ci.nret ? W(&cb) : 0;
  if (auto* iv = dyn_cast<InvokeInst>(&cb)) ci.edge = edge(cb.getParent(), iv->getNormalDest());
  emit(I::Call).aux = F.calls.size();
  F.calls.push_back(ci);
}
}  // namespace

void Program::ensureLowered(Func& f) {
  if (f.lowered) return;
  f.lowered = true;
  if (!f.defined) return;
  Lower l(*this, f);
  l.run();
}
}  // namespace sx
