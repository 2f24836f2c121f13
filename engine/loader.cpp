// LLVM bitcode -> ir.h
#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <functional>
#include <set>
using namespace llvm;

namespace {
struct Loader {
  ::Module &m; llvm::Module &L; const DataLayout &DL;
  std::map<const Value *, int> gid, fid; std::map<std::string, u32> fileId, scopeId;
  std::map<const MDNode *, u32> tbId;
  Loader(::Module &mm, llvm::Module &l) : m(mm), L(l), DL(l.getDataLayout()) {}

  Ty type(Type *t) {
    Ty r;
    if (t->isVoidTy()) return r;
    if (t->isX86_MMXTy()) { r.k = TY_INT; r.bits = 64; r.lane = 64; r.mmx = true; r.bytes = 8; return r; }
    if (t->isIntegerTy()) { r.k = TY_INT; r.bits = r.lane = t->getIntegerBitWidth(); r.bytes = (r.bits + 7) / 8; return r; }
    if (t->isPointerTy()) { r.k = TY_PTR; r.bits = r.lane = DL.getPointerSizeInBits(); r.bytes = r.bits / 8; return r; }
    if (auto *v = dyn_cast<FixedVectorType>(t)) {
      if (v->getElementType()->isIntegerTy()) {
        r.k = TY_INT; r.vec = true; r.lane = v->getElementType()->getIntegerBitWidth();
        r.bits = r.lane * v->getNumElements(); r.bytes = (r.bits + 7) / 8; return r;
      }
      if (v->getElementType()->isFloatingPointTy()) { // bit pattern only
        r.k = TY_INT; r.vec = true; r.lane = v->getElementType()->getPrimitiveSizeInBits();
        r.bits = r.lane * v->getNumElements(); r.bytes = r.bits / 8; return r;
      }
    }
    if (auto *s = dyn_cast<StructType>(t)) {
      if (s->isOpaque()) { r.k = TY_OTHER; return r; }
      r.k = TY_AGG; auto *sl = DL.getStructLayout(s); r.bytes = sl->getSizeInBytes(); r.bits = r.bytes * 8;
      for (unsigned i = 0; i < s->getNumElements(); i++) { r.sub.push_back(type(s->getElementType(i))); r.off.push_back(sl->getElementOffset(i)); }
      return r;
    }
    if (auto *s = dyn_cast<ArrayType>(t)) {
      r.k = TY_AGG; u64 es = DL.getTypeAllocSize(s->getElementType()); r.bytes = es * s->getNumElements(); r.bits = r.bytes * 8;
      Ty e = type(s->getElementType());
      if (s->getNumElements() <= 4096) for (unsigned i = 0; i < s->getNumElements(); i++) { r.sub.push_back(e); r.off.push_back(es * i); }
      return r;
    }
    if (t->isFloatingPointTy()) { r.k = TY_FP; r.bits = r.lane = t->getPrimitiveSizeInBits(); r.bytes = r.bits / 8; return r; }
    r.k = TY_OTHER; return r;
  }

  static void setBits(std::vector<u64> &v, u32 pos, u32 n, const APInt &x) {
    for (u32 i = 0; i < n; i++) if (x[i]) v[(pos + i) / 64] |= 1ull << ((pos + i) % 64);
  }
  KVal konst(const Constant *c) {
    KVal r; Ty t = type(c->getType()); r.bits = t.bits;
    if (t.k == TY_AGG) {
      r.k = KVal::AGG;
      for (unsigned i = 0; i < t.sub.size(); i++) {
        Constant *e = const_cast<Constant *>(c)->getAggregateElement(i);
        if (!e) { r.k = KVal::UNSUP; r.why = "aggregate constant"; return r; }
        r.sub.push_back(konst(e));
      }
      return r;
    }
    if (t.k == TY_PTR) {
      if (isa<ConstantPointerNull>(c)) { r.k = KVal::NULLP; return r; }
      if (isa<UndefValue>(c)) { r.k = KVal::INT; r.v.assign((t.bits + 63) / 64, 0); r.undef.assign((t.bits + 63) / 64, ~0ull); return r; }
      APInt off(DL.getIndexTypeSizeInBits(c->getType()), 0);
      const Value *b = c->stripAndAccumulateConstantOffsets(DL, off, true);
      if (auto *a = dyn_cast<GlobalAlias>(b)) b = a->getAliaseeObject();
      if (gid.count(b)) { r.k = KVal::GLOBAL; r.id = gid[b]; r.off = off.getSExtValue(); return r; }
      if (fid.count(b)) { r.k = KVal::FUNC; r.id = fid[b]; r.off = off.getSExtValue(); return r; }
      r.k = KVal::UNSUP; r.why = "pointer constant expression"; return r;
    }
    if (t.k != TY_INT) { r.k = KVal::UNSUP; r.why = "constant type"; return r; }
    r.v.assign((t.bits + 63) / 64, 0);
    if (isa<UndefValue>(c)) { r.undef.assign(r.v.size(), ~0ull); return r; }
    if (auto *i = dyn_cast<ConstantInt>(c)) { setBits(r.v, 0, t.bits, i->getValue()); return r; }
    if (isa<ConstantAggregateZero>(c)) return r;
    if (t.vec) {
      for (u32 i = 0; i < t.bits / t.lane; i++) {
        const Constant *e = c->getAggregateElement(i);
        if (!e) { r.k = KVal::UNSUP; r.why = "vector constant"; return r; }
        if (isa<UndefValue>(e)) {
          if (r.undef.empty()) r.undef.assign(r.v.size(), 0);
          setBits(r.undef, i * t.lane, t.lane, APInt::getAllOnes(t.lane));
        } else if (auto *ci = dyn_cast<ConstantInt>(e)) setBits(r.v, i * t.lane, t.lane, ci->getValue());
        else if (auto *cf = dyn_cast<ConstantFP>(e)) setBits(r.v, i * t.lane, t.lane, cf->getValueAPF().bitcastToAPInt());
        else { r.k = KVal::UNSUP; r.why = "vector constant element"; return r; }
      }
      return r;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::BitCast) {
        KVal s = konst(ce->getOperand(0));
        if (s.k == KVal::INT && s.bits == t.bits) return s;
      }
    }
    r.k = KVal::UNSUP; r.why = "constant expression"; return r;
  }

  void initBytes(Global &g, const Constant *c, u64 off) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (isa<UndefValue>(c)) return;
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      u32 n = (ci->getBitWidth() + 7) / 8; APInt v = ci->getValue().zext(n * 8);
      for (u32 i = 0; i < n; i++) g.bytes[off + (m.big ? n - 1 - i : i)] = (u8)v.extractBitsAsZExtValue(8, i * 8);
      return;
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      APInt v = cf->getValueAPF().bitcastToAPInt(); u32 n = v.getBitWidth() / 8;
      for (u32 i = 0; i < n; i++) g.bytes[off + (m.big ? n - 1 - i : i)] = (u8)v.extractBitsAsZExtValue(8, i * 8);
      return;
    }
    if (t->isPointerTy()) {
      APInt o(DL.getIndexTypeSizeInBits(t), 0); const Value *b = c->stripAndAccumulateConstantOffsets(DL, o, true);
      if (gid.count(b)) g.rel.push_back({off, false, (u32)gid[b], o.getSExtValue()});
      else if (fid.count(b)) g.rel.push_back({off, true, (u32)fid[b], o.getSExtValue()});
      return;
    }
    if (auto *s = dyn_cast<StructType>(t)) {
      auto *sl = DL.getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); i++) if (auto *e = c->getAggregateElement(i)) initBytes(g, e, off + sl->getElementOffset(i));
      return;
    }
    u64 es = 0, n = 0;
    if (auto *a = dyn_cast<ArrayType>(t)) { es = DL.getTypeAllocSize(a->getElementType()); n = a->getNumElements(); }
    else if (auto *v = dyn_cast<FixedVectorType>(t)) { es = DL.getTypeAllocSize(v->getElementType()); n = v->getNumElements(); }
    for (u64 i = 0; i < n; i++) if (auto *e = c->getAggregateElement((unsigned)i)) initBytes(g, e, off + es * i);
  }

  static std::string locOf(const Instruction *i) {
    if (auto &d = i->getDebugLoc()) {
      std::string s = d->getFilename().str(); auto p = s.rfind('/'); if (p != std::string::npos) s = s.substr(p + 1);
      return s + ":" + std::to_string(d.getLine());
    }
    return i->getFunction()->getName().str();
  }
  // may some instruction write through this address, or does it escape?
  void scanUses(Global &g, const Value *v, std::set<const Value *> &seen) {
    if (!seen.insert(v).second) return;
    for (const User *u : v->users()) {
      if (isa<LoadInst>(u) || isa<ICmpInst>(u)) continue;
      if (isa<GEPOperator>(u) || isa<BitCastOperator>(u) || isa<AddrSpaceCastOperator>(u) || isa<PHINode>(u) || isa<SelectInst>(u) || isa<FreezeInst>(u)) { scanUses(g, u, seen); continue; }
      if (auto *mt = dyn_cast<MemTransferInst>(u)) { if (mt->getRawDest() != v) continue; }
      if (isa<DbgInfoIntrinsic>(u)) continue;
      if (auto *cb = dyn_cast<CallBase>(u)) {
        bool ok = true;
        for (unsigned i = 0; i < cb->arg_size(); i++)
          if (cb->getArgOperand(i) == v && !(cb->onlyReadsMemory(i) && cb->doesNotCapture(i))) ok = false;
        if (auto *cf = cb->getCalledFunction()) if (cf->getName() == "__assert_fail") ok = true;
        if (ok && cb->getCalledOperand() != v) continue;
        if (!ok) if (auto *cf = cb->getCalledFunction()) if (!cf->isDeclaration()) {
          for (unsigned i = 0; i < cb->arg_size() && i < cf->arg_size(); i++) if (cb->getArgOperand(i) == v) scanUses(g, cf->getArg(i), seen);
          continue;
        }
        if (auto *cf = cb->getCalledFunction()) if (cf->getName().contains("gather")) continue;
      }
      if (isa<Constant>(u) && !isa<GlobalValue>(u) && !isa<ConstantExpr>(u)) { g.written = true; g.writer = "address stored in a constant"; continue; }
      g.written = true;
      if (auto *i = dyn_cast<Instruction>(u)) if (g.writer.empty()) g.writer = i->getFunction()->getName().str() + " at " + locOf(i);
    }
  }

  u32 tbaa(const MDNode *tag) {
    if (!tag || tag->getNumOperands() < 3) return 0;
    auto *acc = dyn_cast_or_null<MDNode>(tag->getOperand(1).get());
    return tbNode(acc);
  }
  u32 tbNode(const MDNode *n) {
    if (!n) return 0;
    auto it = tbId.find(n); if (it != tbId.end()) return it->second;
    std::string name; if (n->getNumOperands() > 0) if (auto *s = dyn_cast_or_null<MDString>(n->getOperand(0).get())) name = s->getString().str();
    if (name == "omnipotent char" || name.empty() || n->getNumOperands() < 2) return tbId[n] = 0;
    u32 parent = tbNode(dyn_cast_or_null<MDNode>(n->getOperand(1).get()));
    u32 id = m.tbaaName.size(); m.tbaaName.push_back(name);
    std::vector<u32> anc = {id}; if (parent) for (u32 x : m.tbaaAnc[parent]) anc.push_back(x);
    m.tbaaAnc.push_back(anc);
    // same type in another unit
    for (u32 i = 1; i < id; i++) if (m.tbaaName[i] == name && !name.empty()) return tbId[n] = i;
    return tbId[n] = id;
  }

  void run() {
    m.ptrbits = DL.getPointerSizeInBits(); m.big = DL.isBigEndian(); m.triple = L.getTargetTriple();
    m.tbaaName.push_back("char"); m.tbaaAnc.push_back({0});
    for (auto &g : L.globals()) {
      gid[&g] = m.g.size(); ::Global G; G.name = g.getName().str(); G.size = g.getValueType()->isSized() ? (u64)DL.getTypeAllocSize(g.getValueType()) : 0;
      G.align = g.getAlign() ? g.getAlign()->value() : 1; G.constant = g.isConstant(); G.tls = g.isThreadLocal(); G.defined = !g.isDeclaration();
      m.gidx[G.name] = m.g.size(); m.g.push_back(G);
    }
    for (auto &f : L) { fid[&f] = m.f.size(); m.f.emplace_back(); m.f.back().name = f.getName().str(); m.fidx[f.getName().str()] = fid[&f]; }
    for (auto &g : L.globals()) {
      auto &G = m.g[gid[&g]]; G.bytes.assign(G.size, 0);
      if (g.hasInitializer()) initBytes(G, g.getInitializer(), 0);
      if (!G.constant) { std::set<const Value *> seen; scanUses(G, &g, seen); }
    }
    for (auto &f : L) func(f);
  }

  void func(Function &f) {
    auto &F = m.f[fid[&f]]; F.defined = !f.isDeclaration(); F.external = f.hasExternalLinkage(); F.nparam = f.arg_size(); F.ret = type(f.getReturnType());
    for (auto &a : f.args()) F.pty.push_back(type(a.getType()));
    { raw_string_ostream os(F.proto); f.getFunctionType()->print(os); }
    if (f.isDeclaration()) return;
    if (auto *sp = f.getSubprogram()) { F.srcfile = sp->getFilename().str(); F.line = sp->getLine(); }
    std::map<const Value *, int> reg; std::map<const BasicBlock *, u32> bid; int nr = 0;
    for (auto &a : f.args()) reg[&a] = nr++;
    for (auto &b : f) { bid[&b] = bid.size() - (bid.count(&b) ? 1 : 0); }
    { u32 n = 0; for (auto &b : f) bid[&b] = n++; }
    for (auto &b : f) for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = nr++;
    F.nreg = nr; F.b.resize(bid.size());
    std::map<const Constant *, int> kc;
    auto opnd = [&](const Value *v) -> int {
      auto it = reg.find(v); if (it != reg.end()) return it->second;
      if (auto *c = dyn_cast<Constant>(v)) {
        auto k = kc.find(c); if (k != kc.end()) return k->second;
        m.k.push_back(konst(c)); return kc[c] = ~(int)(m.k.size() - 1);
      }
      KVal kv; kv.k = KVal::UNSUP; kv.why = "operand"; m.k.push_back(kv); return ~(int)(m.k.size() - 1);
    };
    for (auto &b : f) {
      auto &B = F.b[bid[&b]];
      for (auto *s : successors(&b)) B.succ.push_back(bid[s]);
      for (auto *s : predecessors(&b)) B.pred.push_back(bid[s]);
      for (auto &i : b) {
        if (isa<DbgInfoIntrinsic>(i)) continue;
        Instr I; m.ninstr++;
        if (!i.getType()->isVoidTy()) { I.dst = reg[&i]; I.ty = type(i.getType()); }
        if (auto &d = i.getDebugLoc()) {
          std::string fn = d->getFilename().str(); auto it = fileId.find(fn);
          if (it == fileId.end()) { it = fileId.emplace(fn, m.files.size()).first; m.files.push_back(fn); }
          I.file = it->second + 1; I.line = d.getLine(); I.col = d.getCol();
        }
        for (auto *u : i.users()) { auto *ui = dyn_cast<Instruction>(u); if (!ui || ui->getParent() != &b || isa<PHINode>(ui)) I.escapes = true; }
        if (isa<PHINode>(i)) I.escapes = true;
        if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
          switch (bo->getOpcode()) {
          case Instruction::Add: I.op = I_ADD; break; case Instruction::Sub: I.op = I_SUB; break; case Instruction::Mul: I.op = I_MUL; break;
          case Instruction::UDiv: I.op = I_UDIV; break; case Instruction::SDiv: I.op = I_SDIV; break; case Instruction::URem: I.op = I_UREM; break;
          case Instruction::SRem: I.op = I_SREM; break; case Instruction::Shl: I.op = I_SHL; break; case Instruction::LShr: I.op = I_LSHR; break;
          case Instruction::AShr: I.op = I_ASHR; break; case Instruction::And: I.op = I_AND; break; case Instruction::Or: I.op = I_OR; break;
          case Instruction::Xor: I.op = I_XOR; break; default: I.op = I_UNSUP; I.name = bo->getOpcodeName();
          }
          if (auto *ob = dyn_cast<OverflowingBinaryOperator>(bo)) { I.nsw = ob->hasNoSignedWrap(); I.nuw = ob->hasNoUnsignedWrap(); }
          I.a = {opnd(bo->getOperand(0)), opnd(bo->getOperand(1))};
        } else if (auto *c = dyn_cast<ICmpInst>(&i)) {
          I.op = I_ICMP; I.a = {opnd(c->getOperand(0)), opnd(c->getOperand(1))}; I.argty = type(c->getOperand(0)->getType());
          switch (c->getPredicate()) {
          case CmpInst::ICMP_EQ: I.pred = P_EQ; break; case CmpInst::ICMP_NE: I.pred = P_NE; break; case CmpInst::ICMP_UGT: I.pred = P_UGT; break;
          case CmpInst::ICMP_UGE: I.pred = P_UGE; break; case CmpInst::ICMP_ULT: I.pred = P_ULT; break; case CmpInst::ICMP_ULE: I.pred = P_ULE; break;
          case CmpInst::ICMP_SGT: I.pred = P_SGT; break; case CmpInst::ICMP_SGE: I.pred = P_SGE; break; case CmpInst::ICMP_SLT: I.pred = P_SLT; break;
          default: I.pred = P_SLE;
          }
        } else if (auto *s = dyn_cast<SelectInst>(&i)) { I.op = I_SELECT; I.a = {opnd(s->getCondition()), opnd(s->getTrueValue()), opnd(s->getFalseValue())}; I.argty = type(s->getCondition()->getType()); }
        else if (auto *c = dyn_cast<CastInst>(&i)) {
          I.a = {opnd(c->getOperand(0))}; I.argty = type(c->getOperand(0)->getType());
          switch (c->getOpcode()) {
          case Instruction::ZExt: I.op = I_ZEXT; break; case Instruction::SExt: I.op = I_SEXT; break; case Instruction::Trunc: I.op = I_TRUNC; break;
          case Instruction::BitCast: I.op = I_BITCAST; break; case Instruction::PtrToInt: I.op = I_PTRTOINT; break; case Instruction::IntToPtr: I.op = I_INTTOPTR; break;
          case Instruction::AddrSpaceCast: I.op = I_BITCAST; break; default: I.op = I_UNSUP; I.name = c->getOpcodeName();
          }
        } else if (isa<FreezeInst>(i)) { I.op = I_FREEZE; I.a = {opnd(i.getOperand(0))}; I.argty = type(i.getOperand(0)->getType()); }
        else if (auto *l = dyn_cast<LoadInst>(&i)) { I.op = I_LOAD; I.a = {opnd(l->getPointerOperand())}; I.align = l->getAlign().value(); I.tbaa = tbaa(l->getMetadata(LLVMContext::MD_tbaa)); }
        else if (auto *s = dyn_cast<StoreInst>(&i)) { I.op = I_STORE; I.a = {opnd(s->getValueOperand()), opnd(s->getPointerOperand())}; I.ty = type(s->getValueOperand()->getType()); I.align = s->getAlign().value(); I.tbaa = tbaa(s->getMetadata(LLVMContext::MD_tbaa)); }
        else if (auto *al = dyn_cast<AllocaInst>(&i)) { I.op = I_ALLOCA; I.off = DL.getTypeAllocSize(al->getAllocatedType()); I.align = al->getAlign().value(); I.a = {opnd(al->getArraySize())}; I.name = al->getName().str(); }
        else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
          I.op = I_GEP; I.inbounds = g->isInBounds(); MapVector<Value *, APInt> var; unsigned w = DL.getIndexTypeSizeInBits(g->getType()); APInt co(w, 0);
          if (!isa<VectorType>(g->getType()) && cast<GEPOperator>(g)->collectOffset(DL, w, var, co)) {
            I.off = co.getSExtValue(); I.a = {opnd(g->getPointerOperand())};
            for (auto &p : var) { I.a.push_back(opnd(p.first)); I.imm.push_back((u64)p.second.getSExtValue()); I.imm.push_back(p.first->getType()->getIntegerBitWidth()); }
          } else { I.op = I_UNSUP; I.name = "gep"; }
        } else if (auto *p = dyn_cast<PHINode>(&i)) {
          I.op = I_PHI; B.nphi++;
          for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { I.a.push_back(opnd(p->getIncomingValue(k))); I.blk.push_back(bid[p->getIncomingBlock(k)]); }
        } else if (auto *br = dyn_cast<BranchInst>(&i)) {
          if (br->isUnconditional()) { I.op = I_BR; I.blk = {bid[br->getSuccessor(0)]}; }
          else { I.op = I_CBR; I.a = {opnd(br->getCondition())}; I.blk = {bid[br->getSuccessor(0)], bid[br->getSuccessor(1)]}; }
        } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
          I.op = I_SWITCH; I.a = {opnd(sw->getCondition())}; I.argty = type(sw->getCondition()->getType()); I.blk = {bid[sw->getDefaultDest()]};
          for (auto &c : sw->cases()) { I.imm.push_back(c.getCaseValue()->getZExtValue()); I.blk.push_back(bid[c.getCaseSuccessor()]); }
        } else if (auto *r = dyn_cast<ReturnInst>(&i)) { I.op = I_RET; if (r->getReturnValue()) I.a = {opnd(r->getReturnValue())}; }
        else if (isa<UnreachableInst>(i)) I.op = I_UNREACHABLE;
        else if (auto *e = dyn_cast<ExtractElementInst>(&i)) { I.op = I_EXTRELT; I.a = {opnd(e->getVectorOperand()), opnd(e->getIndexOperand())}; I.argty = type(e->getVectorOperand()->getType()); }
        else if (auto *e = dyn_cast<InsertElementInst>(&i)) { I.op = I_INSELT; I.a = {opnd(e->getOperand(0)), opnd(e->getOperand(1)), opnd(e->getOperand(2))}; }
        else if (auto *e = dyn_cast<ShuffleVectorInst>(&i)) { I.op = I_SHUF; I.a = {opnd(e->getOperand(0)), opnd(e->getOperand(1))}; for (int x : e->getShuffleMask()) I.imm.push_back((u64)(i64)x); I.argty = type(e->getOperand(0)->getType()); }
        else if (auto *e = dyn_cast<ExtractValueInst>(&i)) { I.op = I_EXTVAL; I.a = {opnd(e->getAggregateOperand())}; for (unsigned x : e->indices()) I.imm.push_back(x); I.argty = type(e->getAggregateOperand()->getType()); }
        else if (auto *e = dyn_cast<InsertValueInst>(&i)) { I.op = I_INSVAL; I.a = {opnd(e->getAggregateOperand()), opnd(e->getInsertedValueOperand())}; for (unsigned x : e->indices()) I.imm.push_back(x); }
        else if (auto *cb = dyn_cast<CallInst>(&i)) {
          I.op = I_CALL;
          for (auto &a : cb->args()) { I.a.push_back(a->getType()->isMetadataTy() ? ~0 : opnd(a)); }
          for (unsigned k = 0; k < cb->arg_size(); k++) I.argalign.push_back(cb->getParamAlign(k) ? cb->getParamAlign(k)->value() : 1);
          for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->isByValArgument(k)) { I.op = I_UNSUP; I.name = "byval argument"; }
          if (cb->isInlineAsm()) { I.op = I_UNSUP; I.name = "inline assembly"; }
          else if (auto *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) {
            if (cf->isDeclaration()) I.name = cf->getName().str(); else I.callee = fid[cf];
            I.tbaa = 0;
          } else { I.callee = -2; I.a.push_back(opnd(cb->getCalledOperand())); }
          if (cb->arg_size()) I.argty = type(cb->getArgOperand(0)->getType());
        } else { I.op = I_UNSUP; I.name = i.getOpcodeName(); }
        B.ins.push_back(std::move(I));
      }
    }
    // blocks that can reach a return, and immediate post-dominators over them
    size_t n = F.b.size(); std::vector<u32> work;
    std::vector<u32> rets;
    for (u32 b = 0; b < n; b++) if (!F.b[b].ins.empty() && F.b[b].ins.back().op == I_RET) { F.b[b].reachesRet = true; work.push_back(b); rets.push_back(b); }
    while (!work.empty()) { u32 b = work.back(); work.pop_back(); for (u32 p : F.b[b].pred) if (!F.b[p].reachesRet) { F.b[p].reachesRet = true; work.push_back(p); } }
    // iterative dataflow on sets (functions are small)
    std::vector<std::vector<bool>> pd(n, std::vector<bool>(n, true));
    for (u32 b : rets) { pd[b].assign(n, false); pd[b][b] = true; }
    bool ch = true;
    while (ch) {
      ch = false;
      for (u32 b = n; b-- > 0;) {
        if (!F.b[b].reachesRet || F.b[b].ins.back().op == I_RET) continue;
        std::vector<bool> s(n, true); bool any = false;
        for (u32 x : F.b[b].succ) if (F.b[x].reachesRet) { any = true; for (u32 k = 0; k < n; k++) s[k] = s[k] && pd[x][k]; }
        if (!any) continue; s[b] = true;
        if (s != pd[b]) { pd[b] = s; ch = true; }
      }
    }
    auto cnt = [&](u32 b) { u32 c = 0; for (u32 k = 0; k < n; k++) c += pd[b][k]; return c; };
    for (u32 b = 0; b < n; b++) if (F.b[b].reachesRet) {
      u32 cb = cnt(b);
      for (u32 k = 0; k < n; k++) if (k != b && pd[b][k] && F.b[k].reachesRet && cnt(k) + 1 == cb) { F.b[b].ipdom = k; break; }
    }
  }
};
} // namespace

bool loadModule(const std::string &path, ::Module &m, std::string &err) {
  static LLVMContext ctx; SMDiagnostic d; auto mod = parseIRFile(path, d, ctx);
  if (!mod) { err = d.getMessage().str(); return false; }
  Loader l(m, *mod); l.run(); return true;
}
