// Width analysis of the single-packet length parameter.
//
// Everything reachable from an entry point is inlined into it; every SSA value derived from the length gets the interval of
// mathematical integers it stands for (refined by LLVM's lazy value information where a dominating test bounds it).
// Reported: operations that lose or reinterpret such a value although the interval does not fit - a narrowing whose upper
// bits are used, a signed comparison / extension / division / shift of a value that reaches the sign bit, a product or
// left shift beyond the width, a loop counter too narrow for a bound derived from the length.
#include "lens.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/LazyValueInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/ScalarEvolutionExpressions.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/DemandedBits.h>
#include <llvm/Analysis/CallGraph.h>
#include <map>
#include <set>
using namespace llvm;
typedef __int128 Z;
static Z pw(unsigned n) { return (Z)1 << n; }

namespace {
struct Iv { bool derived = false; Z lo = 0, hi = 0; };
struct Lens {
  Function &F; LazyValueInfo &LVI; ScalarEvolution &SE; LoopInfo &LI; DemandedBits &DB; LensResult &R; std::string api;
  std::map<Value *, Iv> memo; std::set<Value *> busy; std::set<Value *> params;
  Lens(Function &f, LazyValueInfo &l, ScalarEvolution &s, LoopInfo &li, DemandedBits &d, LensResult &r) : F(f), LVI(l), SE(s), LI(li), DB(d), R(r), api(f.getName().str()) {}
  std::string where(Instruction *i) {
    std::string s = api; if (DebugLoc d = i->getDebugLoc()) { DILocation *L = d.get(); std::string f = L->getFilename().str(); auto p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); std::string fn = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : api; s = f + ":" + std::to_string(L->getLine()) + " (" + fn + ")"; } return s;
  }
  void report(Instruction *i, const std::string &rule, const std::string &text, Z hi) { std::string w = where(i); for (auto &x : R.found) if (x.where == w && x.rule == rule) return; R.found.push_back({rule, w, text, api, hi > pw(32) - 1 ? (unsigned long long)(pw(32) - 1) : (unsigned long long)hi}); }
  Iv top() { return Iv(); }
  Iv at(Value *v, Instruction *use) {            // interval of v at a use
    Iv r = get(v); if (!r.derived || isa<Constant>(v)) return r;
    if (r.lo >= 0 && r.hi < pw(v->getType()->getScalarSizeInBits())) {
      ConstantRange c = LVI.getConstantRange(v, use, true);
      if (c.isEmptySet()) { r.derived = false; return r; }
      Z u = (Z)c.getUnsignedMax().getZExtValue(), l = (Z)c.getUnsignedMin().getZExtValue(); if (u < r.hi) r.hi = u; if (l > r.lo) r.lo = l;
      if (r.lo > r.hi) r.derived = false;
    }
    return r;
  }
  Iv get(Value *v) {
    if (auto *c = dyn_cast<ConstantInt>(v)) { Iv r; if (c->getBitWidth() > 64) return r; r.lo = r.hi = (Z)c->getZExtValue(); return r; }
    auto it = memo.find(v); if (it != memo.end()) return it->second;
    if (busy.count(v)) return top();
    busy.insert(v); Iv r = compute(v); busy.erase(v); memo[v] = r; return r;
  }
  Iv compute(Value *v) {
    if (!v->getType()->isIntegerTy() || v->getType()->getIntegerBitWidth() > 64) return top();
    unsigned w = v->getType()->getIntegerBitWidth(); Iv r;
    if (params.count(v)) { r.derived = true; r.lo = 0; r.hi = pw(w) - 1; return r; }
    auto *I = dyn_cast<Instruction>(v); if (!I) return top();
    auto konst = [&](Value *x, Z &k) { auto *c = dyn_cast<ConstantInt>(x); if (!c || c->getBitWidth() > 64) return false; k = (Z)c->getSExtValue(); return true; };
    Z k;
    switch (I->getOpcode()) {
    case Instruction::Add: { Value *a = I->getOperand(0), *b = I->getOperand(1); if (isa<ConstantInt>(a)) std::swap(a, b); r = get(a); if (konst(b, k)) { r.lo += k; r.hi += k; return r; } Iv s = get(b); if (r.derived && s.derived) { return top(); } return top(); }
    case Instruction::Sub: { r = get(I->getOperand(0)); if (konst(I->getOperand(1), k)) { r.lo -= k; r.hi -= k; return r; } Iv s = get(I->getOperand(1)); if (r.derived && s.derived) { // len - (len & c): still a part of len
        r.lo = 0; return r; } return top(); }
    case Instruction::LShr: r = get(I->getOperand(0)); if (r.derived && konst(I->getOperand(1), k) && k >= 0 && k < w && r.lo >= 0 && r.hi < pw(w)) { r.lo >>= (int)k; r.hi >>= (int)k; return r; } return top();
    case Instruction::UDiv: r = get(I->getOperand(0)); if (r.derived && konst(I->getOperand(1), k) && k > 0 && r.lo >= 0 && r.hi < pw(w)) { r.lo /= k; r.hi /= k; return r; } return top();
    case Instruction::AShr: case Instruction::SDiv: r = get(I->getOperand(0)); if (r.derived && konst(I->getOperand(1), k) && r.lo >= 0 && r.hi < pw(w - 1) && k > 0) { if (I->getOpcode() == Instruction::AShr) { r.lo >>= (int)k; r.hi >>= (int)k; } else { r.lo /= k; r.hi /= k; } return r; } return top();
    case Instruction::Mul: case Instruction::Shl: r = get(I->getOperand(0)); if (r.derived && konst(I->getOperand(1), k) && k >= 0 && r.lo >= 0) { Z f = I->getOpcode() == Instruction::Shl ? (k < w ? pw((unsigned)k) : 0) : k; r.lo *= f; r.hi *= f; if (r.hi >= pw(w)) return top(); return r; } return top();
    case Instruction::And: { Value *a = I->getOperand(0), *b = I->getOperand(1); if (isa<ConstantInt>(a)) std::swap(a, b); r = get(a); if (!r.derived || r.lo < 0) return top(); auto *c = dyn_cast<ConstantInt>(b); if (!c) return top(); Z m = (Z)c->getZExtValue(); if (m < r.hi) r.hi = m; r.lo = 0; return r; }
    case Instruction::URem: r = get(I->getOperand(0)); if (r.derived && konst(I->getOperand(1), k) && k > 0 && r.lo >= 0) { if (k - 1 < r.hi) r.hi = k - 1; r.lo = 0; return r; } return top();
    case Instruction::ZExt: r = get(I->getOperand(0)); if (r.derived) { unsigned s = I->getOperand(0)->getType()->getIntegerBitWidth(); if (r.lo < 0 || r.hi >= pw(s)) return top(); } return r;
    case Instruction::SExt: r = get(I->getOperand(0)); if (r.derived) { unsigned s = I->getOperand(0)->getType()->getIntegerBitWidth(); if (r.hi >= pw(s - 1) || r.lo < -pw(s - 1)) return top(); } return r;
    case Instruction::Trunc: r = get(I->getOperand(0)); if (r.derived) { if (r.hi >= pw(w) || r.lo < -pw(w - 1)) { ConstantRange c = LVI.getConstantRange(I->getOperand(0), I, true); Z u = c.isEmptySet() ? 0 : (Z)c.getUnsignedMax().getZExtValue(); if (r.lo >= 0 && u < pw(w)) { r.hi = u; if (r.lo > r.hi) r.lo = r.hi; return r; } return top(); } } return r;
    case Instruction::Freeze: return get(I->getOperand(0));
    case Instruction::Select: { Iv a = at(I->getOperand(1), I), b = at(I->getOperand(2), I); r.derived = a.derived || b.derived; auto known = [&](Value *x, Iv &y) { return y.derived || isa<ConstantInt>(x); }; if (!known(I->getOperand(1), a) || !known(I->getOperand(2), b)) return top(); r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi); return r; }
    case Instruction::PHI: {
      auto *P = cast<PHINode>(I); Loop *L = LI.getLoopFor(P->getParent());
      if (L && L->getHeader() == P->getParent()) {
        auto *AR = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(P)); if (!AR || AR->getLoop() != L || !AR->isAffine()) return top(); auto *St = dyn_cast<SCEVConstant>(AR->getStepRecurrence(SE)); if (!St) return top();
        Value *init = nullptr; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (!L->contains(P->getIncomingBlock(i))) { if (init && init != P->getIncomingValue(i)) return top(); init = P->getIncomingValue(i); } if (!init) return top();
        Iv a = get(init); bool neg = St->getAPInt().isNegative(); if (!a.derived && !isa<ConstantInt>(init)) return top();
        // bound of the loop: a comparison of a value of this recurrence with something derived from the length
        Iv b; bool have = bound(L, P, AR, b);
        if (neg) { if (!a.derived) return top(); r.derived = true; r.hi = a.hi; r.lo = -1; return r; }
        if (!have) return top(); r.derived = true; r.lo = a.lo; r.hi = std::max(a.hi, b.hi); return r;
      }
      bool first = true; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { Value *x = P->getIncomingValue(i); Iv a = get(x); if (!a.derived && !isa<ConstantInt>(x)) return top(); if (a.derived && !isa<Constant>(x) && a.lo >= 0 && a.hi < pw(w)) { ConstantRange c = LVI.getConstantRangeOnEdge(x, P->getIncomingBlock(i), P->getParent(), P); if (c.isEmptySet()) continue; Z u = (Z)c.getUnsignedMax().getZExtValue(); if (u < a.hi) a.hi = u; } if (first) { r.lo = a.lo; r.hi = a.hi; first = false; } r.lo = std::min(r.lo, a.lo); r.hi = std::max(r.hi, a.hi); r.derived |= a.derived; }
      return r;
    }
    }
    return top();
  }
  static Value *strip(Value *v, unsigned &narrow, bool &sx) { narrow = v->getType()->getIntegerBitWidth(); sx = false; while (auto *c = dyn_cast<CastInst>(v)) { if (c->getOpcode() == Instruction::ZExt || c->getOpcode() == Instruction::SExt) { sx |= c->getOpcode() == Instruction::SExt; v = c->getOperand(0); narrow = std::min(narrow, v->getType()->getIntegerBitWidth()); } else break; } return v; }
  bool related(Value *v, PHINode *P, unsigned d = 0) { if (v == P) return true; if (d > 4) return false; if (auto *b = dyn_cast<BinaryOperator>(v)) if ((b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Sub) && isa<ConstantInt>(b->getOperand(1))) return related(b->getOperand(0), P, d + 1); if (auto *c = dyn_cast<CastInst>(v)) return related(c->getOperand(0), P, d + 1); return false; }
  bool bound(Loop *L, PHINode *P, const SCEVAddRecExpr *, Iv &b) {
    SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex); bool have = false;
    for (auto *B : ex) { auto *br = dyn_cast<BranchInst>(B->getTerminator()); if (!br || !br->isConditional()) continue; auto *c = dyn_cast<ICmpInst>(br->getCondition()); if (!c || !c->getOperand(0)->getType()->isIntegerTy()) continue;
      for (int s = 0; s < 2; s++) if (related(c->getOperand(s), P)) { Iv o = get(c->getOperand(1 - s)); if (o.derived) { if (!have || o.hi < b.hi) b = o; have = true; } else if (auto *k = dyn_cast<ConstantInt>(c->getOperand(1 - s))) { (void)k; return false; } } }
    return have;
  }
  void check() {
    for (auto &B : F) for (auto &I : B) {
      R.instructions++;
      auto der = [&](unsigned k) { return at(I.getOperand(k), &I); };
      if (auto *t = dyn_cast<TruncInst>(&I)) {
        if (!t->getType()->isIntegerTy()) continue; Iv a = der(0); if (!a.derived) continue; R.sites++; unsigned w = t->getType()->getIntegerBitWidth();
        if (a.hi >= pw(w) && a.lo >= -64 && w > 1) { APInt d = DB.getDemandedBits(t); if (d[w - 1]) report(t, "narrow", "a value derived from the length, which can reach " + num(a.hi), a.hi); }
      } else if (auto *c = dyn_cast<ICmpInst>(&I)) {
        if (!c->getOperand(0)->getType()->isIntegerTy()) continue; unsigned w = c->getOperand(0)->getType()->getIntegerBitWidth(); if (w > 64) continue;
        for (int s = 0; s < 2; s++) {
          Iv a = der(s); if (!a.derived) continue; R.sites++;
          if (c->isSigned() && a.hi >= pw(w - 1)) report(c, "signed", "comparison as a signed number of a value derived from the length, which can reach " + num(a.hi), a.hi);
          unsigned nw; bool sx; Value *o = strip(c->getOperand(1 - s), nw, sx); if (nw >= w) continue;
          // counter narrower than the bound
          Value *p = o; while (auto *b = dyn_cast<BinaryOperator>(p)) { if ((b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Sub) && isa<ConstantInt>(b->getOperand(1))) p = b->getOperand(0); else break; }
          if (auto *ph = dyn_cast<PHINode>(p)) { Loop *L = LI.getLoopFor(ph->getParent()); if (L && L->getHeader() == ph->getParent() && L->contains(c)) { auto *AR = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(ph)); unsigned eb = nw - (sx ? 1 : 0); if (AR && AR->getLoop() == L && a.hi > pw(eb) - 1 && exits(L, c)) report(c, "counter", "loop counter of " + std::to_string(nw) + " bits against a bound derived from the length, which can reach " + num(a.hi), a.hi); } }
        }
      } else if (auto *x = dyn_cast<SExtInst>(&I)) {
        if (!x->getType()->isIntegerTy()) continue; Iv a = der(0); if (!a.derived) continue; R.sites++; unsigned w = x->getOperand(0)->getType()->getIntegerBitWidth();
        if (a.hi >= pw(w - 1)) report(x, "signed", "extension as a signed number of a value derived from the length, which can reach " + num(a.hi), a.hi);
      } else if (auto *b = dyn_cast<BinaryOperator>(&I)) {
        if (!b->getType()->isIntegerTy() || b->getType()->getIntegerBitWidth() > 64) continue; unsigned w = b->getType()->getIntegerBitWidth(), op = b->getOpcode(); Iv a = der(0); if (!a.derived) continue; R.sites++;
        if ((op == Instruction::SDiv || op == Instruction::SRem || op == Instruction::AShr) && a.hi >= pw(w - 1)) report(b, "signed", "signed division or shift of a value derived from the length, which can reach " + num(a.hi), a.hi);
        if (op == Instruction::Mul || op == Instruction::Shl) if (auto *c = dyn_cast<ConstantInt>(b->getOperand(1))) { Z f = op == Instruction::Shl ? (c->getZExtValue() < w ? pw((unsigned)c->getZExtValue()) : 0) : (Z)c->getZExtValue(); if (f < pw(20) && a.lo >= 0 && a.hi * f >= pw(w)) { APInt d = DB.getDemandedBits(b); if (d[w - 1] && !undone(b, f)) report(b, "overflow", "product of a value derived from the length, which can reach " + num(a.hi) + ", with " + num(f), a.hi); } }
      }
    }
  }
  // x * 8 - something with x * 8 <= len by construction: (len / 8) * 8 is bounded through the interval already
  bool undone(BinaryOperator *, Z) { return false; }
  bool exits(Loop *L, ICmpInst *c) { for (auto *u : c->users()) if (auto *b = dyn_cast<BranchInst>(u)) if (L->contains(b) && L->isLoopExiting(b->getParent())) return true; return false; }
  static std::string num(Z x) { if (x < 0) return "-" + num(-x); std::string s; do { s = char('0' + (int)(x % 10)) + s; x /= 10; } while (x); return s; }
};
}
bool lensRun(const std::string &path, LensResult &R, std::string &err) {
  LLVMContext C; SMDiagnostic D; auto M = parseIRFile(path, D, C); if (!M) { err = D.getMessage().str(); return false; }
  std::set<std::string> api{"dvbcsa_encrypt", "dvbcsa_decrypt"};
  { // everything but the entry points and recursive functions is inlined
    CallGraph CG(*M); for (auto &F : *M) { if (F.isDeclaration()) continue; F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); if (api.count(F.getName().str())) continue; bool self = false; for (auto &x : *CG[&F]) if (x.second && x.second->getFunction() == &F) self = true; if (!self) F.addFnAttr(Attribute::AlwaysInline); }
    for (auto &F : *M) if (!F.isDeclaration() && !api.count(F.getName().str())) F.setLinkage(GlobalValue::InternalLinkage);
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, "globaldce,always-inline,globaldce,function(sroa,early-cse,simplifycfg,loop-simplify,lcssa)")) { err = "pass pipeline"; return false; }
  MPM.run(*M, MAM);
  for (auto &n : api) {
    Function *F = M->getFunction(n); if (!F || F->isDeclaration()) { err = "entry point " + n + " is not defined"; return false; }
    Lens L(*F, FAM.getResult<LazyValueAnalysis>(*F), FAM.getResult<ScalarEvolutionAnalysis>(*F), FAM.getResult<LoopAnalysis>(*F), FAM.getResult<DemandedBitsAnalysis>(*F), R);
    for (auto &A : F->args()) if (A.getType()->isIntegerTy()) { L.params.insert(&A); R.params++; }
    for (auto *l : FAM.getResult<LoopAnalysis>(*F).getLoopsInPreorder()) { (void)l; R.loops++; }
    L.check();
  }
  return true;
}
