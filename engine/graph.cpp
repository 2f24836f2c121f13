// Call graph and effect facts of a linked module, for the rules that need no value analysis.
#include "lens.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <map>
#include <set>
using namespace llvm;
static std::string q(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += (unsigned char)c < 32 ? ' ' : c; } return "\"" + r + "\""; }
static std::string at(const Instruction *i) {
  if (DebugLoc d = i->getDebugLoc()) { DILocation *L = d.get(); std::string f = L->getFilename().str(); auto p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); std::string fn = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : ""; return f + ":" + std::to_string(L->getLine()) + " (" + fn + ")"; }
  return i->getFunction()->getName().str();
}
static const Function *target(const CallBase *c) { const Value *v = c->getCalledOperand()->stripPointerCasts(); if (auto *a = dyn_cast<GlobalAlias>(v)) v = a->getAliaseeObject(); return dyn_cast<Function>(v); }
// does control reach a return of the function from here?
struct Returns {
  std::map<const Function *, int> st;               // 0 unknown, 1 never returns, 2 may return
  bool never(const Function *f) {
    if (f->doesNotReturn()) return true; if (f->isDeclaration()) return false; auto &s = st[f]; if (s) return s == 1; s = 2;   // recursion: assume it may
    std::set<const BasicBlock *> seen; bool r = fromBlock(&f->getEntryBlock(), f->getEntryBlock().begin(), seen); return (st[f] = r ? 2 : 1) == 1;
  }
  bool fromBlock(const BasicBlock *b, BasicBlock::const_iterator it, std::set<const BasicBlock *> &seen) {
    std::vector<std::pair<const BasicBlock *, BasicBlock::const_iterator>> w{{b, it}};
    while (!w.empty()) {
      auto [x, i] = w.back(); w.pop_back(); bool stop = false;
      for (; i != x->end(); ++i) { if (isa<ReturnInst>(&*i)) return true; if (auto *c = dyn_cast<CallBase>(&*i)) { auto *f = target(c); if (c->doesNotReturn() || (f && never(f))) { stop = true; break; } } if (isa<UnreachableInst>(&*i)) stop = true; }
      if (stop) continue; for (auto *s : successors(x)) if (seen.insert(s).second) w.push_back({s, s->begin()});
    }
    return false;
  }
  bool after(const Instruction *i) { std::set<const BasicBlock *> seen; return fromBlock(i->getParent(), std::next(i->getIterator()), seen); }
};
bool graphRun(const std::string &path, std::string &out, std::string &err) {
  LLVMContext C; SMDiagnostic D; auto M = parseIRFile(path, D, C); if (!M) { err = D.getMessage().str(); return false; }
  Returns R; std::set<const Function *> taken; unsigned n = 0, calls = 0;
  for (auto &F : *M) if (F.hasAddressTaken()) taken.insert(&F);
  std::string s = "{"; bool first = true;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue; n++; s += (first ? "" : ",") + q(F.getName().str()) + ":{\"calls\":["; first = false; bool f2 = true; std::string other; std::set<std::string> oseen;
    for (auto &I : instructions(F)) {
      if (auto *c = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(c)) continue;
        calls++; std::string name; bool ret = true; const Function *t = target(c);
        if (c->isInlineAsm()) { auto *A = cast<InlineAsm>(c->getCalledOperand()->stripPointerCasts()); std::string k = "[" + q("asm") + "," + q(at(&I)) + "," + q(A->getAsmString()) + "," + (A->hasSideEffects() ? "true" : "false") + "]"; if (oseen.insert(k).second) other += (other.empty() ? "" : ",") + k; continue; }
        if (!t) { for (auto *x : taken) { if (x->isDeclaration() || true) { s += std::string(f2 ? "" : ",") + "[" + q(x->getName().str()) + "," + q(at(&I)) + "," + (R.after(&I) ? "true" : "false") + ",true]"; f2 = false; } } continue; }
        name = t->getName().str(); ret = R.after(&I) && !R.never(t); s += std::string(f2 ? "" : ",") + "[" + q(name) + "," + q(at(&I)) + "," + (R.after(&I) ? "true" : "false") + ",false]"; f2 = false;
      } else {
        std::string k; if (I.isAtomic() || isa<FenceInst>(&I)) k = "atomic"; else if (auto *l = dyn_cast<LoadInst>(&I)) { if (l->isVolatile()) k = "volatile"; } else if (auto *st = dyn_cast<StoreInst>(&I)) { if (st->isVolatile()) k = "volatile"; }
        if (!k.empty()) { std::string e = "[" + q(k) + "," + q(at(&I)) + ",\"\",false]"; if (oseen.insert(e).second) other += (other.empty() ? "" : ",") + e; }
      }
    }
    s += "],\"other\":[" + other + "],\"external\":" + (F.hasExternalLinkage() ? "true" : "false") + ",\"hidden\":" + (F.hasDefaultVisibility() ? "false" : "true") + "}";
  }
  s += "}"; std::string u = "["; bool f3 = true;
  for (auto &F : *M) if (F.isDeclaration() && !F.isIntrinsic() && !F.use_empty()) { u += (f3 ? "" : ",") + q(F.getName().str()); f3 = false; }
  for (auto &G : M->globals()) if (G.isDeclaration() && !G.use_empty()) { u += (f3 ? "" : ",") + q(G.getName().str()); f3 = false; }
  u += "]"; std::string al = "{"; bool f4 = true; for (auto &A : M->aliases()) { al += (f4 ? "" : ",") + q(A.getName().str()) + ":" + q(A.getAliaseeObject() ? A.getAliaseeObject()->getName().str() : ""); f4 = false; } al += "}";
  std::string ct = "["; for (const char *nm : {"llvm.global_ctors", "llvm.global_dtors"}) if (M->getNamedGlobal(nm)) ct += std::string(ct.size() > 1 ? "," : "") + q(nm); ct += "]";
  out = "\"graph\":" + s + ",\"undefined\":" + u + ",\"aliases\":" + al + ",\"ctors\":" + ct + ",\"module_asm\":" + q(M->getModuleInlineAsm()) + ",\"defined\":" + std::to_string(n) + ",\"call_sites\":" + std::to_string(calls);
  return true;
}
