// Effect facts of a module: facts MODULE.ll OUT.json ENTRYPREFIX
// Runs internalize + ipsccp + simplifycfg + globaldce (so that branches on constants such as is_constant_evaluated()
// or `if constexpr` leftovers disappear) and prints, per function, every call, memory effect, asm and environment use.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include "llvm/Transforms/IPO/SCCP.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <functional>
#include <map>
#include <set>
using namespace llvm;
static std::string loc(const Instruction *I) {
  std::string s = I->getFunction()->getName().str();
  if (const DebugLoc &d = I->getDebugLoc()) {
    const DILocation *l = d.get(); std::string f = l->getFilename().str(); size_t p = f.find("include/ccmath"); if (p != std::string::npos) f = f.substr(p);
    s = f + ":" + std::to_string(l->getLine()); if (auto *sp = l->getScope()->getSubprogram()) s += " (" + sp->getName().str() + ")";
  }
  return s;
}
// roots of an address
static void roots(const Value *V, std::set<std::string> &out, std::set<const Value *> &seen, int depth = 0) {
  if (!seen.insert(V).second) return; if (depth > 40) { out.insert("unknown"); return; }
  if (auto *c = dyn_cast<ConstantExpr>(V)) { if (c->getOpcode() == Instruction::GetElementPtr || c->isCast()) { roots(c->getOperand(0), out, seen, depth + 1); return; } out.insert("unknown"); return; }
  if (auto *g = dyn_cast<GlobalVariable>(V)) { out.insert((g->isThreadLocal() ? "tls:" : g->isConstant() ? "const:" : "global:") + g->getName().str()); return; }
  if (isa<AllocaInst>(V)) { out.insert("local"); return; }
  if (auto *a = dyn_cast<Argument>(V)) { out.insert("arg:" + std::to_string(a->getArgNo())); return; }
  if (auto *g = dyn_cast<GEPOperator>(V)) { roots(g->getPointerOperand(), out, seen, depth + 1); return; }
  if (auto *p = dyn_cast<PHINode>(V)) { for (auto &x : p->incoming_values()) roots(x, out, seen, depth + 1); return; }
  if (auto *s = dyn_cast<SelectInst>(V)) { roots(s->getTrueValue(), out, seen, depth + 1); roots(s->getFalseValue(), out, seen, depth + 1); return; }
  if (auto *c = dyn_cast<CallBase>(V)) {
    if (auto *f = c->getCalledFunction()) { if (f->getIntrinsicID() == Intrinsic::threadlocal_address) { roots(c->getArgOperand(0), out, seen, depth + 1); return; }
      if (f->isDeclaration()) { out.insert("ret:" + f->getName().str()); return; }
      // a helper returning a reference to one of its arguments (operator[], at, data ...)
      std::set<std::string> r2; std::set<const Value *> s2; for (auto &I : instructions(*f)) if (auto *ri = dyn_cast<ReturnInst>(&I)) if (ri->getReturnValue()) roots(ri->getReturnValue(), r2, s2, depth + 1);
      for (auto &r : r2) { if (r.rfind("arg:", 0) == 0) { unsigned n = atoi(r.c_str() + 4); if (n < c->arg_size()) { roots(c->getArgOperand(n), out, seen, depth + 1); continue; } } out.insert(r); }
      return; }
    out.insert("unknown"); return; }
  if (auto *l = dyn_cast<LoadInst>(V)) { // pointer kept in a local slot or member
    std::set<std::string> r2; std::set<const Value *> s2; roots(l->getPointerOperand(), r2, s2, depth + 1);
    if (r2.size() == 1 && *r2.begin() == "local") { // all stores into that alloca
      const Value *A = l->getPointerOperand()->stripInBoundsOffsets(); bool ok = true; 
      std::function<void(const Value *)> walk = [&](const Value *p) { for (auto *u : p->users()) { if (auto *st = dyn_cast<StoreInst>(u)) { if (st->getPointerOperand() == p && st->getValueOperand()->getType()->isPointerTy()) roots(st->getValueOperand(), out, seen, depth + 1); } else if (isa<GEPOperator>(u)) walk(u); } };
      walk(A); if (ok) return; }
    for (auto &r : r2) out.insert("via:" + r); return; }
  if (isa<ConstantPointerNull>(V) || isa<UndefValue>(V)) { out.insert("null"); return; }
  if (auto *o = dyn_cast<Operator>(V)) if (o->getOpcode() == Instruction::AddrSpaceCast || o->getOpcode() == Instruction::BitCast) { roots(o->getOperand(0), out, seen, depth + 1); return; }
  out.insert("unknown");
}
static json::Array rootsJ(const Value *V) { std::set<std::string> s; std::set<const Value *> seen; roots(V, s, seen); json::Array a; for (auto &x : s) a.push_back(x); return a; }
// possible constants of an integer value, with the place each one is written
typedef std::map<int64_t, std::string> CSet;
static void intset(const Value *V, const std::string &at, CSet &out, bool &top, std::set<const Value *> &seen, int d = 0) {
  if (auto *c = dyn_cast<ConstantInt>(V)) { out.emplace(c->getSExtValue(), at); return; }
  if (!seen.insert(V).second) return; if (d > 30) { top = true; return; }
  auto li = [&](const Value *x) { return isa<Instruction>(x) ? loc(cast<Instruction>(x)) : at; };
  if (auto *p = dyn_cast<PHINode>(V)) { for (unsigned i = 0; i < p->getNumIncomingValues(); i++) intset(p->getIncomingValue(i), loc(p->getIncomingBlock(i)->getTerminator()), out, top, seen, d + 1); return; }
  if (auto *p = dyn_cast<SelectInst>(V)) { intset(p->getTrueValue(), li(V), out, top, seen, d + 1); intset(p->getFalseValue(), li(V), out, top, seen, d + 1); return; }
  if (auto *b = dyn_cast<BinaryOperator>(V)) { CSet x, y; intset(b->getOperand(0), li(V), x, top, seen, d + 1); intset(b->getOperand(1), li(V), y, top, seen, d + 1);
    if (b->getOpcode() != Instruction::Or && b->getOpcode() != Instruction::And) { top = true; return; } for (auto &i : x) for (auto &j : y) out.emplace(b->getOpcode() == Instruction::Or ? (i.first | j.first) : (i.first & j.first), li(V)); return; }
  if (auto *a = dyn_cast<Argument>(V)) { const Function *F = a->getParent(); if (F->hasAddressTaken() || !F->hasLocalLinkage()) { top = true; return; }
    for (auto *u : F->users()) if (auto *cb = dyn_cast<CallBase>(u)) intset(cb->getArgOperand(a->getArgNo()), loc(cb), out, top, seen, d + 1); return; }
  if (auto *cb = dyn_cast<CallBase>(V)) { if (auto *f = cb->getCalledFunction()) if (!f->isDeclaration()) { for (auto &I : instructions(*f)) if (auto *r = dyn_cast<ReturnInst>(&I)) if (r->getReturnValue()) intset(r->getReturnValue(), loc(r), out, top, seen, d + 1); return; } top = true; return; }
  if (isa<CastInst>(V)) { intset(cast<CastInst>(V)->getOperand(0), at, out, top, seen, d + 1); return; }
  top = true;
}
// does the value derive from the saved environment (fegetround, or memory the environment was saved to)?
static bool savedMode(const Value *V, std::set<const Value *> &seen) {
  if (!seen.insert(V).second) return true;
  if (isa<Constant>(V)) return false;
  if (auto *p = dyn_cast<PHINode>(V)) { for (auto &x : p->incoming_values()) if (!savedMode(x, seen)) return false; return true; }
  if (auto *p = dyn_cast<SelectInst>(V)) return savedMode(p->getTrueValue(), seen) && savedMode(p->getFalseValue(), seen);
  return true;
}
static int envOp(const CallBase *cb) { // 0 none, 1 changes the mode, 2 restores it
  auto *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if (!f) return 0; StringRef n = f->getName();
  if (n == "fesetround" || n == "llvm.set.rounding") { std::set<const Value *> s; return savedMode(cb->getArgOperand(0), s) ? 2 : 1; }
  if (n.contains("ldmxcsr") || n == "llvm.set.fpmode" || n == "llvm.set.fpenv") return isa<Constant>(cb->getArgOperand(0)) ? 1 : 2;
  if (n == "feholdexcept" || n == "feenableexcept" || n == "fedisableexcept" || n.starts_with("llvm.reset.fp")) return 1;
  if (n == "fesetenv" || n == "feupdateenv" || n == "fesetmode") return isa<Constant>(cb->getArgOperand(0)) ? 1 : 2;
  return 0;
}
static bool isErrnoPtr(const Value *p) { std::set<std::string> r; std::set<const Value *> sn; roots(p, r, sn); for (auto &x : r) if (x.find("__errno_location") != std::string::npos) return true; return false; }
// a loaded errno value that goes anywhere but back into errno
static bool errnoUsed(const Value *v, std::set<const Value *> &seen) {
  if (!seen.insert(v).second) return false;
  for (auto *u : v->users()) {
    if (auto *st = dyn_cast<StoreInst>(u)) { if (st->getPointerOperand() == v || !isErrnoPtr(st->getPointerOperand())) return true; continue; }
    if (isa<PHINode>(u) || isa<SelectInst>(u) || isa<FreezeInst>(u)) { if (auto *s = dyn_cast<SelectInst>(u)) if (s->getCondition() == v) return true; if (errnoUsed(u, seen)) return true; continue; }
    return true;
  }
  return false;
}
int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(argv[1], E, C); if (!M) { E.print("facts", errs()); return 2; }
  std::string pre = argv[3];
  for (auto &F : *M) F.removeFnAttr(Attribute::OptimizeNone), F.removeFnAttr(Attribute::NoInline);
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  MPM.addPass(InternalizePass([&](const GlobalValue &g) { return g.getName().starts_with(pre); }));
  for (int i = 0; i < 3; i++) {
    FunctionPassManager FPM; FPM.addPass(PromotePass()); FPM.addPass(SimplifyCFGPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.addPass(IPSCCPPass()); MPM.addPass(GlobalDCEPass());
  }
  MPM.run(*M, MAM);
  json::Object out, fns, gl;
  for (auto &G : M->globals()) {
    json::Object o; o["const"] = G.isConstant(); o["tls"] = G.isThreadLocal(); o["decl"] = G.isDeclaration(); o["linkage"] = (int)G.getLinkage(); std::string t; raw_string_ostream os(t); G.getValueType()->print(os); o["type"] = os.str(); o["dem"] = demangle(G.getName().str()); gl[G.getName()] = std::move(o);
  }
  for (auto &F : *M) {
    if (F.isIntrinsic()) continue;
    json::Object o; o["decl"] = F.isDeclaration(); o["dem"] = demangle(F.getName().str());
    if (auto *sp = F.getSubprogram()) { std::string f = sp->getFilename().str(); size_t p = f.find("include/ccmath"); if (p != std::string::npos) f = f.substr(p); o["at"] = f + ":" + std::to_string(sp->getLine()); }
    json::Array calls, ind, as, mem, fm, atom, addr, x87, vec; 
    if (F.hasFnAttribute(Attribute::StrictFP)) o["strictfp"] = true;
    for (auto &I : instructions(F)) {
      if (auto *f = dyn_cast<FPMathOperator>(&I)) if (f->getFastMathFlags().any()) { std::string s; raw_string_ostream os(s); f->getFastMathFlags().print(os); fm.push_back(json::Array{os.str(), loc(&I), std::string(I.getOpcodeName())}); }
      if (I.isBinaryOp() && I.getType()->isX86_FP80Ty()) x87.push_back(json::Array{std::string(I.getOpcodeName()), loc(&I)});
      if (I.getType()->isVectorTy() && cast<VectorType>(I.getType())->getElementType()->isFloatingPointTy() && (I.isBinaryOp() || isa<CallBase>(&I))) vec.push_back(json::Array{std::string(I.getOpcodeName()), loc(&I)});
      if (auto *cb = dyn_cast<CallBase>(&I)) {
        if (cb->isInlineAsm()) { auto *ia = cast<InlineAsm>(cb->getCalledOperand()); as.push_back(json::Array{ia->getAsmString(), ia->getConstraintString(), loc(&I)}); continue; }
        auto *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (!cf) { ind.push_back(loc(&I)); continue; }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        json::Array ar; for (auto &a : cb->args()) { if (auto *ci = dyn_cast<ConstantInt>(a)) { if (ci->getBitWidth() <= 64) ar.push_back(ci->getSExtValue()); else ar.push_back("big"); } else if (a->getType()->isPointerTy()) ar.push_back(rootsJ(a)); else if (auto *c2 = dyn_cast<CallBase>(a)) ar.push_back(c2->getCalledFunction() ? "=" + c2->getCalledFunction()->getName().str() : "?"); else ar.push_back("?"); }
        calls.push_back(json::Array{cf->getName().str(), loc(&I), std::move(ar)});
      } else if (auto *l = dyn_cast<LoadInst>(&I)) { if (l->isAtomic()) atom.push_back(loc(&I)); json::Array r = rootsJ(l->getPointerOperand()); mem.push_back(json::Array{"r", std::move(r), loc(&I), l->isVolatile()}); }
      else if (auto *s = dyn_cast<StoreInst>(&I)) { if (s->isAtomic()) atom.push_back(loc(&I)); json::Array r = rootsJ(s->getPointerOperand()); mem.push_back(json::Array{"w", std::move(r), loc(&I), s->isVolatile()});
        if (auto *ci = dyn_cast<ConstantInt>(s->getValueOperand())) { mem.back().getAsArray()->push_back(ci->getBitWidth() <= 64 ? ci->getSExtValue() : 0); } else mem.back().getAsArray()->push_back(isa<Argument>(s->getValueOperand()) ? "arg:" + std::to_string(cast<Argument>(s->getValueOperand())->getArgNo()) : std::string("?")); }
      else if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I) || isa<FenceInst>(&I)) atom.push_back(loc(&I));
      for (auto &u : I.operands()) if (auto *f = dyn_cast<Function>(u.get())) if (!isa<CallBase>(&I) || cast<CallBase>(&I)->getCalledOperand() != f) addr.push_back(json::Array{f->getName().str(), loc(&I)});
    }
    o["calls"] = std::move(calls); o["indirect"] = std::move(ind); o["asm"] = std::move(as); o["mem"] = std::move(mem); o["fmf"] = std::move(fm); o["atomic"] = std::move(atom); o["fnaddr"] = std::move(addr); o["x87"] = std::move(x87); o["vec"] = std::move(vec);
    // loops
    if (!F.isDeclaration()) {
      DominatorTree DT(F); LoopInfo LI(DT); json::Array lp;
      for (auto *L : LI.getLoopsInPreorder()) { SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex); lp.push_back(json::Array{loc(L->getHeader()->getTerminator()), (int64_t)ex.size(), (int64_t)L->getLoopDepth()}); }
      o["loops"] = std::move(lp);
    }
    fns[F.getName()] = std::move(o);
  }
  out["functions"] = std::move(fns); out["globals"] = std::move(gl);
  json::Array ctors; if (auto *g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto &x : ca->operands()) { auto *f = dyn_cast<Function>(cast<ConstantStruct>(x)->getOperand(1)->stripPointerCasts()); ctors.push_back(f ? f->getName().str() : "?"); }
  out["ctors"] = std::move(ctors);
  { // values given to feraiseexcept and stored to errno
    json::Array sinks;
    for (auto &F : *M) for (auto &I : instructions(F)) {
      const Value *v = nullptr; const char *k = nullptr;
      if (auto *cb = dyn_cast<CallBase>(&I)) { if (auto *f = cb->getCalledFunction()) if (f->getName() == "feraiseexcept" || f->getName() == "fesetexcept") { v = cb->getArgOperand(0); k = "fe"; } }
      else if (auto *st = dyn_cast<StoreInst>(&I)) { std::set<std::string> r; std::set<const Value *> sn; roots(st->getPointerOperand(), r, sn); for (auto &x : r) if (x.find("__errno_location") != std::string::npos) { v = st->getValueOperand(); k = "errno"; } }
      if (!v) continue;
      CSet c; bool top = false; std::set<const Value *> sn; intset(v, loc(&I), c, top, sn); json::Array a; for (auto &x : c) a.push_back(json::Array{x.first, x.second});
      sinks.push_back(json::Array{k, F.getName().str(), loc(&I), top, std::move(a)});
    }
    out["sinks"] = std::move(sinks);
    json::Array er; // errno values that influence something; those read after the function itself stored errno are its own
    for (auto &F : *M) { if (F.isDeclaration()) continue; DominatorTree DT(F); std::vector<const StoreInst *> sts; for (auto &I : instructions(F)) if (auto *st = dyn_cast<StoreInst>(&I)) if (isErrnoPtr(st->getPointerOperand())) sts.push_back(st);
      for (auto &I : instructions(F)) if (auto *l = dyn_cast<LoadInst>(&I)) if (isErrnoPtr(l->getPointerOperand())) { std::set<const Value *> sn; if (!errnoUsed(l, sn)) continue; bool own = false; for (auto *st : sts) own |= DT.dominates(st, l); if (!own) er.push_back(json::Array{F.getName().str(), loc(l)}); } }
    out["errnoRead"] = std::move(er);
  }
  { // typestate of the floating-point environment: inline everything that changes it, then flow clean/dirty along each path
    std::set<Function *> T; bool ch = true;
    while (ch) { ch = false; for (auto &F : *M) if (!F.isDeclaration() && !T.count(&F)) for (auto &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) { auto *f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if (envOp(cb) || (f && T.count(f))) { T.insert(&F); ch = true; break; } } }
    json::Array env, envE;
    if (!T.empty()) {
      for (auto *F : T) if (!F->getName().starts_with(pre)) { F->addFnAttr(Attribute::AlwaysInline); for (auto *u : F->users()) if (auto *cb = dyn_cast<CallBase>(u)) cb->removeFnAttr(Attribute::NoInline); }
      ModulePassManager P2; P2.addPass(AlwaysInlinerPass()); FunctionPassManager FP; FP.addPass(SROAPass(SROAOptions::ModifyCFG)); FP.addPass(SimplifyCFGPass()); P2.addPass(createModuleToFunctionPassAdaptor(std::move(FP))); P2.addPass(IPSCCPPass());
      LoopAnalysisManager LAM2; FunctionAnalysisManager FAM2; CGSCCAnalysisManager CAM2; ModuleAnalysisManager MAM2; PassBuilder PB2;
      PB2.registerModuleAnalyses(MAM2); PB2.registerCGSCCAnalyses(CAM2); PB2.registerFunctionAnalyses(FAM2); PB2.registerLoopAnalyses(LAM2); PB2.crossRegisterProxies(LAM2, FAM2, CAM2, MAM2);
      P2.run(*M, MAM2);
      for (auto &F : *M) { if (F.isDeclaration() || !F.getName().starts_with(pre)) continue;
        bool any = false; for (auto &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) any |= envOp(cb) != 0; if (!any) continue;
        envE.push_back(F.getName().str());
        std::map<BasicBlock *, const Instruction *> in; std::set<BasicBlock *> done; std::vector<BasicBlock *> wl{&F.getEntryBlock()}; in[wl[0]] = nullptr; // the change still in force, if any
        std::set<std::pair<BasicBlock *, const Instruction *>> vis; std::vector<std::pair<BasicBlock *, const Instruction *>> st{{&F.getEntryBlock(), nullptr}};
        while (!st.empty()) { auto [B, d] = st.back(); st.pop_back(); if (!vis.insert({B, d}).second) continue;
          for (auto &I : *B) { if (auto *cb = dyn_cast<CallBase>(&I)) { int o = envOp(cb); if (o == 1) d = cb; else if (o == 2) d = nullptr; }
            if (isa<ReturnInst>(&I) && d) { auto *c = cast<CallBase>(d); env.push_back(json::Array{F.getName().str(), loc(d), c->getCalledFunction()->getName().str(), loc(&I)}); } }
          for (auto *S : successors(B)) st.push_back({S, d}); }
      }
    }
    out["env"] = std::move(env); out["envEntries"] = std::move(envE);
  }
  std::error_code ec; raw_fd_ostream os(argv[2], ec); os << json::Value(std::move(out)) << "\n";
}
