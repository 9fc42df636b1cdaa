// Abstract interpreter over LLVM IR. Usage: absint MODULE.ll QUERIES.jsonl OUT.jsonl [jobs]
// Every query fixes one function, a box of argument bit patterns, a rounding-mode set and the allowed
// results; the interpreter over-approximates all executions from the box. A box is "proven" when the
// over-approximation lies inside the allowed set, "violated" when a (sub-)box's whole over-approximation
// lies outside of it (so every concrete input of that sub-box breaks the rule), otherwise split/undecided.
#include "av.hpp"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <atomic>
#include <cfloat>
#include <climits>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

static Module *M; static const DataLayout *DL;
static std::string demangleShort(StringRef n) { return n.str(); }

struct Val;
struct PtrT { int obj; AV off; };
struct Val {
  enum K { Bot, Sc, Ptr, Agg, Unk } k = Bot;
  AV a; std::vector<PtrT> p; std::vector<Val> g;
};
static Val vS(AV a) { Val v; v.k = Val::Sc; v.a = std::move(a); return v; }
static Val vUnk() { Val v; v.k = Val::Unk; return v; }
static Val vPtr(int o, AV off) { Val v; v.k = Val::Ptr; v.p.push_back({o, off}); return v; }
static unsigned scW(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 128 ? t->getIntegerBitWidth() : 0;
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static Val vTop(Type *t) {
  if (unsigned w = scW(t)) return vS(mkTop(w));
  if (auto *s = dyn_cast<StructType>(t)) { Val v; v.k = Val::Agg; for (Type *e : s->elements()) v.g.push_back(vTop(e)); return v; }
  if (auto *s = dyn_cast<FixedVectorType>(t)) { Val v; v.k = Val::Agg; for (unsigned i = 0; i < s->getNumElements(); i++) v.g.push_back(vTop(s->getElementType())); return v; }
  if (auto *s = dyn_cast<ArrayType>(t)) { if (s->getNumElements() > 64) return vUnk(); Val v; v.k = Val::Agg; for (unsigned i = 0; i < s->getNumElements(); i++) v.g.push_back(vTop(s->getElementType())); return v; }
  return vUnk();
}
static Val joinV(const Val &a, const Val &b) {
  if (a.k == Val::Bot) return b; if (b.k == Val::Bot) return a;
  if (a.k != b.k) return vUnk();
  Val r; r.k = a.k;
  switch (a.k) {
  case Val::Sc: if (a.a.w != b.a.w) return vUnk(); r.a = join(a.a, b.a); return r;
  case Val::Ptr: r.p = a.p; for (auto &q : b.p) { bool f = false; for (auto &x : r.p) if (x.obj == q.obj) { x.off = join(x.off, q.off); f = true; } if (!f) r.p.push_back(q); } if (r.p.size() > 8) return vUnk(); return r;
  case Val::Agg: if (a.g.size() != b.g.size()) return vUnk(); for (size_t i = 0; i < a.g.size(); i++) r.g.push_back(joinV(a.g[i], b.g[i])); return r;
  default: return vUnk();
  }
}
// ------------------------------------------------------------------ memory
struct Cell { unsigned size; Val v; };
struct Obj { std::map<int64_t, Cell> c; bool zero = false; int64_t size = -1; };
typedef std::map<int, std::shared_ptr<Obj>> Mem;
struct ObjInfo { const GlobalVariable *gv = nullptr; int64_t size = -1; std::string name; };
static std::vector<ObjInfo> OI; static std::map<const GlobalVariable *, int> GO;
enum { OBJ_NULL = 0, OBJ_ERRNO = 1 };
static const uint32_t ERRNO_INIT = 0x5EED;
static int gvObj(const GlobalVariable *g) {
  auto it = GO.find(g); if (it != GO.end()) return it->second;
  int id = OI.size(); OI.push_back({g, (int64_t)DL->getTypeAllocSize(g->getValueType()), g->getName().str()}); GO[g] = id; return id;
}
static AV apToAV(const APInt &i) { unsigned w = i.getBitWidth(); u128 v = i.getRawData()[0]; if (w > 64) v |= (u128)i.getRawData()[1] << 64; return mkC(w, v); }
static Val constVal(const Constant *c);
static Val constGEPBase(const Constant *c) {
  APInt off(64, 0);
  const Value *b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
  if (auto *g = dyn_cast<GlobalVariable>(b)) return vPtr(gvObj(g), mkC(64, off.getZExtValue()));
  if (isa<ConstantPointerNull>(b)) return vPtr(OBJ_NULL, mkC(64, off.getZExtValue()));
  return vUnk();
}
static Val constVal(const Constant *c) {
  Type *t = c->getType();
  if (auto *i = dyn_cast<ConstantInt>(c)) { if (!scW(t)) return vUnk(); return vS(apToAV(i->getValue())); }
  if (auto *f = dyn_cast<ConstantFP>(c)) { if (!scW(t)) return vUnk(); return vS(apToAV(f->getValueAPF().bitcastToAPInt())); }
  if (isa<UndefValue>(c)) return vTop(t);
  if (t->isPointerTy()) return constGEPBase(c);
  if (t->isAggregateType() || t->isVectorTy()) {
    unsigned n; if (auto *s = dyn_cast<StructType>(t)) n = s->getNumElements(); else if (auto *a = dyn_cast<ArrayType>(t)) n = a->getNumElements(); else if (auto *v = dyn_cast<FixedVectorType>(t)) n = v->getNumElements(); else return vUnk();
    if (n > 64) return vUnk();
    Val r; r.k = Val::Agg;
    for (unsigned i = 0; i < n; i++) { Constant *e = c->getAggregateElement(i); r.g.push_back(e ? constVal(e) : vUnk()); }
    return r;
  }
  return vTop(t);
}
static std::map<std::tuple<const GlobalVariable *, Type *, int64_t>, Val> LC;
static Val loadConst(const GlobalVariable *g, Type *t, int64_t off) {
  auto k = std::make_tuple(g, t, off); auto it = LC.find(k); if (it != LC.end()) return it->second;
  Val r = vTop(t);
  if (auto *c = ConstantFoldLoadFromConst(const_cast<Constant *>(g->getInitializer()), t, APInt(64, off), *DL)) r = constVal(c);
  LC[k] = r; return r;
}
// ------------------------------------------------------------------ per function info
struct FnInfo {
  std::map<const BasicBlock *, int> ord; std::vector<const BasicBlock *> blocks; std::map<const BasicBlock *, int> loopDepthHdr; // header -> order of last block in the loop
  std::map<const Value *, unsigned> id; unsigned n = 0;
};
static void topo(const std::vector<BasicBlock *> &nodes, Loop *L, LoopInfo &LI, FnInfo &fi, BasicBlock *entry);
static void emitRegion(Function &F, Loop *L, LoopInfo &LI, FnInfo &fi, BasicBlock *entry) {
  // DFS post order on the region with inner loops collapsed
  std::map<BasicBlock *, int> st; std::vector<BasicBlock *> post;
  auto inRegion = [&](BasicBlock *b) { return !L || L->contains(b); };
  auto rep = [&](BasicBlock *b) -> BasicBlock * { Loop *l = LI.getLoopFor(b); Loop *in = nullptr; while (l && l != L) { in = l; l = l->getParentLoop(); } return in ? in->getHeader() : b; };
  std::function<void(BasicBlock *)> dfs = [&](BasicBlock *b) {
    st[b] = 1; std::vector<BasicBlock *> succ; Loop *l = LI.getLoopFor(b);
    bool inner = l && l != L && l->getHeader() == b && rep(b) == b && LI.getLoopFor(b) != L;
    if (inner) { // outermost inner loop with this header
      Loop *o = l; while (o->getParentLoop() != L) o = o->getParentLoop();
      SmallVector<BasicBlock *, 8> ex; o->getExitBlocks(ex); for (auto *e : ex) succ.push_back(e);
    } else for (auto *s : successors(b)) succ.push_back(s);
    for (auto *s : succ) { if (!inRegion(s)) continue; if (L && s == L->getHeader()) continue; BasicBlock *r = rep(s); if (!st[r]) dfs(r); }
    post.push_back(b);
  };
  dfs(entry);
  for (auto it = post.rbegin(); it != post.rend(); ++it) {
    BasicBlock *b = *it; Loop *l = LI.getLoopFor(b);
    if (l && l != L && rep(b) == b) { Loop *o = l; while (o->getParentLoop() != L) o = o->getParentLoop(); emitRegion(F, o, LI, fi, o->getHeader()); }
    else { if (!fi.ord.count(b)) { fi.ord[b] = fi.blocks.size(); fi.blocks.push_back(b); } }
  }
}
static std::map<const Function *, FnInfo> FI;
static FnInfo &fnInfo(const Function *Fc) {
  auto it = FI.find(Fc); if (it != FI.end()) return it->second;
  Function &F = *const_cast<Function *>(Fc); FnInfo fi; DominatorTree DT(F); LoopInfo LI(DT);
  emitRegion(F, nullptr, LI, fi, &F.getEntryBlock());
  for (auto &b : F) if (!fi.ord.count(&b) && DT.isReachableFromEntry(&b)) { fi.ord[&b] = fi.blocks.size(); fi.blocks.push_back(&b); }
  for (auto &a : F.args()) fi.id[&a] = fi.n++;
  for (auto &b : F) for (auto &i : b) fi.id[&i] = fi.n++;
  return FI[Fc] = std::move(fi);
}
// ------------------------------------------------------------------ engine state
struct State { std::map<const Value *, Val> ov; std::shared_ptr<Mem> mem; std::map<const PHINode *, Val> phi; AV fe; bool init = false; };
struct Abort { std::string why; };
struct Split { int arg; std::vector<AV> parts; };
struct Trap { std::string what, where; };
struct Ctx {
  unsigned rms = 1; AV roundRet; int rel = 0; // rel: 0 none 1 lt 2 eqbits 3 gt
  std::vector<AV> box; std::vector<Split> splits; std::map<std::string, std::string> traps; // reached trap -> where
  bool relInt = false; long steps = 0, maxSteps = 400000; long maxLoop = 0, maxVisits = 6000; bool branched = false; int maxDepth = 0; int depth = 0; bool fmaBoth = true;
  std::set<std::string> oob; std::set<std::string> libm; std::set<std::string> unknown; std::string undecWhy; std::vector<std::string> *trace = nullptr;
};
struct Frame {
  const Function *F; FnInfo *fi; std::vector<Val> vals; Ctx *C; bool top; std::map<const Value *, int> allocaObj; std::vector<std::pair<const Value *, int>> affArg;
};
static std::string locOf(const Instruction *I) {
  std::string s = I->getFunction()->getName().str();
  if (const DebugLoc &d = I->getDebugLoc()) {
    const DILocation *l = d.get(); std::string f = l->getFilename().str(); size_t p = f.find("include/ccmath"); if (p != std::string::npos) f = f.substr(p);
    s = f + ":" + std::to_string(l->getLine()); if (auto *sp = l->getScope()->getSubprogram()) s += " (" + sp->getName().str() + ")";
  }
  return s;
}
static Val get(Frame &fr, State &S, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
  auto it = S.ov.find(v);
  auto i2 = fr.fi->id.find(v); if (it == S.ov.end() && i2 == fr.fi->id.end()) return vTop(v->getType());
  Val &r = it != S.ov.end() ? it->second : fr.vals[i2->second]; if (r.k == Val::Bot) return vTop(v->getType());
  if (r.k == Val::Sc && r.a.aff >= 0 && !S.ov.empty() && !isa<Argument>(v)) { // a copy of an argument shares what is known about the argument here
    for (auto &p : fr.affArg) if (p.second == r.a.aff) { auto f = S.ov.find(p.first); if (f == S.ov.end() || f->second.k != Val::Sc) continue;
      AV t = f->second.a; if (r.a.w < t.w) continue; t.prov = nullptr; if (t.w < r.a.w) t = iZext(t, r.a.w); if (r.a.affc) { if (r.a.w != f->second.a.w) continue; t.aff = -1; t = iAdd(t, mkC(r.a.w, r.a.affc)); } AV m = meet(r.a, t); if (m.bot()) { Val b = r; return b; } if (!sameSet(m, r.a)) return vS(m); }
  }
  return r;
}
static AV getA(Frame &fr, State &S, const Value *v) { Val x = get(fr, S, v); if (x.k == Val::Sc) return x.a; unsigned w = scW(v->getType()); return mkTop(w ? w : 64); }
static bool isF(Type *t) { return t->isFloatTy() || t->isDoubleTy() || t->isX86_FP80Ty(); }

// float range -> AV
static AV fRange(unsigned w, long double lo, bool ls, long double hi, bool hs, bool nan) { // ls/hs strict
  AV r; r.w = w; u128 s = fSign(w), inf = fInf(w);
  // positive part: magnitudes from max(lo,0) to hi
  auto up = [&](u128 m) { m++; return w == 80 ? canonUp(m) : m; }; auto dn = [&](u128 m) { m--; return w == 80 ? canonDn(m) : m; };
  if (hi > 0 || (hi == 0 && !hs)) {
    bool skip = false; u128 l, h = ldToBits(hi, w);
    if (hi == 0) h = 0;
    if (lo > 0) { l = ldToBits(lo, w); if (ls) { if (l >= inf) skip = true; else l = up(l); } } else if (lo == 0 && ls) l = 1; else l = 0;
    if (hs) { if (h == 0) skip = true; else h = dn(h); }
    if (!skip && l <= h) r.iv.push_back({l, h});
  }
  if (lo < 0 || (lo == 0 && !ls)) {
    bool skip = false; u128 l, h = lo == 0 ? 0 : ldToBits(-lo, w);
    if (hi < 0) { l = ldToBits(-hi, w); if (hs) { if (l >= inf) skip = true; else l = up(l); } } else if (hi == 0 && hs) l = 1; else l = 0;
    if (ls) { if (h == 0) skip = true; else h = dn(h); }
    if (!skip && l <= h) r.iv.push_back({l | s, h | s});
  }
  if (nan) putNaN(r);
  norm(r); return r;
}
static bool refine(Frame &fr, State &S, const Value *V, const AV &nv, int depth);
static bool refineCond(Frame &fr, State &S, const Value *c, bool t, int depth);
static AV fClassAV(unsigned w, unsigned mask) {
  AV r; r.w = w; u128 s = fSign(w), inf = fInf(w); u128 q = w == 32 ? 0x400000u : w == 64 ? (u128)1 << 51 : (u128)1 << 62;
  u128 mn = w == 32 ? (u128)0x800000u : w == 64 ? (u128)1 << 52 : ((u128)1 << 64 | (u128)1 << 63);
  auto P = [&](u128 l, u128 h, bool n) { r.iv.push_back({l | (n ? s : 0), h | (n ? s : 0)}); };
  if (mask & 1) { P(inf + 1, (inf | q) - 1, 0); P(inf + 1, (inf | q) - 1, 1); }
  if (mask & 2) { P(inf | q, s - 1, 0); P(inf | q, s - 1, 1); }
  if (mask & 4) P(inf, inf, 1); if (mask & 8) P(mn, inf - 1, 1); if (mask & 16) P(1, mn - 1, 1); if (mask & 32) P(0, 0, 1);
  if (mask & 64) P(0, 0, 0); if (mask & 128) P(1, mn - 1, 0); if (mask & 256) P(mn, inf - 1, 0); if (mask & 512) P(inf, inf, 0);
  norm(r); return r;
}
static bool refine(Frame &fr, State &S, const Value *V, const AV &nv, int depth) {
  if (isa<Constant>(V)) { Val c = get(fr, S, V); if (c.k == Val::Sc && meet(c.a, nv).bot()) return false; return true; }
  Val cv = get(fr, S, V); if (cv.k != Val::Sc || cv.a.w != nv.w) return true;
  AV m = meet(cv.a, nv); if (m.bot()) return false;
  if (sameSet(m, cv.a)) return true;
  S.ov[V] = vS(m);
  if (cv.a.aff >= 0 && !isa<Argument>(V)) { // V is a copy of an argument (plus a constant)
    for (auto &p : fr.affArg) if (p.second == cv.a.aff) { Val A = get(fr, S, p.first); if (A.k != Val::Sc || A.a.w > m.w) continue; if (m.w > A.a.w && m.affc) continue;
      AV t = m; t.prov = nullptr; if (t.affc) t = iSub(t, mkC(t.w, t.affc)); if (t.w > A.a.w) t = iTrunc(t, A.a.w); AV x = meet(A.a, t); if (x.bot()) return false; if (!sameSet(x, A.a)) S.ov[p.first] = vS(x); }
  } else if (cv.a.prov && !isa<Argument>(V)) {
    u128 nz = m.kz & ~cv.a.kz, no = m.ko & ~cv.a.ko; if (nz | no) for (auto &p : fr.affArg) { Val A = get(fr, S, p.first); if (A.k != Val::Sc) continue; u128 az = 0, ao = 0;
      for (unsigned b = 0; b < m.w; b++) { int q = (*cv.a.prov)[b]; if (q < 0 || q / 128 != p.second) continue; u128 bit = (u128)1 << b, ab = (u128)1 << (q % 128); if (nz & bit) az |= ab; if (no & bit) ao |= ab; }
      if (az | ao) { AV t = mkTop(A.a.w); t.kz = az; t.ko = ao; norm(t); AV x = meet(A.a, t); if (x.bot()) return false; S.ov[p.first] = vS(x); } }
  }
  if (depth <= 0) return true;
  auto *I = dyn_cast<Instruction>(V); if (!I) return true;
  auto c1 = [&](unsigned k) -> std::optional<u128> { Val c = get(fr, S, I->getOperand(k)); if (c.k == Val::Sc && c.a.single()) return c.a.lo(); return std::nullopt; };
  unsigned w = m.w; u128 mk = maskw(w);
  switch (I->getOpcode()) {
  case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Add: case Instruction::Sub: {
    if (w == 1 && I->getOpcode() != Instruction::Add && I->getOpcode() != Instruction::Sub) return refineCond(fr, S, V, m.lo() & 1, depth - 1);
    for (int k = 0; k < 2; k++) {
      auto c = c1(k); if (!c) continue; const Value *X = I->getOperand(1 - k); AV xa = getA(fr, S, X);
      switch (I->getOpcode()) {
      case Instruction::And: {
        AV t = mkTop(w); t.kz = m.kz & *c; t.ko = m.ko & *c; norm(t);
        if (!refine(fr, S, X, t, depth - 1)) return false;
        xa = getA(fr, S, X); u128 out = ~*c & mk;
        if ((out & ~(xa.kz | xa.ko)) == 0) { AV t2 = iAdd(m, mkC(w, xa.ko & out)); t2.kz = t2.ko = 0; t2.aff = -1; norm(t2); return refine(fr, S, X, t2, depth - 1); }
        { u128 uk = out & ~(xa.kz | xa.ko); if (uk && !(uk & (uk - 1))) { // one free bit: both completions
            AV t2; t2.w = w; for (auto &i : m.iv) for (int z = 0; z < 2; z++) { u128 ad = (xa.ko & out) | (z ? uk : 0); // only exact when the interval keeps the masked-out bits clear
                t2.iv.push_back({i.lo + ad, i.hi + ad}); }
            bool okk = (uk >> (w - 1)) & 1; // sign bit: intervals below it stay contiguous
            if (okk && ((xa.ko & out) == 0)) { norm(t2); return refine(fr, S, X, t2, depth - 1); } } }
        return true; }
      case Instruction::Or: { AV t = mkTop(w); t.kz = m.kz & ~*c; t.ko = m.ko & ~*c; norm(t); if (!refine(fr, S, X, t, depth - 1)) return false;
        xa = getA(fr, S, X); if ((*c & ~xa.kz) == 0) { AV t2 = iSub(m, mkC(w, *c)); return refine(fr, S, X, t2, depth - 1); } return true; }
      case Instruction::Xor: return refine(fr, S, X, iXor(m, mkC(w, *c)), depth - 1);
      case Instruction::Add: return refine(fr, S, X, iSub(m, mkC(w, *c)), depth - 1);
      case Instruction::Sub: if (k == 1) return refine(fr, S, X, iAdd(m, mkC(w, *c)), depth - 1); else return refine(fr, S, X, iSub(mkC(w, *c), m), depth - 1);
      default: break;
      }
    }
    return true; }
  case Instruction::LShr: case Instruction::AShr: { auto c = c1(1); if (!c || *c >= w) return true; AV t; t.w = w; 
    for (auto &i : m.iv) { u128 lowm = maskw((unsigned)*c); u128 l = (i.lo << *c) & mk, h = ((i.hi << *c) & mk) | lowm; if (l <= h) t.iv.push_back({l, h}); else t.iv.push_back({0, mk}); }
    t.kz = (m.kz << *c) & mk; t.ko = (m.ko << *c) & mk; norm(t); return refine(fr, S, I->getOperand(0), t, depth - 1); }
  case Instruction::Shl: { auto c = c1(1); if (!c || *c >= w) return true; AV xa = getA(fr, S, I->getOperand(0)); u128 topm = mk & ~(mk >> *c);
    AV t = mkTop(w); t.kz = (m.kz >> *c) & (mk >> *c); t.ko = (m.ko >> *c) & (mk >> *c); norm(t); if (!refine(fr, S, I->getOperand(0), t, depth - 1)) return false;
    if ((topm & ~xa.kz) == 0) return refine(fr, S, I->getOperand(0), iLshrC(m, *c), depth - 1); return true; }
  case Instruction::ZExt: case Instruction::SExt: { unsigned sw = scW(I->getOperand(0)->getType()); if (!sw) return true; if (sw == 1) return refineCond(fr, S, I->getOperand(0), m.lo() & 1, depth - 1); return refine(fr, S, I->getOperand(0), iTrunc(m, sw), depth - 1); }
  case Instruction::Trunc: { AV xa = getA(fr, S, I->getOperand(0)); unsigned sw = xa.w; AV t = mkTop(sw); t.kz = m.kz; t.ko = m.ko; norm(t);
    if (!refine(fr, S, I->getOperand(0), t, depth - 1)) return false; xa = getA(fr, S, I->getOperand(0)); u128 up = maskw(sw) & ~maskw(w);
    if ((up & ~(xa.kz | xa.ko)) == 0) { AV t2; t2.w = sw; for (auto &i : m.iv) t2.iv.push_back({i.lo | (xa.ko & up), i.hi | (xa.ko & up)}); norm(t2); return refine(fr, S, I->getOperand(0), t2, depth - 1); }
    // sign-extension-like ranges: value in signed range of w
    bool fits = true; for (auto &p : signedIv(xa)) if (p.first < -((i128)1 << (w - 1)) || p.second >= ((i128)1 << (w - 1))) fits = false;
    if (fits && w > 1) return refine(fr, S, I->getOperand(0), iSext(m, sw), depth - 1);
    return true; }
  case Instruction::BitCast: case Instruction::Freeze: return refine(fr, S, I->getOperand(0), m, depth - 1);
  case Instruction::FNeg: return refine(fr, S, I->getOperand(0), fNegA(m), depth - 1);
  case Instruction::FPExt: { unsigned sw = scW(I->getOperand(0)->getType()); if (!sw) return true; AV t; t.w = sw; FV f = toFV(m); for (auto &p : f.c) { // values exactly representable only
        AV lo = fConv(mkIV(w, {{ldToBits(p.lo, w), ldToBits(p.lo, w)}}), sw, 4), hi = fConv(mkIV(w, {{ldToBits(p.hi, w), ldToBits(p.hi, w)}}), sw, 2); 
        u128 l = lo.lo(), h = hi.hi(); if (l <= h) t.iv.push_back({l | (p.neg ? fSign(sw) : 0), h | (p.neg ? fSign(sw) : 0)}); }
    if (f.nan) putNaN(t); norm(t); return refine(fr, S, I->getOperand(0), t, depth - 1); }
  case Instruction::Select: {
    auto *s = cast<SelectInst>(I); AV a = getA(fr, S, s->getTrueValue()), b = getA(fr, S, s->getFalseValue());
    bool fa = a.w == w && !meet(a, m).bot(), fb = b.w == w && !meet(b, m).bot();
    if (!fa && !fb) return false;
    if (fa && !fb) { if (!refineCond(fr, S, s->getCondition(), true, depth - 1)) return false; return refine(fr, S, s->getTrueValue(), m, depth - 1); }
    if (fb && !fa) { if (!refineCond(fr, S, s->getCondition(), false, depth - 1)) return false; return refine(fr, S, s->getFalseValue(), m, depth - 1); }
    return true; }
  case Instruction::ICmp: case Instruction::FCmp: if (m.single()) return refineCond(fr, S, V, m.lo() & 1, depth - 1); return true;
  case Instruction::UDiv: { auto c = c1(1); if (!c || !*c) return true; AV t; t.w = w; for (auto &i : m.iv) { u128 h; bool o = mulOvf(i.hi, *c, h, w); u128 h2 = h + (*c - 1); if (o || h2 > mk || h2 < h) h2 = mk; u128 l; if (mulOvf(i.lo, *c, l, w)) continue; t.iv.push_back({l, h2}); } norm(t); return refine(fr, S, I->getOperand(0), t, depth - 1); }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    unsigned sw = scW(I->getOperand(0)->getType()); if (!sw || w > 64) return true; bool sg = I->getOpcode() == Instruction::FPToSI;
    i128 lo, hi; if (sg) { lo = smin(m); hi = smax(m); } else { lo = (i128)m.lo(); hi = (i128)m.hi(); }
    if (sw != 80 && (hi > ((i128)1 << 52) || lo < -((i128)1 << 52))) return true;
    if (sw == 32 && (hi > (1 << 22) || lo < -(1 << 22))) return true;
    long double l = lo <= 0 ? (long double)lo - 1 : (long double)lo, h = hi >= 0 ? (long double)hi + 1 : (long double)hi;
    return refine(fr, S, I->getOperand(0), fRange(sw, l, lo <= 0, h, hi >= 0, true), depth - 1); }
  case Instruction::SIToFP: { unsigned sw = scW(I->getOperand(0)->getType()); if (!sw || sw > 64 || w == 32) return true; FV f = toFV(m); if (f.c.empty()) return true; long double lo = INFINITY, hi = -INFINITY; for (auto &p : f.c) { lo = std::min(lo, p.neg ? -p.hi : p.lo); hi = std::max(hi, p.neg ? -p.lo : p.hi); }
    if (fabsl(lo) > 1e15L || fabsl(hi) > 1e15L) return true; return refine(fr, S, I->getOperand(0), fromSigned(sw, (i128)ceill(lo), (i128)floorl(hi)), depth - 1); }
  case Instruction::Call: {
    auto *cb = cast<CallInst>(I); const Function *cf = cb->getCalledFunction(); if (!cf) return true;
    if (cf->getIntrinsicID() == Intrinsic::expect) return refine(fr, S, cb->getArgOperand(0), m, depth - 1);
    if (cf->getIntrinsicID() == Intrinsic::fabs) { AV t = m; AV n = iOr(m, mkC(w, fSign(w))); AV j = join(t, n); j.kz = j.ko = 0; norm(j); return refine(fr, S, cb->getArgOperand(0), j, depth - 1); }
    return true; }
  case Instruction::PHI: return true;
  default: return true;
  }
}
static unsigned relMask(Ctx &C, const AV &a, const AV &b, bool isFloat) { // possible outcomes {1 lt,2 eq,4 gt,8 unord} from argument relation
  unsigned all = 15;
  if (!C.rel || a.w != b.w || a.aff < 0 || b.aff < 0 || a.aff == b.aff || a.affc || b.affc) return all;
  int r = C.rel; if (a.aff == 1 && b.aff == 0) r = r == 1 ? 3 : r == 3 ? 1 : r;
  if (isFloat) return r == 1 ? 1 : r == 2 ? 2 | 8 : 4;
  if (r == 2) return 2;
  if (C.relInt) return r == 1 ? 1 : 4;
  // integer compare of bit patterns (unsigned): same known sign required
  if (a.aff > 15 || b.aff > 15 || AFFW[a.aff] != AFFW[b.aff]) return all;
  u128 sb = fSign(AFFW[a.aff]);
  bool an = a.ko & sb, ap = a.kz & sb, bn = b.ko & sb, bp = b.kz & sb;
  if (ap && bp) return r == 1 ? 1 : 4;
  if (an && bn) return r == 1 ? 4 : 1;
  return all;
}
static unsigned icmpMask(Ctx &C, const AV &a, const AV &b, bool sgn) { // {1,2,4}
  unsigned m = 0;
  if (a.aff >= 0 && a.aff == b.aff && a.affc == b.affc) return 2;
  if (sgn) {
    auto x = signedIv(a), y = signedIv(b); i128 al = x.front().first, ah = smax(a), bl = y.front().first, bh = smax(b);
    if (al < bh) m |= 1; if (ah > bl) m |= 4;
  } else { if (a.lo() < b.hi()) m |= 1; if (a.hi() > b.lo()) m |= 4; }
  AV t = a; t.aff = -1; if (!meet(t, b).bot()) m |= 2;
  if (a.aff >= 0 && a.aff == b.aff && a.affc != b.affc) m &= ~2u;
  unsigned rm = relMask(C, a, b, false);
  if (rm != 15) { if (C.relInt ? !sgn : !sgn || ((a.kz & fSign(a.w)) && (b.kz & fSign(b.w))) || ((a.ko & fSign(a.w)) && (b.ko & fSign(b.w)))) m &= rm; else m &= (rm & 2) ? 7 : 5; }
  return m;
}
static unsigned predMaskI(CmpInst::Predicate p, bool &sgn) {
  sgn = CmpInst::isSigned(p);
  switch (p) { case CmpInst::ICMP_EQ: return 2; case CmpInst::ICMP_NE: return 5; case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return 1; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return 3; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return 4; case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return 6; default: return 7; }
}
static unsigned predMaskF(CmpInst::Predicate p) { // LLVM: bit0 eq bit1 gt bit2 lt bit3 uno
  unsigned v = (unsigned)p, r = 0; if (v & 1) r |= 2; if (v & 2) r |= 4; if (v & 4) r |= 1; if (v & 8) r |= 8; return r;
}
static bool refineCond(Frame &fr, State &S, const Value *c, bool t, int depth) {
  if (depth <= 0) return true;
  Val cv = get(fr, S, c); if (cv.k == Val::Sc && !contains(cv.a, t ? 1 : 0)) return false;
  if (isa<Constant>(c)) return true;
  S.ov[c] = vS(mkC(1, t));
  auto *I = dyn_cast<Instruction>(c); if (!I) return true;
  if (auto *ic = dyn_cast<ICmpInst>(I)) {
    const Value *A = ic->getOperand(0), *B = ic->getOperand(1); unsigned w = scW(A->getType()); if (!w) return true;
    bool sgn; unsigned pm = predMaskI(ic->getPredicate(), sgn); if (!t) pm = 7 & ~pm;
    if (w == 1) { for (int k = 0; k < 2; k++) { const Value *X = k ? B : A, *Y = k ? A : B; AV y = getA(fr, S, Y); if (y.single() && (pm == 2 || pm == 5)) return refineCond(fr, S, X, pm == 2 ? y.lo() : !y.lo(), depth - 1); } return true; }
    for (int k = 0; k < 2; k++) {
      const Value *X = k ? B : A, *Y = k ? A : B; unsigned q = pm; if (k) q = (pm & 2) | ((pm & 1) ? 4 : 0) | ((pm & 4) ? 1 : 0);
      AV y = getA(fr, S, Y); if (y.bot()) return false; AV lim;
      if (q == 2) { lim = y; }
      else if (q == 5) { if (!y.single()) continue; lim.w = w; u128 v = y.lo(); if (v > 0) lim.iv.push_back({0, v - 1}); if (v < maskw(w)) lim.iv.push_back({v + 1, maskw(w)}); norm(lim); if (lim.bot()) return false;
        // a single-bit test turned around
        AV x = getA(fr, S, X); u128 unk = maskw(w) & ~(x.kz | x.ko); if (unk && (unk & (unk - 1)) == 0 && ((v ^ x.ko) & ~unk & maskw(w)) == 0) { u128 other = (v ^ unk) & maskw(w); lim = mkC(w, other); } }
      else if (sgn) { i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1; if (w == 128) { mn = (i128)((u128)1 << 127); mx = (i128)(~(u128)0 >> 1); }
        if (q & 1) { i128 h = smax(y); if (!(q & 2)) { if (h == mn) return false; h--; } lim = fromSigned(w, mn, h); } else { i128 l = smin(y); if (!(q & 2)) { if (l == mx) return false; l++; } lim = fromSigned(w, l, mx); } }
      else { if (q & 1) { u128 h = y.hi(); if (!(q & 2)) { if (h == 0) return false; h--; } lim = mkR(w, 0, h); } else { u128 l = y.lo(); if (!(q & 2)) { if (l == maskw(w)) return false; l++; } lim = mkR(w, l, maskw(w)); } }
      if (!refine(fr, S, X, lim, depth - 1)) return false;
    }
    return true;
  }
  if (auto *fc = dyn_cast<FCmpInst>(I)) {
    const Value *A = fc->getOperand(0), *B = fc->getOperand(1); unsigned w = scW(A->getType()); if (!w) return true;
    unsigned pm = predMaskF(fc->getPredicate()); if (!t) pm = 15 & ~pm;
    for (int k = 0; k < 2; k++) {
      const Value *X = k ? B : A, *Y = k ? A : B; unsigned q = pm; if (k) q = (pm & 10) | ((pm & 1) ? 4 : 0) | ((pm & 4) ? 1 : 0);
      AV y = getA(fr, S, Y); FV f = toFV(y);
      if ((q & 8) && f.nan) continue; // X unconstrained
      AV lim; bool nan = q & 8;
      if (f.c.empty()) { if (!(q & 8)) return false; continue; }
      long double lo = INFINITY, hi = -INFINITY; for (auto &p : f.c) { lo = std::min(lo, p.neg ? -p.hi : p.lo); hi = std::max(hi, p.neg ? -p.lo : p.hi); }
      switch (q & 7) {
      case 0: lim.w = w; if (nan) putNaN(lim); norm(lim); break;
      case 1: lim = fRange(w, -INFINITY, false, hi, true, nan); break;
      case 2: lim = fRange(w, lo, false, hi, false, nan); break;
      case 3: lim = fRange(w, -INFINITY, false, hi, false, nan); break;
      case 4: lim = fRange(w, lo, true, INFINITY, false, nan); break;
      case 6: lim = fRange(w, lo, false, INFINITY, false, nan); break;
      case 5: if (lo == hi) { AV a1 = fRange(w, -INFINITY, false, lo, true, nan), a2 = fRange(w, lo, true, INFINITY, false, false); lim = join(a1, a2); lim.kz = lim.ko = 0; norm(lim); break; } lim = fRange(w, -INFINITY, false, INFINITY, false, nan); break;
      default: lim = fRange(w, -INFINITY, false, INFINITY, false, nan);
      }
      if (lim.bot()) return false;
      if (!refine(fr, S, X, lim, depth - 1)) return false;
    }
    return true;
  }
  if (auto *s = dyn_cast<SelectInst>(I)) {
    // logical and/or
    AV a = getA(fr, S, s->getTrueValue()), b = getA(fr, S, s->getFalseValue());
    bool fa = contains(a, t), fb = contains(b, t);
    if (!fa && !fb) return false;
    if (fa && !fb) return refineCond(fr, S, s->getCondition(), true, depth - 1) && refineCond(fr, S, s->getTrueValue(), t, depth - 1);
    if (fb && !fa) return refineCond(fr, S, s->getCondition(), false, depth - 1) && refineCond(fr, S, s->getFalseValue(), t, depth - 1);
    return true;
  }
  if (I->getOpcode() == Instruction::And || I->getOpcode() == Instruction::Or) {
    bool all = (I->getOpcode() == Instruction::And) == t;
    if (all) return refineCond(fr, S, I->getOperand(0), t, depth - 1) && refineCond(fr, S, I->getOperand(1), t, depth - 1);
    for (int k = 0; k < 2; k++) { AV x = getA(fr, S, I->getOperand(k)); if (x.single() && (bool)x.lo() != t) return refineCond(fr, S, I->getOperand(1 - k), t, depth - 1); }
    return true;
  }
  if (I->getOpcode() == Instruction::Xor) { for (int k = 0; k < 2; k++) { AV x = getA(fr, S, I->getOperand(k)); if (x.single()) return refineCond(fr, S, I->getOperand(1 - k), t != (bool)x.lo(), depth - 1); } return true; }
  if (isa<FreezeInst>(I)) return refineCond(fr, S, I->getOperand(0), t, depth - 1);
  if (I->getOpcode() == Instruction::Trunc) return refine(fr, S, I->getOperand(0), [&] { AV x = mkTop(scW(I->getOperand(0)->getType())); if (t) x.ko = 1; else x.kz = 1; norm(x); return x; }(), depth - 1);
  if (auto *cb = dyn_cast<CallInst>(I)) {
    if (auto *cf = cb->getCalledFunction(); cf && cf->getIntrinsicID() == Intrinsic::is_fpclass) {
      unsigned w = scW(cb->getArgOperand(0)->getType()); if (!w) return true; unsigned mask = cast<ConstantInt>(cb->getArgOperand(1))->getZExtValue(); if (!t) mask = 1023 & ~mask;
      AV cl = fClassAV(w, mask); if (cl.bot()) return false; return refine(fr, S, cb->getArgOperand(0), cl, depth - 1);
    }
    if (auto *cf = cb->getCalledFunction(); cf && cf->getIntrinsicID() == Intrinsic::expect) return refineCond(fr, S, cb->getArgOperand(0), t, depth - 1);
  }
  return true;
}
#include "interp.hpp"
#include "query.hpp"
