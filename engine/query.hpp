// Query driver: parse, run, split, judge.
#pragma once
static u128 parseHex(StringRef s) { u128 v = 0; s.consume_front("0x"); for (char c : s) { v <<= 4; v |= (c <= '9') ? c - '0' : (c | 32) - 'a' + 10; } return v; }
static u128 jnum(const json::Value &v) { if (auto s = v.getAsString()) return parseHex(*s); if (auto i = v.getAsInteger()) return (u128)(i128)*i; return 0; }
static std::vector<IV> jiv(const json::Array &a, unsigned w) { std::vector<IV> r; for (auto &e : a) { auto *p = e.getAsArray(); r.push_back({jnum((*p)[0]) & maskw(w), jnum((*p)[1]) & maskw(w)}); } return r; }
struct Tpl { struct Seg { int arg; unsigned lo, n, at; }; std::vector<Seg> segs; u128 c = 0; };
struct Expect { std::string out; bool hasIn = false; std::vector<IV> in; std::vector<Tpl> tpl; std::vector<std::pair<int, u128>> aff; };
struct Query { std::string id, fn; std::vector<AV> box; std::vector<int> ptr; std::vector<bool> isF; std::vector<Expect> ex; bool noTrap = false; std::vector<std::string> allowTrap; int rel = 0; unsigned rms = 1; long budget = 64, maxTotal = 600000; bool noOob = false; bool fmaBoth = true; bool report = false; int prefer = -1;  long cap = 400000, visits = 6000; bool term = false;};
struct Run { CallRes r; Ctx C; State S; std::vector<int> argObj; std::string abort; };
static AV outAV(Run &R, const std::string &o, unsigned wHint) {
  if (o == "ret") { if (R.r.v.k == Val::Sc) return R.r.v.a; return AV(); }
  if (o.rfind("ret", 0) == 0) { unsigned i = atoi(o.c_str() + 3); if (R.r.v.k == Val::Agg && i < R.r.v.g.size() && R.r.v.g[i].k == Val::Sc) return R.r.v.g[i].a; return AV(); }
  if (o == "fe") return R.S.fe;
  if (o == "errno") { auto it = R.S.mem->find(OBJ_ERRNO); if (it == R.S.mem->end()) return mkC(32, ERRNO_INIT); auto c = it->second->c.find(0); if (c == it->second->c.end() || c->second.v.k != Val::Sc) return AV(); return c->second.v.a; }
  if (o.rfind("mem", 0) == 0) { unsigned i = atoi(o.c_str() + 3); int ob = R.argObj[i]; auto it = R.S.mem->find(ob); if (it == R.S.mem->end()) return AV(); auto c = it->second->c.find(0); if (c == it->second->c.end() || c->second.v.k != Val::Sc) return AV(); return c->second.v.a; }
  return AV();
}
static Run runBox(const Query &q, const Function *F, const std::vector<AV> &box, std::vector<std::string> *trace = nullptr) {
  for (size_t i = 0; i < 16; i++) AFFW[i] = i < box.size() && !q.ptr[i] ? box[i].w : 0;
  Run R; size_t keep = OI.size(); (void)keep;
  R.C.trace = trace; R.C.rms = q.rms; R.C.rel = q.rel; R.C.relInt = !q.isF.empty() && !q.isF[0]; R.C.box = box; R.C.fmaBoth = q.fmaBoth; R.C.maxSteps = q.cap; R.C.maxVisits = q.visits;
  static const unsigned RV[4] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
  { AV a; a.w = 32; for (int i = 0; i < 4; i++) if (q.rms >> i & 1) a.iv.push_back({RV[i], RV[i]}); norm(a); R.C.roundRet = a; }
  R.S.mem = std::make_shared<Mem>(); R.S.fe = mkC(32, 0); R.S.init = true; std::vector<Val> args; R.argObj.resize(box.size(), -1);
  for (size_t i = 0; i < box.size(); i++) {
    if (q.ptr[i]) { int o = newObj(q.ptr[i], "arg" + std::to_string(i)); auto ob = std::make_shared<Obj>(); ob->size = q.ptr[i]; (*R.S.mem)[o] = ob; args.push_back(vPtr(o, mkC(64, 0))); R.argObj[i] = o; continue; }
    AV a = box[i]; auto p = std::make_shared<Prov>(); p->fill(-1); for (unsigned b = 0; b < a.w; b++) (*p)[b] = i * 128 + b; a.prov = p; a.aff = i; a.affc = 0; args.push_back(vS(a));
  }
  try { R.r = runFn(F, args, R.S, R.C, true); } catch (Abort &e) { R.abort = e.why; fesetround(FE_TONEAREST); }
  return R;
}
static AV tplAV(const Tpl &t, const std::vector<AV> &box, unsigned w) {
  AV r = mkC(w, t.c); for (auto &s : t.segs) { AV a = iTrunc(iLshrC(box[s.arg], s.lo), s.n); if (s.n < w) { a = iZext(a, w); a = iShlC(a, s.at); } r = iOr(r, a); } r.aff = -1; r.prov = nullptr; return r;
}
// 1 proven, 2 violated, 0 unknown
static int judge(const Expect &e, const AV &o, const std::vector<AV> &box) {
  if (o.bot()) return 0;
  std::vector<IV> allow = e.in;
  if (e.hasIn && subsetIv(o, e.in)) return 1;
  for (auto &t : e.tpl) {
    AV ta = tplAV(t, box, o.w); bool all = true;
    u128 seg = 0; for (auto &s : t.segs) for (unsigned k = 0; k < s.n; k++) { unsigned b = s.at + k; u128 bit = (u128)1 << b; seg |= bit; const AV &A = box[s.arg]; u128 sb = (u128)1 << (s.lo + k); 
        bool ok = (o.prov && (*o.prov)[b] == s.arg * 128 + (int)(s.lo + k)) || ((A.kz & sb) && (o.kz & bit)) || ((A.ko & sb) && (o.ko & bit)); if (!ok) { all = false; break; } }
    if (all) { u128 rest = maskw(o.w) & ~seg; if ((o.ko & rest) != (t.c & rest) || (o.kz & rest) != (~t.c & rest)) all = false; }
    if (all) return 1;
    for (auto &i : ta.iv) allow.push_back(i);
  }
  for (auto &p : e.aff) {
    if (o.aff == p.first && o.affc == p.second) return 1;
    if (!p.second) { const AV &A = box[p.first]; bool all = true; for (unsigned b = 0; b < o.w && all; b++) { u128 bit = (u128)1 << b; all = (o.prov && (*o.prov)[b] == p.first * 128 + (int)b) || (A.kz & o.kz & bit) || (A.ko & o.ko & bit); } if (all) return 1; }
    AV ta = iAdd(box[p.first], mkC(o.w, p.second)); if (ta.single() && o.single() && ta.lo() == o.lo()) return 1; for (auto &i : ta.iv) allow.push_back(i);
    if (e.aff.size() == 1 && e.tpl.empty() && !e.hasIn && o.aff == p.first && o.affc != p.second) return 2;
  }
  if (disjoint(o, allow)) return 2;
  return 0;
}
static bool relFeasible(const Query &q, const std::vector<AV> &box) {
  if (!q.rel) return true; const AV &a = box[0], &b = box[1];
  if (q.rel == 2) return !meet(a, b).bot();
  if (!q.isF[0]) { if (q.rel == 1) return a.lo() < b.hi(); return a.hi() > b.lo(); }
  unsigned m = fcmpMask(a, b); return q.rel == 1 ? (m & 1) : (m & 4);
}
static json::Value boxJ(const std::vector<AV> &b) { json::Array a; for (auto &x : b) { std::string s = str(x); if ((x.kz | x.ko) && !x.single()) { AV t = x; t.kz = t.ko = 0; norm(t); if (!sameSet(t, x)) s += " known1=" + hex(x.ko) + " known0=" + hex(x.kz); } a.push_back(s); } return a; }
static std::string feOr(const AV &a) { return str(a); }
static json::Object doQuery(const Query &q) {
  json::Object J; J["id"] = q.id; J["fn"] = q.fn; const Function *F = M->getFunction(q.fn);
  if (!F || F->isDeclaration()) { J["verdict"] = "error"; J["why"] = "no such function"; return J; }
  std::deque<std::vector<AV>> wl; { std::vector<AV> b0 = q.box; for (size_t i = 0; i < b0.size(); i++) if (q.isF[i]) b0[i] = canonF(b0[i], b0[i].w); wl.push_back(b0); }
  if (F->arg_size() != q.box.size()) { J["verdict"] = "error"; J["why"] = "arity"; return J; }
  long runs = 0, proven = 0, und = 0; json::Array us; std::string verdict = "proven"; long maxLoop = 0, steps = 0; std::set<std::string> traps, libm, unk, oob; json::Array outs;
  while (!wl.empty()) {
    std::vector<AV> box = wl.front(); wl.pop_front();
    bool empty = false; for (size_t i = 0; i < box.size(); i++) if (!q.ptr[i]) { if (q.isF[i]) box[i] = canonArg(box[i], box[i].w); if (box[i].bot()) empty = true; } if (empty) continue;
    if (q.rel == 2) { AV m = meet(box[0], box[1]); if (m.bot()) continue; box[0] = box[1] = m; }
    if (!relFeasible(q, box)) continue;
    size_t mark = OI.size(); Run R = runBox(q, F, box); runs++; maxLoop = std::max(maxLoop, R.C.maxLoop); steps += R.C.steps;
    for (auto &t : R.C.traps) traps.insert(t.first + " @ " + t.second); for (auto &l : R.C.libm) libm.insert(l); for (auto &l : R.C.unknown) unk.insert(l); for (auto &l : R.C.oob) oob.insert(l);
    int v = 1; std::string why; json::Object vo;
    if (!R.abort.empty()) { v = 0; why = R.abort; if (q.term && !R.C.branched && (why.rfind("step budget", 0) == 0 || why.rfind("loop bound", 0) == 0 || why.rfind("recursion depth", 0) == 0)) { v = 2; why = "does not return within the bound: " + why; } }
    else {
      std::string badTrap; for (auto &t : R.C.traps) { bool al = false; for (auto &a : q.allowTrap) if (t.first == a) al = true; if (!al) badTrap = t.first + " @ " + t.second; }
      if (q.noTrap && !badTrap.empty()) { v = R.r.ret ? 0 : 2; why = "reaches " + badTrap; }
      if (q.noOob) for (auto &o : R.C.oob) { if (o.rfind("must", 0) == 0 && R.C.splits.empty()) { v = 2; why = o; } else if (v == 1) { v = 0; why = o; } }
      if (!R.r.ret && v == 1) { if (q.ex.size()) { v = 0; why = "no normal return"; } }
      if (R.r.ret && v != 2) for (auto &e : q.ex) { AV o = outAV(R, e.out, 64); int j = judge(e, o, box); if (q.report) outs.push_back(e.out + "=" + str(o)); if (j == 2) { v = 2; why = e.out + " = " + str(o); break; } if (j == 0) { if (v == 1) v = 0; why = e.out + " = " + str(o); } }
      else if (q.report && R.r.ret) outs.push_back("ret=" + str(outAV(R, "ret", 64)));
    }
    if (v == 1) { proven++; }
    else if (v == 2) { verdict = "violated"; J["witness"] = boxJ(box); J["why"] = why; json::Array tr; for (auto &t : R.C.traps) tr.push_back(t.first + " @ " + t.second); J["traps_here"] = std::move(tr);
      std::vector<std::string> path; runBox(q, F, box, &path); json::Array pj; std::vector<std::string> u; for (auto &x : path) { if (x.find("w_") == 0 || x.find(".cpp:") != std::string::npos) continue; if (std::find(u.begin(), u.end(), x) == u.end()) u.push_back(x); } for (size_t i = u.size() > 40 ? u.size() - 40 : 0; i < u.size(); i++) pj.push_back(u[i]); if (!u.empty()) J["site"] = u.back(); J["trace"] = std::move(pj); break; }
    else {
      // split
      bool did = false;
      if (runs + (long)wl.size() < q.budget && steps < q.maxTotal) {
        const Split *best = nullptr; for (auto &s : R.C.splits) { best = &s; break; }
        int s80 = -1; for (size_t i = 0; i < box.size(); i++) if (q.isF[i] && box[i].w == 80 && !q.ptr[i] && sorts80(box[i]) == 3) { s80 = i; break; }
        if (s80 >= 0 && (!best || best->arg == s80)) { for (int k : {1, 2}) { auto nb = box; nb[s80] = sort80(box[s80], k); if (!nb[s80].bot()) wl.push_back(nb); } did = true; }
        else if (best) { for (auto &p : best->parts) { auto nb = box; nb[best->arg] = p; wl.push_back(nb); } did = true; }
        else {
          int bi = -1; u128 bc = 1; for (size_t i = 0; i < box.size(); i++) if (!q.ptr[i]) { u128 c = countAV(box[i]); if (q.rel == 2 && i) continue; if (c > bc) { bc = c; bi = i; } } if (q.prefer >= 0 && countAV(box[q.prefer]) > 1) bi = q.prefer;
          if (bi >= 0) { AV a = box[bi], x = a, y = a;
            if (a.iv.size() > 1) { size_t h = a.iv.size() / 2; x.iv.assign(a.iv.begin(), a.iv.begin() + h); y.iv.assign(a.iv.begin() + h, a.iv.end()); }
            else { u128 mid = a.iv[0].lo + (a.iv[0].hi - a.iv[0].lo) / 2; 
              // prefer a power-of-two boundary
              u128 d = a.iv[0].lo ^ a.iv[0].hi; int h = hibit(d); u128 cut = (a.iv[0].hi >> h) << h; if (cut > a.iv[0].lo && cut <= a.iv[0].hi) mid = cut - 1; x.iv[0].hi = mid; y.iv[0].lo = mid + 1; }
            norm(x); norm(y); if (!x.bot() && !y.bot()) { auto b1 = box, b2 = box; b1[bi] = x; b2[bi] = y; wl.push_back(b1); wl.push_back(b2); did = true; } else if (!x.bot() || !y.bot()) { auto b1 = box; b1[bi] = x.bot() ? y : x; if (!sameSet(b1[bi], box[bi])) { wl.push_back(b1); did = true; } } }
        }
      }
      if (!did) { und++; if (us.size() < 4) { json::Object u; u["box"] = boxJ(box); u["why"] = why; us.push_back(std::move(u)); } }
    }
    // release run-local objects: arguments and allocas created in this run (globals keep their ids)
    bool onlyLocal = true; for (size_t i = mark; i < OI.size(); i++) if (OI[i].gv) onlyLocal = false; if (onlyLocal) OI.resize(mark);
  }
  if (verdict == "proven" && und) verdict = "undecided";
  J["verdict"] = verdict; J["runs"] = runs; J["proven"] = proven; J["undecided"] = und; J["max_loop"] = maxLoop; J["steps"] = steps;
  auto put = [&](const char *k, std::set<std::string> &s) { if (s.empty()) return; json::Array a; int n = 0; for (auto &x : s) { if (n++ > 12) break; a.push_back(x); } J[k] = std::move(a); };
  put("traps", traps); put("libm", libm); put("unknown", unk); put("oob", oob); if (!us.empty()) J["undecided_boxes"] = std::move(us); if (!outs.empty()) J["outs"] = std::move(outs);
  return J;
}
static Query parseQ(const json::Object &o) {
  Query q; q.id = o.getString("id")->str(); q.fn = o.getString("fn")->str(); const Function *F = M->getFunction(q.fn);
  unsigned i = 0; for (auto &a : *o.getArray("args")) { auto *ao = a.getAsObject(); Type *t = F && i < F->arg_size() ? F->getArg(i)->getType() : nullptr; unsigned w = t ? scW(t) : 64; if (!w) w = 64; if (auto p = ao->getInteger("ptr")) { q.ptr.push_back(*p); q.box.push_back(mkTop(64)); q.isF.push_back(false); i++; continue; }
    AV v; v.w = w; if (auto *iv = ao->getArray("iv")) v.iv = jiv(*iv, w); else v.iv.push_back({0, maskw(w)}); if (auto *k = ao->get("kz")) v.kz = jnum(*k); if (auto *k = ao->get("ko")) v.ko = jnum(*k); norm(v); q.box.push_back(v); q.ptr.push_back(0); q.isF.push_back(t && isF(t)); i++; }
  if (auto *e = o.getArray("expect")) for (auto &x : *e) { auto *eo = x.getAsObject(); Expect ex; ex.out = eo->getString("out")->str(); if (auto *iv = eo->getArray("in")) { ex.hasIn = true; ex.in = jiv(*iv, 128); std::sort(ex.in.begin(), ex.in.end(), [](const IV &a, const IV &b) { return a.lo < b.lo; }); std::vector<IV> m; for (auto &z : ex.in) { if (!m.empty() && (z.lo <= m.back().hi || z.lo == m.back().hi + 1)) m.back().hi = std::max(m.back().hi, z.hi); else m.push_back(z); } ex.in = m; }
      if (auto *ts = eo->getArray("tpl")) for (auto &tv : *ts) { auto *to = tv.getAsObject(); Tpl t; if (auto *c = to->get("c")) t.c = jnum(*c); for (auto &sv : *to->getArray("segs")) { auto *sa = sv.getAsArray(); t.segs.push_back({(int)jnum((*sa)[0]), (unsigned)jnum((*sa)[1]), (unsigned)jnum((*sa)[2]), (unsigned)jnum((*sa)[3])}); } ex.tpl.push_back(t); }
      if (auto *as = eo->getArray("aff")) for (auto &av : *as) { auto *sa = av.getAsArray(); ex.aff.push_back({(int)jnum((*sa)[0]), jnum((*sa)[1])}); }
      q.ex.push_back(ex); }
  if (auto b = o.getInteger("budget")) q.budget = *b; if (auto b = o.getInteger("steps")) q.maxTotal = *b; if (auto b = o.getInteger("cap")) q.cap = *b; if (auto b = o.getInteger("rel")) q.rel = *b; if (auto b = o.getInteger("rms")) q.rms = *b; if (auto b = o.getInteger("prefer")) q.prefer = *b; if (auto b = o.getInteger("visits")) q.visits = *b; if (auto b = o.getBoolean("term")) q.term = *b; if (auto b = o.getBoolean("notrap")) q.noTrap = *b; if (auto b = o.getBoolean("nooob")) q.noOob = *b; if (auto b = o.getBoolean("fmaboth")) q.fmaBoth = *b; if (auto b = o.getBoolean("report")) q.report = *b;
  if (auto *a = o.getArray("allowtrap")) for (auto &x : *a) q.allowTrap.push_back(x.getAsString()->str());
  return q;
}
static void optimize(Module &Mod) {
  // bottom-up inlining budget: a callee is inlined only while its fully inlined size stays small
  std::map<const Function *, long> SZ; const long LIM = 700;
  std::function<long(const Function *)> sizeOf = [&](const Function *F) -> long { auto it = SZ.find(F); if (it != SZ.end()) return it->second; SZ[F] = LIM + 1; long n = 0; for (auto &B : *F) for (auto &I : B) { n++; if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *cf = cb->getCalledFunction(); cf && !cf->isDeclaration()) { long c = sizeOf(cf); if (c <= LIM) n += c; } } return SZ[F] = n; };
  for (auto &F : Mod) { F.removeFnAttr(Attribute::OptimizeNone); }
  { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM); ModulePassManager MPM; cantFail(PB.parsePassPipeline(MPM, "function(lower-expect,sroa,early-cse,simplifycfg)")); MPM.run(Mod, MAM); }
  for (auto &F : Mod) { if (F.isDeclaration()) continue; F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); if (!F.getName().startswith("w_")) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); if (sizeOf(&F) <= LIM) F.addFnAttr(Attribute::AlwaysInline); } }
  for (auto &G : Mod.globals()) if (!G.isDeclaration() && !G.getName().startswith("llvm.")) { G.setLinkage(GlobalValue::InternalLinkage); G.setComdat(nullptr); }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM; const char *P = getenv("ABSINT_PIPE"); cantFail(PB.parsePassPipeline(MPM, P ? P : "always-inline,globaldce,function(lower-expect,sroa,early-cse,simplifycfg,sroa,jump-threading,simplifycfg,sroa,early-cse,loop-simplify,lcssa)"));
  MPM.run(Mod, MAM);
}
int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage\n"; return 2; }
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(argv[1], err, ctx); if (!mod) { err.print("absint", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout(); OI.push_back({nullptr, 0, "null"}); OI.push_back({nullptr, 4, "errno"});
  optimize(*M);
  if (std::string(argv[2]) == "--dump") { M->print(outs(), nullptr); return 0; }
  int jobs = argc > 4 ? atoi(argv[4]) : 1; std::vector<std::string> lines; { std::ifstream f(argv[2]); std::string l; while (std::getline(f, l)) if (!l.empty()) lines.push_back(l); }
  int pfd[2]; std::vector<pid_t> pids; (void)pfd; std::string base = argv[3];
  // dynamic distribution through a shared counter file lock-free: a pipe of indices
  if (pipe(pfd)) return 2; std::vector<uint32_t> idx(lines.size()); 
  pid_t feeder = fork(); if (feeder == 0) { close(pfd[0]); for (uint32_t i = 0; i < lines.size(); i++) { if (write(pfd[1], &i, 4) != 4) break; } close(pfd[1]); _exit(0); }
  close(pfd[1]);
  for (int j = 0; j < jobs; j++) { pid_t p = fork(); if (p == 0) { std::ofstream o(base + "." + std::to_string(j)); uint32_t i; while (read(pfd[0], &i, 4) == 4) { auto v = json::parse(lines[i]); if (!v) { errs() << "bad query " << lines[i] << "\n"; _exit(3); } Query q = parseQ(*v->getAsObject()); json::Object r = doQuery(q); std::string s; raw_string_ostream os(s); os << json::Value(std::move(r)); os.flush(); o << s << "\n"; } o.close(); _exit(0); } pids.push_back(p); }
  close(pfd[0]); int bad = 0; for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; } int st; waitpid(feeder, &st, 0);
  std::ofstream out(base); for (int j = 0; j < jobs; j++) { std::string fn = base + "." + std::to_string(j); { std::ifstream f(fn); if (f.peek() != EOF) out << f.rdbuf(); } unlink(fn.c_str()); }
  if (bad) { errs() << "absint: a worker failed\n"; return 2; } return 0;
}
