// Transfer functions and the per-iteration abstract execution of one function body.
#pragma once
static Obj &mobj(State &S, int o) { // copy on write
  if (S.mem.use_count() > 1) S.mem = std::make_shared<Mem>(*S.mem);
  auto &sp = (*S.mem)[o]; if (!sp) sp = std::make_shared<Obj>(); else if (sp.use_count() > 1) sp = std::make_shared<Obj>(*sp);
  return *sp;
}
static void noteSplit(Ctx &C, Frame &fr, State &S, const Value *cond) {
  if (C.splits.size() > 6) return;
  // refine a scratch state both ways and look at the arguments
  State a = S, b = S; if (!refineCond(fr, a, cond, true, 12) || !refineCond(fr, b, cond, false, 12)) return;
  for (unsigned ai = 0; ai < fr.F->arg_size(); ai++) {
    const Value *A = fr.F->getArg(ai); Val cur = get(fr, S, A), x = get(fr, a, A), y = get(fr, b, A); if (cur.k != Val::Sc || x.k != Val::Sc || y.k != Val::Sc) continue;
    unsigned i = ai; if (!fr.top) { const AV &orig = fr.vals[fr.fi->id[A]].a; if (fr.vals[fr.fi->id[A]].k != Val::Sc || orig.aff < 0 || orig.affc || orig.w != C.box[orig.aff].w) continue; i = orig.aff; }
    if (sameSet(x.a, cur.a) && sameSet(y.a, cur.a)) continue;
    AV bx = meet(C.box[i], x.a), by = meet(C.box[i], y.a); if (bx.bot() || by.bot()) continue;
    Split s; s.arg = i;
    if (!sameSet(bx, C.box[i]) && !sameSet(by, C.box[i])) { s.parts = {bx, by}; C.splits.push_back(s); continue; }
    // one side is a proper subset: complement by intervals when it has no extra known bits
    AV &sub = sameSet(bx, C.box[i]) ? by : bx; AV rest = C.box[i]; std::vector<IV> o;
    AV pure = sub; pure.kz = pure.ko = 0; norm(pure);
    AV whole = meet(C.box[i], pure);
    if (sameSet(whole, sub)) { // interval shaped
      for (auto &i0 : C.box[i].iv) { u128 cur0 = i0.lo; bool done = false; for (auto &j : sub.iv) { if (j.hi < cur0 || j.lo > i0.hi) continue; if (j.lo > cur0) o.push_back({cur0, j.lo - 1}); if (j.hi >= i0.hi) { done = true; break; } cur0 = j.hi + 1; } if (!done && cur0 <= i0.hi) o.push_back({cur0, i0.hi}); }
      rest.iv = o; norm(rest); if (rest.bot() || rest.iv.size() > MAXIV) continue; s.parts = {sub, rest}; C.splits.push_back(s);
    } else { // known bits differ: split on one such bit
      u128 d = (sub.kz | sub.ko) & ~(C.box[i].kz | C.box[i].ko); if (!d) continue; u128 bit = (u128)1 << hibit(d); AV p = C.box[i], q = C.box[i]; p.kz |= bit; q.ko |= bit; norm(p); norm(q); if (p.bot() || q.bot()) continue; s.parts = {p, q}; C.splits.push_back(s);
    }
  }
}
static AV clampF(AV r, unsigned w, long double lo, long double hi) { return meet(r, fRange(w, lo, false, hi, false, true)); }
// ---- trusted contracts of platform libm functions (C23 Annex F); only used for runtime images
static long double hostCall(const std::string &n, unsigned w, long double x, long double y, bool &ok) {
  ok = true;
#define U(f) if (n == #f) return w == 32 ? (long double)std::f((float)x) : w == 64 ? (long double)std::f((double)x) : std::f(x);
#define B(f) if (n == #f) return w == 32 ? (long double)std::f((float)x, (float)y) : w == 64 ? (long double)std::f((double)x, (double)y) : std::f(x, y);
  U(exp) U(exp2) U(expm1) U(log) U(log2) U(log10) U(log1p) U(cbrt) U(sin) U(cos) U(tan) U(asin) U(acos) U(atan) U(tgamma) U(lgamma) U(logb)
  B(pow) B(hypot) B(atan2) B(fmod) B(remainder) B(fdim) B(nextafter)
#undef U
#undef B
  ok = false; return 0;
}
static AV libmAV(const std::string &n, unsigned w, const AV &a, const AV *b, unsigned rms) {
  FV x = toFV(a); AV r; r.w = w; bool ok;
  AV T = mkTop(w);
  if (!b) {
    if (x.nan) putNaN(r);
    static const std::set<std::string> inc = {"exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "cbrt", "asin", "atan"};
    bool I = inc.count(n), D = n == "acos";
    for (auto &p : x.c) {
      long double l = p.neg ? -p.hi : p.lo, h = p.neg ? -p.lo : p.hi;
      if (l == h || p.lo == p.hi) { volatile long double v = p.neg ? -p.lo : p.lo; long double q = hostCall(n, w, v, 0, ok); if (!ok) return T; if (q != q) { putNaN(r); continue; }
        if (p.lo == 0 || p.lo == (long double)INFINITY || q == 0 || std::isinf(q)) { u128 bb = ldToBits(q, w); r.iv.push_back({bb, bb}); continue; } }
      if (I || D) {
        // domain
        long double dl = -INFINITY, dh = INFINITY; if (n == "log" || n == "log2" || n == "log10") dl = 0; if (n == "log1p") dl = -1; if (n == "asin" || n == "acos") dl = -1, dh = 1;
        if (l < dl || h > dh) putNaN(r);
        long double cl = std::max(l, dl), ch = std::min(h, dh); if (cl > ch) continue;
        long double u = hostCall(n, w, I ? cl : ch, 0, ok), v = hostCall(n, w, I ? ch : cl, 0, ok);
        // +-4 ulp
        auto wid = [&](long double q, bool up) { if (std::isinf(q)) { if ((q > 0) == up) return q; } u128 bb = ldToBits(q, w); u128 s = fSign(w), m = bb & ~s; bool ng = bb & s; bool grow = up != ng; for (int i = 0; i < 4; i++) { if (grow) { if (m < fInf(w)) m++; } else { if (m > 0) m--; } if (w == 80) m = grow ? canonUp(m) : canonDn(m); } return bitsToLD(m | (bb & s), w); };
        long double lo = wid(u, false), hi = wid(v, true);
        if (n == "exp" || n == "exp2") lo = std::max<long double>(lo, 0); if (n == "expm1") lo = std::max<long double>(lo, -1);
        bool odd = n == "expm1" || n == "log1p" || n == "cbrt" || n == "asin" || n == "atan";
        if (odd) { if (p.neg) hi = std::min<long double>(hi, 0); else lo = std::max<long double>(lo, 0); }
        if (n == "acos") lo = std::max<long double>(lo, 0);
        bool pz = lo <= 0 && hi >= 0, nz = pz && odd && p.neg; if (nz) pz = false;
        putRange(r, lo, hi, pz, nz);
      } else if (n == "sin" && p.hi < 3.1415L) { long double a = hostCall(n, w, p.lo, 0, ok), b = hostCall(n, w, p.hi, 0, ok), lo = std::min(a, b) * (1 - 0x1p-21L), hi = p.lo <= 1.571L && p.hi >= 1.57L ? 1 : std::max(a, b) * (1 + 0x1p-21L) + 3 * minDen(w); putMag(r, p.neg, lo > 0 ? std::max(minDen(w), lo - 3 * minDen(w)) : 0, std::min<long double>(hi, 1)); }
      else if (n == "cos" && p.hi < 3.1415L) { long double a = hostCall(n, w, p.hi, 0, ok), b = hostCall(n, w, p.lo, 0, ok); putRange(r, std::max(-1.0L, a - fabsl(a) * 0x1p-21L), std::min(1.0L, b + fabsl(b) * 0x1p-21L), false, false); }
      else if (n == "sin" || n == "cos") { if (h == (long double)INFINITY || l == -(long double)INFINITY) putNaN(r); AV t = fRange(w, -1, false, 1, false, false); r.iv.insert(r.iv.end(), t.iv.begin(), t.iv.end()); }
      else if (n == "tgamma" || n == "lgamma") {
        bool tg = n == "tgamma"; long double I = INFINITY, INTEGRAL = ldexpl(1, w == 32 ? 23 : w == 64 ? 52 : 63); if (p.neg && p.lo == 0) return T;
        if (p.neg) { if (p.lo >= INTEGRAL) { if (tg) putNaN(r); else putMag(r, false, I, I); } else return T; }
        else if (p.lo >= 2) { long double lo = hostCall(n, w, p.lo, 0, ok), hi = hostCall(n, w, p.hi, 0, ok); auto wd = [&](long double q, bool up) { if (std::isinf(q)) return up ? q : (w == 32 ? (long double)FLT_MAX : w == 64 ? (long double)DBL_MAX : LDBL_MAX); u128 m = ldToBits(q, w); for (int k = 0; k < 16; k++) { if (up) { if (m < fInf(w)) m = w == 80 ? canonUp(m + 1) : m + 1; } else if (m) m = w == 80 ? canonDn(m - 1) : m - 1; } return bitsToLD(m, w); }; putMag(r, false, p.lo == I ? I : wd(lo, false), wd(hi, true)); }
        else return T; }
      else if (n == "tan") { if (p.hi == (long double)INFINITY) putNaN(r); if (p.lo == (long double)INFINITY) continue; if (p.hi < 1.57L) { long double lo = hostCall(n, w, p.lo, 0, ok), hi = hostCall(n, w, p.hi, 0, ok); hi = hi * (1 + 0x1p-21L) + 3 * minDen(w); putMag(r, p.neg, std::max(p.lo, lo * (1 - 0x1p-21L)), hi); } else { AV t = mkTop(w); for (auto &iv : fRange(w, -(long double)INFINITY, false, (long double)INFINITY, false, false).iv) r.iv.push_back(iv); } }
      else if (n == "logb") { long double v1 = hostCall(n, w, p.lo, 0, ok), v2 = hostCall(n, w, p.hi, 0, ok); putRange(r, v1, v2, v1 <= 0 && v2 >= 0, false); }
      else return T;
    }
    return finF(r);
  }
  FV y = toFV(*b);
  const long double I = INFINITY; unsigned P = w == 32 ? 24 : w == 64 ? 53 : 64; long double INTEGRAL = ldexpl(1, P - 1), EVEN = ldexpl(1, P);
  if (n == "pow") {
    if (x.nan || y.nan) { bool y0 = false, x1 = false, yn = y.nan, xn = x.nan; for (auto &p : y.c) y0 |= p.lo == 0, yn |= p.hi != 0; for (auto &p : x.c) x1 |= !p.neg && p.lo <= 1 && p.hi >= 1, xn |= p.neg || p.lo != 1 || p.hi != 1; if ((x.nan && yn) || (y.nan && xn)) putNaN(r); if ((x.nan && y0) || (y.nan && x1)) { putMag(r, false, 1, 1); } }
  } else if (n == "hypot") {
    if (x.nan || y.nan) { bool xf = x.nan, yf = y.nan; for (auto &p : x.c) xf |= p.lo != I; for (auto &p : y.c) yf |= p.lo != I; if ((x.nan && yf) || (y.nan && xf)) putNaN(r); bool inf = false; if (y.nan) for (auto &p : x.c) inf |= p.hi == I; if (x.nan) for (auto &p : y.c) inf |= p.hi == I; if (inf) putMag(r, false, I, I); }
  } else if (x.nan || y.nan) putNaN(r);
  auto wid = [&](long double q, bool up) { u128 bb = ldToBits(q, w), m = bb & ~fSign(w); bool ng = bb & fSign(w); for (int k = 0; k < 4; k++) { if (up != ng) { if (m < fInf(w)) m = w == 80 ? canonUp(m + 1) : m + 1; } else if (m) m = w == 80 ? canonDn(m - 1) : m - 1; else break; } return bitsToLD(m | (ng ? fSign(w) : 0), w); };
  int par = -1; // parity of y from its known bits: 0 even, 1 odd integer, 2 not an integer
  if (n == "pow" && !y.nan && y.c.size() == 1) { u128 m0 = b->iv[0].lo & ~fSign(w), m1 = b->iv.back().hi & ~fSign(w); unsigned eb = P - 1 + (w == 80 ? 1 : 0); if (m0 >> eb == m1 >> eb && b->iv.size() == 1) { int e = (int)(m0 >> eb) - (w == 32 ? 127 : w == 64 ? 1023 : 16383); if (e >= 0 && e < (int)P) { u128 lowm = (((u128)1) << (P - 1 - e)) - 1, one = ((u128)1) << (P - 1 - e); bool oneImpl = e == 0; if (b->ko & lowm) par = 2; else if ((b->kz & lowm) == lowm) { if (oneImpl || (b->ko & one)) par = 1; else if (b->kz & one) par = 0; } } } }
  if ((n == "fmod" || n == "remainder") && !x.nan && !y.nan && !x.c.empty()) { bool id = true; for (auto &p : x.c) for (auto &q : y.c) if (p.hi == I || !(p.hi < (n == "fmod" ? q.lo : q.lo / 2))) id = false; if (id) return a; }
  for (auto &p : x.c) for (auto &q : y.c) {
    if (n == "pow") {
      FC qq = q; if (qq.lo == 0) { putMag(r, false, 1, 1); if (qq.hi == 0) continue; qq.lo = minDen(w); }
      if (!p.neg && p.lo == 1 && p.hi == 1) { putMag(r, false, 1, 1); continue; }
      long double lo = I, hi = 0; for (long double u : {p.lo, p.hi}) for (long double v : {qq.lo, qq.hi}) { long double z = hostCall("pow", w, u, qq.neg ? -v : v, ok); lo = std::min(lo, z); hi = std::max(hi, z); }
      bool exact = (p.lo == p.hi && (p.lo == 0 || p.lo == I)) || qq.lo == I; if (!exact) { lo = wid(lo, false); hi = wid(hi, true); }
      bool pos = true, neg = false;
      if (p.neg) {
        if (qq.hi == I || qq.lo >= EVEN) { if (qq.lo < EVEN) neg = true; }
        else if (par == 1) { neg = true; pos = false; } else if (par == 0) neg = false;
        else if (qq.lo == qq.hi && truncl(qq.lo) == qq.lo) { neg = fmodl(qq.lo, 2) != 0; pos = !neg; }
        else if (floorl(qq.lo) == floorl(qq.hi) && truncl(qq.lo) != qq.lo && truncl(qq.hi) != qq.hi) neg = false;
        else neg = true;
        bool allInt = qq.lo >= INTEGRAL || par == 0 || par == 1, base = p.hi > 0 && p.lo < I;
        bool noInt = floorl(qq.lo) == floorl(qq.hi) && truncl(qq.lo) != qq.lo && qq.hi < I;
        if (base && !allInt && !(qq.lo == qq.hi && truncl(qq.lo) == qq.lo)) { putNaN(r); if (noInt) { if (p.lo == 0) { long double z = qq.neg ? I : 0; putMag(r, false, z, z); } if (p.hi == I) { long double z = qq.neg ? 0 : I; putMag(r, false, z, z); } continue; } }
      }
      if (pos) putMag(r, false, lo, hi);
      if (neg) putMag(r, true, lo, hi);
      continue;
    }
    if (p.lo == p.hi && q.lo == q.hi) { volatile long double u = p.neg ? -p.lo : p.lo, v = q.neg ? -q.lo : q.lo; bool sp = p.lo == 0 || q.lo == 0 || std::isinf(p.lo) || std::isinf(q.lo); long double z = hostCall(n, w, u, v, ok); if (!ok) return T; bool exact = n == "fmod" || n == "remainder" || (n == "fdim" && rms == 1) || n == "nextafter"; if (z != z) { putNaN(r); continue; } if (sp || exact) { u128 bb = ldToBits(z, w); r.iv.push_back({bb, bb}); continue; } }
    if (n == "fmod") { if (p.hi == I || q.lo == 0) putNaN(r); if (p.lo == I || q.hi == 0) continue; long double ph = p.hi == I ? (w == 32 ? FLT_MAX : w == 64 ? (long double)DBL_MAX : LDBL_MAX) : p.hi; if (ph < q.lo) putMag(r, p.neg, p.lo, ph); else putMag(r, p.neg, 0, std::min(ph, q.hi)); }
    else if (n == "remainder") { if (p.hi == I || q.lo == 0) putNaN(r); if (p.lo == I || q.hi == 0) continue; long double ph = p.hi == I ? (w == 32 ? FLT_MAX : w == 64 ? (long double)DBL_MAX : LDBL_MAX) : p.hi; if (ph < q.lo / 2) { putMag(r, p.neg, p.lo, ph); continue; } long double m = std::min(ph, q.hi / 2); putMag(r, p.neg, 0, m); if (m > 0 && ph > q.lo / 2) putMag(r, !p.neg, minDen(w), std::max(m, minDen(w))); }
    else if (n == "hypot") { long double lo = hostCall(n, w, p.lo, q.lo, ok), hi = hostCall(n, w, p.hi, q.hi, ok); putMag(r, false, p.lo == I || q.lo == I ? I : std::max(std::max(p.lo, q.lo), wid(lo, false)), p.hi == 0 && q.hi == 0 ? 0 : p.hi == 0 || q.hi == 0 ? std::max(p.hi, q.hi) : wid(hi, true)); }
    else if (n == "atan2") { long double lo = 8, hi = 0; for (long double u : {p.lo, p.hi}) for (long double v : {q.lo, q.hi}) { long double z = hostCall(n, w, u, q.neg ? -v : v, ok); lo = std::min(lo, z); hi = std::max(hi, z); } if (hi == 0 && (p.hi == 0 || q.lo == I)) putMag(r, p.neg, 0, 0); else putMag(r, p.neg, wid(lo, false), wid(hi, true)); }
    else if (n == "fdim") { long double xl = p.neg ? -p.hi : p.lo, xh = p.neg ? -p.lo : p.hi, yl = q.neg ? -q.hi : q.lo, yh = q.neg ? -q.lo : q.hi; auto sb = [&](long double u, long double v) { if (u == v || u < v) return (long double)0; return hostCall("fdim", w, u, v, ok); }; long double lo = sb(xl, yh), hi = sb(xh, yl); if (rms != 1) { if (lo > 0) lo = wid(lo, false); if (hi > 0) hi = wid(hi, true); } putMag(r, false, lo, hi); }
    else return T;
  }
  return finF(r);
}
static u128 magNext(u128 m, unsigned w) { return w == 80 ? canonUp(m + 1) : m + 1; }
static u128 magPrev(u128 m, unsigned w) { return w == 80 ? canonDn(m - 1) : m - 1; }
// a with k added to its exponent field, met with r, when every value stays normal; else r
static AV shiftExp(const AV &a, i128 k, bool neg, const AV &r) {
  if (a.bot() || r.bot() || a.single()) return r;
  unsigned w = a.w, mb = w == 32 ? 23 : w == 64 ? 52 : 64; u128 sg = (u128)1 << (w - 1), em = (sg - 1) >> mb;
  for (auto &p : a.iv) {
    if ((p.lo & sg) != (p.hi & sg)) return r;
    for (u128 b : {p.lo, p.hi}) { i128 e = (i128)((b & (sg - 1)) >> mb); if (e < 1 || e >= (i128)em || e + k < 1 || e + k >= (i128)em) return r; }
  }
  AV s = iAdd(a, mkC(w, ((u128)k << mb) & maskw(w))); if (neg) s = iXor(s, mkC(w, sg));
  AV m = meet(r, s); if (m.bot()) return r;
  m.aff = s.aff; m.affc = s.affc; m.prov = s.prov; return m;
}
static AV ldexpAV(const AV &x, const AV &e, unsigned rms) {
  AV r; r.w = x.w; if (x.bot() || e.bot()) return r; FV f = toFV(x); if (f.nan) putNaN(r);
  i128 e1 = 0, e2 = 0; bool first = true; u128 sb = (u128)1 << (e.w - 1);
  for (auto &p : e.iv) { i128 lo, hi; if (p.lo < sb && p.hi >= sb) { lo = -(i128)sb; hi = (i128)sb - 1; } else { lo = (i128)p.lo - (p.lo >= sb ? (i128)sb * 2 : 0); hi = (i128)p.hi - (p.hi >= sb ? (i128)sb * 2 : 0); } if (first || lo < e1) e1 = lo; if (first || hi > e2) e2 = hi; first = false; }
  auto cl = [](i128 v) { return (int)std::max<i128>(-70000, std::min<i128>(70000, v)); };
  auto ev = [&](long double v, int k, bool up, bool neg) -> long double {
    if (v == 0 || std::isinf(v)) return v;
    if (rms == 2 || rms == 4 || rms == 8) { // one directed mode: glibc's result under that mode (v is a magnitude, so mirror the mode for negatives)
      int md = rms == 8 ? FE_TOWARDZERO : (rms == 2) != neg ? FE_DOWNWARD : FE_UPWARD; fesetround(md); volatile long double z = x.w == 32 ? (long double)ldexpf((float)v, k) : x.w == 64 ? (long double)ldexp((double)v, k) : ldexpl(v, k); fesetround(FE_TONEAREST); return (long double)z; }
    volatile long double z = x.w == 32 ? (long double)ldexpf((float)v, k) : x.w == 64 ? (long double)ldexp((double)v, k) : ldexpl(v, k);
    if (rms != 1) { long double back = std::isinf((long double)z) || z == 0 ? 0 : x.w == 80 ? ldexpl(z, -k) : ldexpl(z, -k); if (back != v) { u128 b = ldToBits(z, x.w); if (up) { if (!std::isinf((long double)z)) b = magNext(b, x.w); } else if (b) b = magPrev(b, x.w); return bitsToLD(b, x.w); } }
    return z;
  };
  for (auto &p : f.c) putMag(r, p.neg, ev(p.lo, cl(e1), false, p.neg), ev(p.hi, cl(e2), true, p.neg));
  r = finF(r);
  return e.single() ? shiftExp(x, e1, false, r) : r;
}
static void frexpAV(const AV &x, AV &m, AV &e) {
  m = AV(); e = AV(); m.w = x.w; e.w = 32; FV f = toFV(x); if (f.nan) { putNaN(m); e.iv.push_back({0, maskw(32)}); }
  for (auto &p : f.c) {
    long double lo = p.lo, hi = p.hi; if (hi == (long double)INFINITY) { putMag(m, p.neg, hi, hi); e.iv.push_back({0, maskw(32)}); if (lo == hi) continue; hi = x.w == 32 ? (long double)FLT_MAX : x.w == 64 ? (long double)DBL_MAX : LDBL_MAX; }
    if (lo == 0) { putMag(m, p.neg, 0, 0); e.iv.push_back({0, 0}); if (hi == 0) continue; lo = minDen(x.w); }
    int a, b; long double ma = frexpl(lo, &a), mb = frexpl(hi, &b); if (a == b) putMag(m, p.neg, ma, mb); else { unsigned P = x.w == 32 ? 24 : x.w == 64 ? 53 : 64; putMag(m, p.neg, 0.5L, 1 - ldexpl(1, -(int)P)); }
    AV t = fromSigned(32, a, b); for (auto &i : t.iv) e.iv.push_back(i);
  }
  m = finF(m); norm(e);
  if (x.single()) return; unsigned w = x.w, mb = w == 32 ? 23 : w == 64 ? 52 : 64; u128 sg = (u128)1 << (w - 1), em = (sg - 1) >> mb;
  for (auto &p : x.iv) { if ((p.lo & sg) != (p.hi & sg)) return; for (u128 b : {p.lo, p.hi}) { u128 q = (b & (sg - 1)) >> mb; if (q < 1 || q >= em) return; } }
  AV s = iOr(iAnd(x, mkC(w, sg | (((u128)1 << mb) - 1))), mkC(w, ((em >> 1) - 1) << mb)), q = meet(m, s); if (q.bot()) return; q.prov = s.prov; m = q;
}
static AV modfFrac(const AV &x) {
  AV r; r.w = x.w; FV f = toFV(x); if (f.nan) putNaN(r); unsigned P = x.w == 32 ? 24 : x.w == 64 ? 53 : 64;
  for (auto &p : f.c) {
    if (p.hi < 1) { putMag(r, p.neg, p.lo, p.hi); continue; }
    if (p.lo == (long double)INFINITY) { putMag(r, p.neg, 0, 0); continue; }
    if (p.hi < (long double)INFINITY && truncl(p.lo) == truncl(p.hi)) putMag(r, p.neg, p.lo - truncl(p.lo), p.hi - truncl(p.hi)); else putMag(r, p.neg, 0, 1 - ldexpl(1, -(int)P));
  }
  return finF(r);
}
// nextafter / nexttoward: one representable step from x toward y (y in a format at least as wide)
static AV nextAV(Ctx &C, const AV &x, const AV &yw, const AV &xw, const AV *ySame) {
  unsigned w = x.w; u128 sg = fSign(w), inf = fInf(w); AV r; r.w = w; FV fx = toFV(x), fy = toFV(yw); if (fx.nan || fy.nan) putNaN(r); if (fx.c.empty() || fy.c.empty()) return finF(r);
  unsigned m = fcmpMask(xw, yw); if (ySame) m &= relMask(C, x, *ySame, true);
  int naff = 0; u128 affc = 0; bool oneaff = !fx.nan && !fy.nan && !(m & 2);
  if (m & 2) { if (ySame) { AV e = *ySame; AV c = canonF(e, w); for (auto &i : c.iv) { if ((i.lo & ~sg) <= inf) r.iv.push_back(i); } if (m == 2) { AV q = e; return q; } } else { AV c = canonF(x, w); for (auto &i : c.iv) r.iv.push_back(i); for (auto z : {(u128)0, sg}) r.iv.push_back({z, z}); } }
  AV cx = canonF(x, w);
  for (int dir : {1, 4}) if (m & dir) for (auto &i0 : cx.iv) for (int ng = 0; ng < 2; ng++) {
    u128 lo = std::max(i0.lo, ng ? sg : (u128)0), hi = std::min(i0.hi, ng ? sg | inf : inf); if (lo > hi) continue; lo &= ~sg; hi &= ~sg; bool grow = (dir == 1) != (bool)ng; u128 S = ng ? sg : 0;
    if (lo == 0) { u128 t = dir == 1 ? 1 : (sg | 1); r.iv.push_back({t, t}); oneaff = false; if (hi == 0) continue; lo = 1; }
    if (grow) { if (hi == inf) { if (lo == inf) continue; hi = magPrev(inf, w); } u128 a = magNext(lo, w), b = magNext(hi, w); r.iv.push_back({a | S, b | S}); if (w == 80 && (lo >> 64 != b >> 64)) oneaff = false; naff |= 1; affc = 1; }
    else { u128 a = magPrev(lo, w), b = magPrev(hi, w); r.iv.push_back({a | S, b | S}); if (w == 80 && (a >> 64 != hi >> 64)) oneaff = false; naff |= 2; affc = maskw(w); }
  }
  r = finF(r); if (oneaff && x.aff >= 0 && (naff == 1 || naff == 2)) { r.aff = x.aff; r.affc = (x.affc + affc) & maskw(w); } return r;
}
static Val loadFrom(Frame &fr, State &S, const Value *pv, Type *t, const Instruction *I) {
  Val p = get(fr, S, pv); Ctx &C = *fr.C;
  if (p.k != Val::Ptr) { C.unknown.insert("load through unknown pointer"); return vTop(t); }
  unsigned sz = DL->getTypeStoreSize(t); Val r; 
  for (auto &q : p.p) {
    if (q.obj == OBJ_NULL) { C.oob.insert("null load @ " + locOf(I)); continue; }
    const ObjInfo &oi = OI[q.obj];
    if (oi.gv && oi.gv->isConstant() && oi.gv->hasInitializer()) {
      long n = 0; bool any = false, bad = false;
      for (auto &iv : q.off.iv) { u128 k = iv.lo; while (true) { u128 kk; if (!nextMatch(k, q.off.kz, q.off.ko, 64, kk) || kk > iv.hi) break; int64_t off = (int64_t)(uint64_t)kk;
          if (off < 0 || off + (int64_t)sz > oi.size) { bad = true; if (off >= 0 && (u128)off < (u128)1 << 62 ) { } break; } any = true; r = joinV(r, loadConst(oi.gv, t, off)); if (++n > 8192) { r = vTop(t); break; } k = kk + 1; if (k == 0 || kk == iv.hi) break; } if (n > 8192) break; }
      if (bad) C.oob.insert((any ? std::string("may ") : std::string("must ")) + "out-of-bounds read of " + oi.name + " @ " + locOf(I));
      if (!any && r.k == Val::Bot) r = vTop(t);
      continue;
    }
    auto it = S.mem->find(q.obj);
    if (it == S.mem->end()) { if (q.obj == OBJ_ERRNO) { r = joinV(r, vS(mkC(32, ERRNO_INIT))); continue; } r = joinV(r, vTop(t)); continue; }
    Obj &o = *it->second;
    auto loadAt = [&](int64_t off) -> Val {
      if (o.size >= 0 && (off < 0 || off + (int64_t)sz > o.size)) { C.oob.insert("may out-of-bounds read @ " + locOf(I)); return vTop(t); }
      auto c = o.c.find(off); if (c != o.c.end() && c->second.size == sz) { Val v = c->second.v; if (v.k == Val::Sc && scW(t) && v.a.w != scW(t)) { if (v.a.w > scW(t)) return vS(iTrunc(v.a, scW(t))); return vTop(t); } if (v.k == Val::Sc && t->isPointerTy()) return vUnk(); if (v.k == Val::Ptr && scW(t)) return vTop(t); return v; }
      // composed from / part of other cells
      unsigned w = scW(t); if (!w || w < 8) return vTop(t);
      AV acc = mkC(w, 0); int64_t pos = off;
      while (pos < off + (int64_t)sz) {
        auto c2 = o.c.upper_bound(pos); bool got = false;
        if (c2 != o.c.begin()) { --c2; if (c2->first <= pos && c2->first + (int64_t)c2->second.size > pos) {
            if (c2->second.v.k != Val::Sc) return vTop(t);
            AV v = c2->second.v.a; unsigned sh = (pos - c2->first) * 8; int64_t take = std::min<int64_t>(c2->first + c2->second.size, off + sz) - pos;
            if (v.w < c2->second.size * 8 && v.w != 8 && v.w != 16 && v.w != 32 && v.w != 64 && v.w != 128) v = iZext(v, std::min<unsigned>(128, c2->second.size * 8));
            if (sh >= v.w || take * 8 > 128) return vTop(t);
            AV part = iLshrC(v, sh); if (take * 8 < part.w) part = iTrunc(part, take * 8);
            AV wide = part.w < w ? iZext(part, w) : part.w > w ? iTrunc(part, w) : part; acc = iOr(acc, iShlC(wide, (pos - off) * 8)); pos += take; got = true; } }
        if (!got) { if (!o.zero) return vTop(t); auto nx = o.c.lower_bound(pos); int64_t e = nx == o.c.end() ? off + sz : std::min<int64_t>(nx->first, off + sz); pos = e; }
      }
      return vS(acc);
    };
    if (q.off.single()) r = joinV(r, loadAt((int64_t)(uint64_t)q.off.lo()));
    else { long n = 0; for (auto &iv : q.off.iv) { u128 k = iv.lo; while (true) { u128 kk; if (!nextMatch(k, q.off.kz, q.off.ko, 64, kk) || kk > iv.hi) break; if (++n > 512) break; r = joinV(r, loadAt((int64_t)(uint64_t)kk)); k = kk + 1; if (kk == iv.hi) break; } if (n > 512) { r = vTop(t); break; } } }
  }
  if (r.k == Val::Bot) r = vTop(t);
  return r;
}
static void killRange(Obj &o, int64_t off, int64_t sz) {
  // cut cells overlapping [off, off+sz)
  auto it = o.c.lower_bound(off - 256); std::vector<std::pair<int64_t, Cell>> add; bool hadZero = o.zero;
  while (it != o.c.end() && it->first < off + sz) {
    int64_t b = it->first, e = b + it->second.size;
    if (e <= off) { ++it; continue; }
    if (it->second.v.k == Val::Sc && it->second.size <= 16) {
      AV v = it->second.v.a;
      if (v.w == it->second.size * 8) { if (b < off) add.push_back({b, Cell{(unsigned)(off - b), vS(iTrunc(v, (off - b) * 8))}}); if (e > off + sz) { unsigned sh = (off + sz - b) * 8; add.push_back({off + sz, Cell{(unsigned)(e - off - sz), vS(iTrunc(iLshrC(v, sh), (e - off - sz) * 8))}}); } }
      else { if (b < off) add.push_back({b, Cell{(unsigned)(off - b), vUnk()}}); if (e > off + sz) add.push_back({off + sz, Cell{(unsigned)(e - off - sz), vUnk()}}); }
    } else { if (b < off) add.push_back({b, Cell{(unsigned)(off - b), vUnk()}}); if (e > off + sz) add.push_back({off + sz, Cell{(unsigned)(e - off - sz), vUnk()}}); }
    it = o.c.erase(it);
  }
  for (auto &a : add) o.c[a.first] = a.second; (void)hadZero;
}
static void storeTo(Frame &fr, State &S, const Value *pv, Val v, Type *t, const Instruction *I) {
  Val p = get(fr, S, pv); Ctx &C = *fr.C; unsigned sz = DL->getTypeStoreSize(t);
  if (p.k != Val::Ptr) { C.unknown.insert("store through unknown pointer @ " + locOf(I)); throw Abort{"store through unknown pointer"}; }
  auto put = [&](Obj &o, int64_t off, const Val &x, bool strong) {
    if (o.size >= 0 && (off < 0 || off + (int64_t)sz > o.size)) { C.oob.insert("may out-of-bounds write @ " + locOf(I)); return; }
    if (strong) { killRange(o, off, sz); o.c[off] = Cell{sz, x}; }
    else { auto c = o.c.find(off); if (c != o.c.end() && c->second.size == sz) c->second.v = joinV(c->second.v, x); else { killRange(o, off, sz); o.c[off] = Cell{sz, vUnk()}; } }
  };
  if ((t->isAggregateType() || t->isVectorTy()) && v.k == Val::Agg) { // split
    if (p.p.size() != 1 || !p.p[0].off.single()) { for (auto &q : p.p) { Obj &o = mobj(S, q.obj); o.c.clear(); o.zero = false; } return; }
    Obj &o = mobj(S, p.p[0].obj); int64_t base = (int64_t)(uint64_t)p.p[0].off.lo(); killRange(o, base, sz);
    for (unsigned i = 0; i < v.g.size(); i++) { Type *et; int64_t eo; if (auto *st = dyn_cast<StructType>(t)) { et = st->getElementType(i); eo = DL->getStructLayout(st)->getElementOffset(i); } else if (auto *at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); eo = i * DL->getTypeAllocSize(et); } else { et = cast<FixedVectorType>(t)->getElementType(); eo = i * DL->getTypeStoreSize(et); }
      o.c[base + eo] = Cell{(unsigned)DL->getTypeStoreSize(et), v.g[i]}; }
    return;
  }
  for (auto &q : p.p) {
    if (q.obj == OBJ_NULL) { C.oob.insert("null store @ " + locOf(I)); continue; }
    if (OI[q.obj].gv) { C.unknown.insert("store to global " + OI[q.obj].name); }
    Obj &o = mobj(S, q.obj);
    if (p.p.size() == 1 && q.off.single()) put(o, (int64_t)(uint64_t)q.off.lo(), v, true);
    else { long n = 0; for (auto &iv : q.off.iv) { u128 k = iv.lo; while (true) { u128 kk; if (!nextMatch(k, q.off.kz, q.off.ko, 64, kk) || kk > iv.hi) break; if (++n > 512) break; put(o, (int64_t)(uint64_t)kk, v, false); k = kk + 1; if (kk == iv.hi) break; } if (n > 512) { o.c.clear(); o.zero = false; break; } } }
  }
}
static std::shared_ptr<Mem> joinMem(const std::shared_ptr<Mem> &a, const std::shared_ptr<Mem> &b) {
  if (a == b) return a;
  auto r = std::make_shared<Mem>();
  for (auto &kv : *a) { auto it = b->find(kv.first); if (it == b->end()) { if (kv.first == OBJ_ERRNO) { auto o = std::make_shared<Obj>(*kv.second); o->c[0] = Cell{4, joinV(o->c[0].v, vS(mkC(32, ERRNO_INIT)))}; (*r)[kv.first] = o; } else (*r)[kv.first] = kv.second; continue; }
    if (it->second == kv.second) { (*r)[kv.first] = kv.second; continue; }
    auto o = std::make_shared<Obj>(); o->size = kv.second->size; o->zero = kv.second->zero && it->second->zero;
    auto pick = [&](const Obj &x, const Obj &y) { for (auto &c : x.c) { auto d = y.c.find(c.first); if (d != y.c.end() && d->second.size == c.second.size) o->c[c.first] = Cell{c.second.size, joinV(c.second.v, d->second.v)}; else {
            // other side: absent. zero-filled there?
            bool overl = false; auto u = y.c.upper_bound(c.first + c.second.size - 1); if (u != y.c.begin()) { --u; if (u->first + (int64_t)u->second.size > c.first) overl = true; }
            if (!overl && y.zero && c.second.v.k == Val::Sc) o->c[c.first] = Cell{c.second.size, joinV(c.second.v, vS(mkC(c.second.v.a.w, 0)))}; else o->c[c.first] = Cell{c.second.size, vUnk()}; } } };
    pick(*kv.second, *it->second); pick(*it->second, *kv.second);
    (*r)[kv.first] = o; }
  for (auto &kv : *b) if (!a->count(kv.first)) { if (kv.first == OBJ_ERRNO) { auto o = std::make_shared<Obj>(*kv.second); o->c[0] = Cell{4, joinV(o->c[0].v, vS(mkC(32, ERRNO_INIT)))}; (*r)[kv.first] = o; } else (*r)[kv.first] = kv.second; }
  return r;
}
static void joinState(State &d, const State &s) {
  if (!d.init) { d = s; d.init = true; return; }
  d.mem = joinMem(d.mem, s.mem); d.fe = join(d.fe, s.fe);
  for (auto it = d.ov.begin(); it != d.ov.end();) { auto f = s.ov.find(it->first); if (f == s.ov.end()) it = d.ov.erase(it); else { it->second = joinV(it->second, f->second); ++it; } }
  for (auto &p : s.phi) { auto f = d.phi.find(p.first); if (f == d.phi.end()) d.phi[p.first] = p.second; else f->second = joinV(f->second, p.second); }
}
struct CallRes { bool ret = false; Val v; };
static CallRes runFn(const Function *F, std::vector<Val> args, State &S, Ctx &C, bool top);
static Val mapAgg(const Val &a, const std::function<Val(const Val &)> &f) { if (a.k == Val::Agg) { Val r; r.k = Val::Agg; for (auto &e : a.g) r.g.push_back(f(e)); return r; } return f(a); }
// x * 2^k with every operand and result normal is exact: it only adds k to the exponent field
static AV scaleExact(const AV &a, const AV &c, AV r, bool div) {
  if (!c.single() || a.bot() || r.bot() || a.single()) return r;
  unsigned w = a.w, mb = w == 32 ? 23 : w == 64 ? 52 : 64; u128 sg = (u128)1 << (w - 1), em = (sg - 1) >> mb;
  u128 cm = c.lo() & (sg - 1), ce = cm >> mb, fr = cm & (((u128)1 << mb) - 1);
  if (fr != (w == 80 ? (u128)1 << 63 : 0) || ce == 0 || ce == em) return r;
  i128 k = (i128)ce - (i128)(em >> 1); if (div) k = -k;
  return shiftExp(a, k, c.lo() & sg, r);
}
// a - b where b is a with some significand bits cleared (same sign and exponent): the cleared bits, exactly
static bool maskedDiff(const AV &a, const AV &b, unsigned w, unsigned rms, AV &r) {
  if (a.bot() || b.bot() || (w != 32 && w != 64 && w != 80)) return false;
  unsigned mb = w == 32 ? 23 : w == 64 ? 52 : 63; u128 m = maskw(w), top = m & ~maskw(mb);
  if (((a.kz | a.ko) & top) != top || ((b.kz | b.ko) & top) != top || (a.ko & top) != (b.ko & top)) return false;
  u128 s = fSign(w), inf = fInf(w), t = a.ko & top & ~s; if (t == 0 || t >= (inf & top)) return false; if (w == 80 && !((t >> 63) & 1)) return false;
  u128 D = 0;
  for (unsigned i = 0; i < mb; i++) { u128 bit = (u128)1 << i; bool same = (a.prov && b.prov && (*a.prov)[i] >= 0 && (*a.prov)[i] == (*b.prov)[i]) || (a.ko & b.ko & bit) || (a.kz & b.kz & bit); if (same) continue; if (b.kz & bit) D |= bit; else return false; }
  AV d = iAnd(a, mkC(w, D)); if (d.bot()) return false;
  int E = (int)(w == 80 ? t >> 64 : t >> mb), q = E - (w == 32 ? 127 : w == 64 ? 1023 : 16383) - (int)mb; u128 sg = a.ko & s;
  r = AV(); r.w = w; for (auto &i : d.iv) { u128 lo = i.lo; if (lo == 0) { if (rms & ~2u) r.iv.push_back({0, 0}); if (rms & 2) r.iv.push_back({s, s}); lo = i.hi ? (D & -D) : 0; } if (!i.hi) continue; r.iv.push_back({ldToBits(ldexpl((long double)(uint64_t)lo, q), w) | sg, ldToBits(ldexpl((long double)(uint64_t)i.hi, q), w) | sg}); }
  norm(r); return true;
}
// x + 0, x - 0: x itself where no NaN and no zero of the other sign is involved
static bool addZero(const AV &a, const AV &b, unsigned w, unsigned rms, bool sub, AV &r) {
  if ((w != 32 && w != 64 && w != 80) || b.bot() || a.bot()) return false; u128 s = fSign(w), inf = fInf(w); for (auto &i : b.iv) if ((i.lo & ~s) || i.lo != i.hi) return false;
  for (auto &i : a.iv) { if ((i.lo & s) != (i.hi & s) || (i.hi & ~s) > inf) return false; if (i.lo == 0 || i.lo == s) return false; }
  (void)rms; (void)sub; r = a; return true;
}
static Val binOp(Ctx &C, unsigned op, const Val &x, const Val &y, Type *t, bool same) {
  if (x.k == Val::Agg && y.k == Val::Agg && x.g.size() == y.g.size()) { Val r; r.k = Val::Agg; for (size_t i = 0; i < x.g.size(); i++) r.g.push_back(binOp(C, op, x.g[i], y.g[i], t->getScalarType(), same)); return r; }
  if (x.k != Val::Sc || y.k != Val::Sc) return vTop(t);
  const AV &a = x.a, &b = y.a; if (a.w != b.w) return vTop(t); unsigned w = a.w;
  if (a.aff >= 0 && a.aff == b.aff && a.affc == b.affc) same = true;
  switch (op) {
  case Instruction::Add: return vS(same ? iShlC(a, 1 < w ? 1 : 0) : iAdd(a, b));
  case Instruction::Sub: return vS(same ? mkC(w, 0) : iSub(a, b));
  case Instruction::Mul: return vS(iMul(a, b));
  case Instruction::UDiv: return vS(iUdiv(a, b)); case Instruction::SDiv: return vS(iSdiv(a, b));
  case Instruction::URem: return vS(iUrem(a, b)); case Instruction::SRem: return vS(iSrem(a, b));
  case Instruction::And: return vS(same ? a : iAnd(a, b)); case Instruction::Or: return vS(same ? a : iOr(a, b)); case Instruction::Xor: return vS(same ? mkC(w, 0) : iXor(a, b));
  case Instruction::Shl: return vS(iShiftV(a, b, iShlC)); case Instruction::LShr: return vS(iShiftV(a, b, iLshrC)); case Instruction::AShr: return vS(iShiftV(a, b, iAshrC));
  case Instruction::FAdd: if (same) { AV two = mkC(w, ldToBits(2, w)); return vS(FDISP(w, mul(a, two, C.rms, false))); } return vS(FDISP(w, add(a, b, C.rms, false)));
  case Instruction::FSub: if (same) { AV r; r.w = w; FV f = toFV(a); bool nan = f.nan; for (auto &p : f.c) if (p.hi == (long double)INFINITY) nan = true; if (!f.c.empty()) { if (C.rms & ~2u) r.iv.push_back({0, 0}); if (C.rms & 2) r.iv.push_back({fSign(w), fSign(w)}); } if (nan) putNaN(r); return vS(finF(r)); } { AV r; if (maskedDiff(a, b, w, C.rms, r)) return vS(r); } { AV r; if (addZero(a, b, w, C.rms, true, r)) return vS(r); } { AV r = FDISP(w, add(a, b, C.rms, true)); unsigned om = relMask(C, a, b, true); u128 sg = fSign(w), inf = fInf(w); if (om == 4) r = meet(r, mkR(w, 1, inf)); else if (om == 1) r = meet(r, mkR(w, sg | 1, sg | inf)); return vS(r); }
  case Instruction::FMul: { AV r = FDISP(w, mul(a, b, C.rms, same)); return vS(b.single() ? scaleExact(a, b, r, false) : scaleExact(b, a, r, false)); }
  case Instruction::FDiv: return vS(scaleExact(a, b, FDISP(w, div(a, b, C.rms, same)), true));
  default: return vTop(t);
  }
}
static Val castOp(Ctx &C, unsigned op, const Val &x, Type *st, Type *t) {
  if (x.k == Val::Agg && t->isVectorTy() && st->isVectorTy() && cast<FixedVectorType>(t)->getNumElements() == x.g.size()) { Val r; r.k = Val::Agg; for (auto &e : x.g) r.g.push_back(castOp(C, op, e, st->getScalarType(), t->getScalarType())); return r; }
  unsigned w = scW(t); 
  if (op == Instruction::BitCast) { if (x.k == Val::Sc && w == x.a.w) return x; if (x.k == Val::Ptr && t->isPointerTy()) return x; 
    // vector <-> scalar bitcast
    if (x.k == Val::Agg && w) { unsigned ew = scW(st->getScalarType()); if (ew && ew * x.g.size() == w) { AV acc = mkC(w, 0); for (size_t i = 0; i < x.g.size(); i++) { if (x.g[i].k != Val::Sc) return vTop(t); acc = iOr(acc, iShlC(iZext(x.g[i].a, w), i * ew)); } return vS(acc); } }
    if (x.k == Val::Sc && t->isVectorTy()) { auto *vt = cast<FixedVectorType>(t); unsigned ew = scW(vt->getElementType()); if (ew && ew * vt->getNumElements() == x.a.w) { Val r; r.k = Val::Agg; for (unsigned i = 0; i < vt->getNumElements(); i++) r.g.push_back(vS(iTrunc(iLshrC(x.a, i * ew), ew))); return r; } }
    if (x.k == Val::Agg && t->isVectorTy()) { auto *vt = cast<FixedVectorType>(t); unsigned ew = scW(vt->getElementType()), sw = scW(st->getScalarType()); unsigned n = vt->getNumElements();
      if (ew && sw) { Val r; r.k = Val::Agg; if (ew == sw) return x;
        if (ew < sw && sw % ew == 0) { for (auto &e : x.g) for (unsigned i = 0; i < sw / ew; i++) r.g.push_back(e.k == Val::Sc ? vS(iTrunc(iLshrC(e.a, i * ew), ew)) : vTop(vt->getElementType())); if (r.g.size() == n) return r; }
        else if (sw && ew % sw == 0) { unsigned k = ew / sw; for (unsigned j = 0; j < n; j++) { AV acc = mkC(ew, 0); bool ok = true; for (unsigned i = 0; i < k; i++) { auto &e = x.g[j * k + i]; if (e.k != Val::Sc) { ok = false; break; } acc = iOr(acc, iShlC(iZext(e.a, ew), i * sw)); } r.g.push_back(ok ? vS(acc) : vTop(vt->getElementType())); } return r; } } }
    return vTop(t); }
  if (op == Instruction::PtrToInt || op == Instruction::IntToPtr || op == Instruction::AddrSpaceCast) return vTop(t);
  if (x.k != Val::Sc || !w) return vTop(t);
  const AV &a = x.a;
  switch (op) {
  case Instruction::ZExt: return vS(iZext(a, w)); case Instruction::SExt: return vS(iSext(a, w)); case Instruction::Trunc: return vS(iTrunc(a, w));
  case Instruction::FPExt: case Instruction::FPTrunc: return vS(fConv(a, w, C.rms));
  case Instruction::SIToFP: case Instruction::UIToFP: {
    AV r; r.w = w; auto one = [&](long double dummy) {}; (void)one;
    std::vector<std::pair<i128, i128>> pcs; bool u = op == Instruction::UIToFP;
    if (u) for (auto &i : a.iv) { if (a.w == 128 && (i.hi >> 127)) return vTop(t); pcs.push_back({(i128)i.lo, (i128)i.hi}); } else pcs = signedIv(a);
    for (auto &p : pcs) { long double l, h, d; auto cv = [&](i128 v, long double &mn, long double &mx) { if (w == 32) evalRM<float>(C.rms, [&] { volatile i128 q = v; if ((i128)(int64_t)q == q) { volatile int64_t z = (int64_t)q; return (float)z; } return (float)(long double)q; }, mn, mx); else if (w == 64) evalRM<double>(C.rms, [&] { volatile i128 q = v; if ((i128)(int64_t)q == q) { volatile int64_t z = (int64_t)q; return (double)z; } if ((i128)(uint64_t)q == q) { volatile uint64_t z = (uint64_t)q; return (double)z; } return (double)(long double)q; }, mn, mx); else evalRM<long double>(C.rms, [&] { volatile i128 q = v; return (long double)q; }, mn, mx); };
      cv(p.first, l, d); cv(p.second, d, h); putRange(r, l, h, p.first <= 0 && p.second >= 0, false); }
    return vS(finF(r)); }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    FV f = toFV(a); AV r; r.w = w; bool sg = op == Instruction::FPToSI; bool bad = f.nan;
    long double mn = sg ? -ldexpl(1, w - 1) : 0, mx = sg ? ldexpl(1, w - 1) : ldexpl(1, w);
    if (w > 64) return vTop(t);
    for (auto &p : f.c) { long double l = truncl(p.neg ? -p.hi : p.lo), h = truncl(p.neg ? -p.lo : p.hi); if (l < mn) { bad = true; l = mn; } if (h >= mx) { bad = true; h = -1; i128 hm = sg ? (((i128)1 << (w - 1)) - 1) : (i128)maskw(w); if (l >= mx) continue; AV q = sg ? fromSigned(w, (i128)l, hm) : mkR(w, (u128)l, (u128)hm); r = r.iv.empty() ? q : join(r, q); continue; }
      if (h < mn) { continue; } AV q = sg ? fromSigned(w, (i128)l, (i128)h) : mkR(w, (u128)(l < 0 ? 0 : l), (u128)h); r = r.iv.empty() ? q : join(r, q); }
    if (bad) return vTop(t);
    if (r.bot()) return vTop(t);
    return vS(r); }
  default: return vTop(t);
  }
}
static Val cmpOp(Ctx &C, const CmpInst *ci, const Val &x, const Val &y, bool same) {
  if (x.k == Val::Agg && y.k == Val::Agg && x.g.size() == y.g.size()) { Val r; r.k = Val::Agg; for (size_t i = 0; i < x.g.size(); i++) r.g.push_back(cmpOp(C, ci, x.g[i], y.g[i], same)); return r; }
  if (x.k == Val::Ptr && y.k == Val::Ptr && x.p.size() == 1 && y.p.size() == 1 && (ci->getPredicate() == CmpInst::ICMP_EQ || ci->getPredicate() == CmpInst::ICMP_NE)) {
    bool eq, known = false; if (x.p[0].obj != y.p[0].obj) { eq = false; known = true; } else if (x.p[0].off.single() && y.p[0].off.single()) { eq = x.p[0].off.lo() == y.p[0].off.lo(); known = true; }
    if (known) return vS(mkC(1, eq == (ci->getPredicate() == CmpInst::ICMP_EQ))); return vS(mkTop(1)); }
  if (x.k != Val::Sc || y.k != Val::Sc || x.a.w != y.a.w || x.a.bot() || y.a.bot()) return vS(mkTop(1));
  unsigned out, pm;
  if (isa<ICmpInst>(ci)) { bool sg; pm = predMaskI(ci->getPredicate(), sg); out = same ? 2 : icmpMask(C, x.a, y.a, sg); }
  else { pm = predMaskF(ci->getPredicate()); out = fcmpMask(x.a, y.a); if (same || (x.a.aff >= 0 && x.a.aff == y.a.aff && x.a.affc == y.a.affc)) out &= 10; out &= relMask(C, x.a, y.a, true); }
  AV r; r.w = 1; if (out & ~pm) r.iv.push_back({0, 0}); if (out & pm) r.iv.push_back({1, 1}); if (r.iv.empty()) return vS(mkTop(1)); norm(r); return vS(r);
}
// all values have magnitude >= 2^p (integral already, infinity included) and none is a NaN
static bool allIntegral(const AV &a, unsigned w) {
  unsigned mb = w == 32 ? 23 : w == 64 ? 52 : 63; int bias = w == 32 ? 127 : w == 64 ? 1023 : 16383; u128 s = fSign(w), inf = fInf(w), lo = (u128)(bias + (int)mb) << mb; if (w == 80) lo = ((u128)(bias + 63) << 64) | ((u128)1 << 63);
  if (a.bot()) return false; for (auto &i : a.iv) { if ((i.lo & s) != (i.hi & s)) return false; if ((i.lo & ~s) < lo || (i.hi & ~s) > inf) return false; } return true;
}
static AV roundI(Intrinsic::ID id, const AV &a, unsigned rms) {
  unsigned w = a.w; if (w == 32 || w == 64 || w == 80) {
    if (allIntegral(a, w)) return a;
    unsigned mb = w == 32 ? 23 : w == 64 ? 52 : 63; u128 top = maskw(w) & ~maskw(mb), s = fSign(w), inf = fInf(w), t = a.ko & top & ~s;
    if (!a.bot() && ((a.kz | a.ko) & top) == top && t < (inf & top) && (w != 80 || (t >> 63 & 1))) {
      int k = (int)(w == 80 ? t >> 64 : t >> mb) - (w == 32 ? 127 : w == 64 ? 1023 : 16383); bool neg = (a.ko & s) != 0;
      if (k >= 0 && k < (int)mb) { u128 low = maskw(mb - k); if ((a.kz & low) == low) return a; bool tz = id == Intrinsic::trunc || (id == Intrinsic::floor && !neg) || (id == Intrinsic::ceil && neg); if (tz) return iAnd(a, mkC(w, maskw(w) & ~low)); }
    } }
  switch (id) {
  case Intrinsic::floor: return fRoundInt(a, rms, false, [](long double v) { return floorl(v); }); case Intrinsic::ceil: return fRoundInt(a, rms, false, [](long double v) { return ceill(v); });
  case Intrinsic::trunc: return fRoundInt(a, rms, false, [](long double v) { return truncl(v); }); case Intrinsic::round: return fRoundInt(a, rms, false, [](long double v) { return roundl(v); });
  case Intrinsic::roundeven: return fRoundInt(a, 1, true, [](long double v) { return rintl(v); });
  default: return fRoundInt(a, rms, true, [](long double v) { return rintl(v); });
  }
}
static Val call(Frame &fr, State &S, const CallBase *cb, bool &noret) {
  Ctx &C = *fr.C; Type *t = cb->getType(); noret = false;
  if (cb->isInlineAsm()) { auto *ia = cast<InlineAsm>(cb->getCalledOperand()); if (!ia->getAsmString().empty()) { C.unknown.insert("inline asm"); } return vTop(t); }
  const Function *F = cb->getCalledFunction(); if (!F) { C.unknown.insert("indirect call"); return vTop(t); }
  auto A = [&](unsigned i) { return getA(fr, S, cb->getArgOperand(i)); };
  auto V = [&](unsigned i) { return get(fr, S, cb->getArgOperand(i)); };
  Intrinsic::ID id = F->getIntrinsicID();
  if (id != Intrinsic::not_intrinsic) {
    if (t->isVectorTy() && id != Intrinsic::not_intrinsic) { // element-wise for a few
      std::vector<Val> as; size_t n = 0; bool ok = true; for (unsigned i = 0; i < cb->arg_size(); i++) { as.push_back(V(i)); if (as[i].k == Val::Agg) n = as[i].g.size(); else ok = false; }
      if (ok && n && (id == Intrinsic::fabs || id == Intrinsic::sqrt || id == Intrinsic::fma || id == Intrinsic::fmuladd || id == Intrinsic::copysign || id == Intrinsic::trunc || id == Intrinsic::floor || id == Intrinsic::ceil || id == Intrinsic::rint || id == Intrinsic::nearbyint)) {
        Val r; r.k = Val::Agg; for (size_t j = 0; j < n; j++) { auto E = [&](int i) { return as[i].g[j].a; }; AV a0 = E(0); unsigned w = a0.w; if (as[0].g[j].k != Val::Sc) { r.g.push_back(vTop(t->getScalarType())); continue; }
          switch (id) { case Intrinsic::fabs: r.g.push_back(vS(fAbsA(a0))); break; case Intrinsic::sqrt: r.g.push_back(vS(FDISP(w, sqrt(a0, C.rms)))); break;
          case Intrinsic::fma: case Intrinsic::fmuladd: r.g.push_back(vS(FDISP(w, fma(a0, E(1), E(2), C.rms)))); break; case Intrinsic::copysign: r.g.push_back(vS(iOr(fAbsA(a0), iAnd(E(1), mkC(w, fSign(w)))))); break; default: r.g.push_back(vS(roundI(id, a0, C.rms))); } }
        return r; }
      return vTop(t); }
    unsigned w = scW(t);
    switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::sideeffect: return Val();
    case Intrinsic::assume: if (!refineCond(fr, S, cb->getArgOperand(0), true, 10)) noret = true; return Val();
    case Intrinsic::expect: return V(0);
    case Intrinsic::is_constant: return vS(mkC(1, 0));
    case Intrinsic::objectsize: return vTop(t);
    case Intrinsic::fabs: { return vS(fAbsA(A(0))); }
    case Intrinsic::copysign: { AV s = iAnd(A(1), mkC(w, fSign(w))); return vS(iOr(fAbsA(A(0)), s)); }
    case Intrinsic::sqrt: return vS(FDISP(w, sqrt(A(0), C.rms)));
    case Intrinsic::fma: return vS(FDISP(w, fma(A(0), A(1), A(2), C.rms)));
    case Intrinsic::fmuladd: { AV m = FDISP(w, mul(A(0), A(1), C.rms, cb->getArgOperand(0) == cb->getArgOperand(1))); AV s = FDISP(w, add(m, A(2), C.rms, false)); if (!C.fmaBoth) return vS(s); return vS(join(s, FDISP(w, fma(A(0), A(1), A(2), C.rms)))); }
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::roundeven: case Intrinsic::rint: case Intrinsic::nearbyint: { AV a = A(0); AV r = roundI(id, a, C.rms); return vS(r); }
    case Intrinsic::lrint: case Intrinsic::llrint: return castOp(C, Instruction::FPToSI, vS(roundI(Intrinsic::rint, A(0), C.rms)), cb->getArgOperand(0)->getType(), t);
    case Intrinsic::is_fpclass: { AV a = A(0); unsigned mask = cast<ConstantInt>(cb->getArgOperand(1))->getZExtValue(); AV in = fClassAV(a.w, mask), out = fClassAV(a.w, 1023 & ~mask); AV ca = canonF(a, a.w); AV r; r.w = 1; if (!meet(ca, out).bot()) r.iv.push_back({0, 0}); if (!meet(ca, in).bot()) r.iv.push_back({1, 1}); if (r.iv.empty()) return vTop(t); norm(r); return vS(r); }
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: { AV a = A(0), b = A(1); bool mn = id == Intrinsic::minnum || id == Intrinsic::minimum; FV x = toFV(a), y = toFV(b); AV r; r.w = w;
      for (auto &p : x.c) for (auto &q : y.c) { long double pl = p.neg ? -p.hi : p.lo, ph = p.neg ? -p.lo : p.hi, ql = q.neg ? -q.hi : q.lo, qh = q.neg ? -q.lo : q.hi; long double lo = mn ? std::min(pl, ql) : std::max(pl, ql), hi = mn ? std::min(ph, qh) : std::max(ph, qh); putRange(r, lo, hi, (p.lo == 0 && !p.neg) || (q.lo == 0 && !q.neg), (p.lo == 0 && p.neg) || (q.lo == 0 && q.neg)); }
      if (x.nan) { AV c = meet(b, fRange(w, -INFINITY, false, INFINITY, false, false)); r.iv.insert(r.iv.end(), c.iv.begin(), c.iv.end()); } if (y.nan) { AV c = meet(a, fRange(w, -INFINITY, false, INFINITY, false, false)); r.iv.insert(r.iv.end(), c.iv.begin(), c.iv.end()); } if (x.nan && y.nan) putNaN(r);
      r = finF(r); // relation-aware: pick exactly one operand
      unsigned om = fcmpMask(a, b) & relMask(C, a, b, true); if (om == 1) return vS(mn ? a : b); if (om == 4) return vS(mn ? b : a); if (om == 2 && !contains(a, 0) && !contains(a, fSign(w)) && !contains(b, 0) && !contains(b, fSign(w))) return vS(a); if (om == 8) { if (x.c.empty() && !y.nan) return vS(b); if (y.c.empty() && !x.nan) return vS(a); }
      return vS(r); }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { AV a = A(0), b = A(1); if (a.w != b.w || !w) return vTop(t);
      if (id == Intrinsic::umin) { AV r = join(meet(a, mkR(w, 0, b.hi())), meet(b, mkR(w, 0, a.hi()))); return vS(r); } if (id == Intrinsic::umax) { AV r = join(meet(a, mkR(w, b.lo(), maskw(w))), meet(b, mkR(w, a.lo(), maskw(w)))); return vS(r); }
      i128 mnv = w == 128 ? (i128)((u128)1 << 127) : -((i128)1 << (w - 1)), mxv = w == 128 ? (i128)(~(u128)0 >> 1) : ((i128)1 << (w - 1)) - 1;
      if (id == Intrinsic::smin) return vS(join(meet(a, fromSigned(w, mnv, smax(b))), meet(b, fromSigned(w, mnv, smax(a))))); return vS(join(meet(a, fromSigned(w, smin(b), mxv)), meet(b, fromSigned(w, smin(a), mxv)))); }
    case Intrinsic::abs: { AV a = A(0); AV r = mkBot(w); for (auto &p : signedIv(a)) { if (p.first >= 0) r = join(r, mkR(w, (u128)p.first, (u128)p.second)); else if (p.second < 0) r = join(r, mkR(w, (u128)(-p.second) & maskw(w), (u128)(-p.first) & maskw(w))); } return vS(r); }
    case Intrinsic::ctlz: { AV a = A(0); AV r; r.w = w; for (auto &i : a.iv) r.iv.push_back({(u128)(w - 1 - hibit(i.hi)), (u128)(w - 1 - hibit(i.lo))}); norm(r); return vS(r); }
    case Intrinsic::cttz: { AV a = A(0); int k = ctz128(~a.kz); int o = ctz128(a.ko); unsigned lo = std::min<int>(k, w), hi = 0; for (auto &i : a.iv) { unsigned h = 0; if (i.lo == 0) h = w; else for (int b = hibit(i.hi); b >= 0; b--) { u128 u = (u128)1 << b; if ((i.hi >> b) > ((i.lo - 1) >> b)) { h = b; break; } } hi = std::max(hi, h); } hi = std::min<unsigned>(hi, std::min<int>(o, w)); if (lo > hi) lo = hi; if (a.single()) lo = hi = std::min<int>(ctz128(a.lo()), w); return vS(mkR(w, lo, hi)); }
    case Intrinsic::ctpop: { AV a = A(0); auto pc = [](u128 v) { return __builtin_popcountll((uint64_t)v) + __builtin_popcountll((uint64_t)(v >> 64)); }; return vS(mkR(w, pc(a.ko), w - pc(a.kz))); }
    case Intrinsic::bswap: { AV a = A(0); if (a.single()) { u128 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((a.lo() >> (8 * i)) & 0xff) << (w - 8 - 8 * i); return vS(mkC(w, r)); } return vTop(t); }
    case Intrinsic::bitreverse: { AV a = A(0); AV r = mkTop(w); for (unsigned i = 0; i < w; i++) { u128 b = (u128)1 << i, d = (u128)1 << (w - 1 - i); if (a.kz & b) r.kz |= d; if (a.ko & b) r.ko |= d; } norm(r); return vS(r); }
    case Intrinsic::fshl: case Intrinsic::fshr: { AV a = A(0), b = A(1), s = A(2); if (!s.single()) return vTop(t); unsigned c = (unsigned)(s.lo() % w); if (id == Intrinsic::fshr) c = (w - c) % w; if (c == 0) return vS(id == Intrinsic::fshr ? (s.lo() % w == 0 ? b : a) : a); return vS(iOr(iShlC(a, c), iLshrC(b, w - c))); }
    case Intrinsic::uadd_sat: { AV a = A(0), b = A(1); u128 lo = a.lo() + b.lo(), hi = a.hi() + b.hi(), m = maskw(w); if (w == 128) return vTop(t); return vS(mkR(w, std::min(lo, m), std::min(hi, m))); }
    case Intrinsic::usub_sat: { AV a = A(0), b = A(1); return vS(mkR(w, a.lo() > b.hi() ? a.lo() - b.hi() : 0, a.hi() > b.lo() ? a.hi() - b.lo() : 0)); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      AV a = A(0), b = A(1); unsigned ww = a.w; Val r; r.k = Val::Agg; AV o; o.w = 1; bool may = true, may0 = true;
      if (id == Intrinsic::uadd_with_overflow) { auto ov = [&](u128 x, u128 y) { u128 s = x + y; return s < x || s > maskw(ww); }; may = ov(a.hi(), b.hi()); may0 = !ov(a.lo(), b.lo()); r.g.push_back(vS(iAdd(a, b))); }
      else if (id == Intrinsic::usub_with_overflow) { may = a.lo() < b.hi(); may0 = a.hi() >= b.lo(); r.g.push_back(vS(iSub(a, b))); }
      else if (id == Intrinsic::umul_with_overflow) { u128 q; may = mulOvf(a.hi(), b.hi(), q, ww); may0 = !mulOvf(a.lo(), b.lo(), q, ww); r.g.push_back(vS(iMul(a, b))); }
      else if (ww <= 64) { i128 al = smin(a), ah = smax(a), bl = smin(b), bh = smax(b), lo, hi; if (id == Intrinsic::sadd_with_overflow) { lo = al + bl; hi = ah + bh; } else if (id == Intrinsic::ssub_with_overflow) { lo = al - bh; hi = ah - bl; } else { i128 c[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); }
        i128 mn = -((i128)1 << (ww - 1)), mx = -mn - 1; may = lo < mn || hi > mx; may0 = !(lo > mx || hi < mn); r.g.push_back(vS(id == Intrinsic::sadd_with_overflow ? iAdd(a, b) : id == Intrinsic::ssub_with_overflow ? iSub(a, b) : iMul(a, b))); }
      else r.g.push_back(vTop(cast<StructType>(t)->getElementType(0)));
      if (may0) o.iv.push_back({0, 0}); if (may) o.iv.push_back({1, 1}); norm(o); r.g.push_back(vS(o)); return r; }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      AV n = A(2); Val d = V(0), s = V(1); if (d.k != Val::Ptr || s.k != Val::Ptr || d.p.size() != 1 || s.p.size() != 1 || !d.p[0].off.single() || !s.p[0].off.single() || !n.single()) { if (d.k != Val::Ptr) throw Abort{"memcpy to unknown"}; for (auto &q : d.p) { Obj &o = mobj(S, q.obj); o.c.clear(); o.zero = false; } return Val(); }
      int64_t N = (int64_t)n.lo(), so = (int64_t)(uint64_t)s.p[0].off.lo(), dof = (int64_t)(uint64_t)d.p[0].off.lo(); if (N > 65536) { Obj &o = mobj(S, d.p[0].obj); o.c.clear(); o.zero = false; return Val(); }
      std::vector<std::pair<int64_t, Cell>> cells; bool z = false; const ObjInfo &oi = OI[s.p[0].obj];
      if (oi.gv && oi.gv->isConstant() && oi.gv->hasInitializer()) { Type *i64 = Type::getInt64Ty(F->getContext()), *i8 = Type::getInt8Ty(F->getContext()); int64_t k = 0; for (; k + 8 <= N; k += 8) cells.push_back({k, Cell{8, loadConst(oi.gv, i64, so + k)}}); for (; k < N; k++) cells.push_back({k, Cell{1, loadConst(oi.gv, i8, so + k)}}); }
      else { auto it = S.mem->find(s.p[0].obj); if (it != S.mem->end()) { Obj cp = *it->second; z = cp.zero; killRange(cp, so + N, 1 << 20); if (so > 0) killRange(cp, so - (1 << 20), 1 << 20); for (auto &c : cp.c) if (c.first >= so && c.first < so + N) cells.push_back({c.first - so, c.second}); } }
      Obj &o = mobj(S, d.p[0].obj); killRange(o, dof, N); if (!z && o.zero) { /* unknown holes */ std::set<int64_t> cov; int64_t pos = 0; std::sort(cells.begin(), cells.end(), [](auto &x, auto &y) { return x.first < y.first; }); std::vector<std::pair<int64_t, Cell>> h; for (auto &c : cells) { if (c.first > pos) h.push_back({pos, Cell{(unsigned)(c.first - pos), vUnk()}}); pos = c.first + c.second.size; } if (pos < N) h.push_back({pos, Cell{(unsigned)(N - pos), vUnk()}}); cells.insert(cells.end(), h.begin(), h.end()); }
      if (z && !o.zero) { if (o.c.empty() && dof == 0 && o.size == N) o.zero = true; else { int64_t pos = 0; std::sort(cells.begin(), cells.end(), [](auto &x, auto &y) { return x.first < y.first; }); std::vector<std::pair<int64_t, Cell>> h; auto fill = [&](int64_t a1, int64_t b1) { while (a1 < b1) { int64_t st = std::min<int64_t>(8, b1 - a1); if (st < 8) st = 1; h.push_back({a1, Cell{(unsigned)st, vS(mkC(st * 8, 0))}}); a1 += st; } }; for (auto &c : cells) { if (c.first > pos) fill(pos, c.first); pos = c.first + c.second.size; } fill(pos, N); cells.insert(cells.end(), h.begin(), h.end()); } }
      for (auto &c : cells) o.c[dof + c.first] = c.second; return Val(); }
    case Intrinsic::memset: { AV n = A(2), b = A(1); Val d = V(0); if (d.k != Val::Ptr) throw Abort{"memset to unknown"}; if (d.p.size() != 1 || !d.p[0].off.single() || !n.single()) { for (auto &q : d.p) { Obj &o = mobj(S, q.obj); o.c.clear(); o.zero = false; } return Val(); }
      Obj &o = mobj(S, d.p[0].obj); int64_t off = (int64_t)(uint64_t)d.p[0].off.lo(), N = (int64_t)n.lo(); if (b.single() && b.lo() == 0 && off == 0 && N == o.size) { o.c.clear(); o.zero = true; return Val(); } killRange(o, off, N);
      if (!b.single() || N > 65536) { o.c.clear(); o.zero = false; return Val(); } u128 pat = 0; for (int i = 0; i < 8; i++) pat |= (b.lo() & 255) << (8 * i); int64_t k = 0; for (; k + 8 <= N; k += 8) o.c[off + k] = Cell{8, vS(mkC(64, pat))}; for (; k < N; k++) o.c[off + k] = Cell{1, vS(mkC(8, b.lo() & 255))}; return Val(); }
    case Intrinsic::ubsantrap: case Intrinsic::trap: C.traps.emplace("ub" + (id == Intrinsic::ubsantrap ? std::to_string(cast<ConstantInt>(cb->getArgOperand(0))->getZExtValue()) : std::string("trap")), locOf(cb)); noret = true; return Val();
    case Intrinsic::frexp: if (t->isStructTy() && cast<StructType>(t)->getElementType(1)->isIntegerTy(32)) { AV m, e; frexpAV(A(0), m, e); Val v; v.k = Val::Agg; v.g = {vS(m), vS(e)}; return v; } break;
    case Intrinsic::ldexp: default: break;
    }
    C.unknown.insert("intrinsic " + F->getName().str()); return vTop(t);
  }
  StringRef n = F->getName();
  if (!F->isDeclaration()) {
    if (C.depth > 60) throw Abort{"recursion depth"};
    std::vector<Val> as; for (unsigned i = 0; i < cb->arg_size(); i++) { Val v = V(i); 
      if (cb->isByValArgument(i)) {} 
      as.push_back(v); }
    CallRes r = runFn(F, as, S, C, false); if (!r.ret) noret = true; return r.v;
  }
  // ISO C: a platform math function leaves errno alone or stores EDOM or ERANGE; a quiet NaN argument is never an error (except for ilogb); sqrt errs only below zero
  auto errnoMay = [&] {
    bool nn = false; if (!n.starts_with("ilogb")) for (unsigned i = 0; i < cb->arg_size(); i++) if (isF(cb->getArgOperand(i)->getType())) { FV x = toFV(A(i)); nn |= x.nan && x.c.empty(); }
    if (nn) return;
    bool dom = true, rng = true; long double INF = INFINITY;
    if (cb->arg_size() && isF(cb->getArgOperand(0)->getType())) {
      FV x = toFV(A(0)), y; bool two = cb->arg_size() >= 2 && isF(cb->getArgOperand(1)->getType()); if (two) y = toFV(A(1));
      auto any = [](const FV &v, auto f) { for (auto &p : v.c) if (p.neg ? f(-p.hi, p.lo == 0 ? -0.0L : -p.lo) : f(p.lo, p.hi)) return true; return false; };
      auto hasInf = [&](const FV &v) { return any(v, [&](long double a, long double b) { return a == -INF || b == INF; }); };
      auto hasZero = [&](const FV &v) { return any(v, [](long double a, long double b) { return a <= 0 && b >= 0; }); };
      auto only0Inf = [&](const FV &v) { return !any(v, [&](long double a, long double b) { return !(a == b && (a == 0 || a == INF || a == -INF)); }); };
      StringRef b = n; 
      if (b.starts_with("sqrt")) { dom = any(x, [](long double a, long double) { return a < 0; }); rng = false; }
      else if (b.starts_with("logb")) { dom = rng = hasZero(x); }
      else if (b.starts_with("log1p")) { dom = any(x, [](long double a, long double) { return a < -1; }); rng = true; }
      else if (b.starts_with("log")) { dom = any(x, [](long double a, long double) { return a < 0; }); rng = hasZero(x); }
      else if (b.starts_with("fmod") || b.starts_with("remainder") || b.starts_with("remquo")) { dom = hasInf(x) || hasZero(y); rng = false; }
      else if (b.starts_with("ldexp") || b.starts_with("scalb")) { dom = false; rng = !only0Inf(x); }
      else if (b.starts_with("fdim")) { dom = false; rng = !(only0Inf(x) && only0Inf(y)) && relMask(C, A(0), A(1), true) & fcmpMask(A(0), A(1)) & 2; }
      else if (b.starts_with("asin") || b.starts_with("acos")) dom = any(x, [](long double a, long double b2) { return a < -1 || b2 > 1; });
      else if (b.starts_with("sin") || b.starts_with("cos") || b.starts_with("tan")) dom = hasInf(x);
      else if (b.starts_with("exp")) { dom = false; rng = !only0Inf(x); }
      else if (b.starts_with("next") || b.starts_with("atan") || b.starts_with("hypot") || b.starts_with("cbrt")) { dom = false; if (two ? only0Inf(x) && only0Inf(y) && !b.starts_with("next") : only0Inf(x)) rng = false; if (b.starts_with("hypot") && (only0Inf(x) && !hasZero(x))) rng = false; }
      if (!dom && !rng) return;
    }
    auto it = S.mem->find(OBJ_ERRNO); AV old = mkC(32, ERRNO_INIT);
    if (it != S.mem->end()) { auto c = it->second->c.find(0); if (c != it->second->c.end()) { if (c->second.v.k != Val::Sc) { mobj(S, OBJ_ERRNO).c[0] = Cell{4, vTop(Type::getInt32Ty(F->getContext()))}; return; } old = c->second.v.a; } }
    mobj(S, OBJ_ERRNO).c[0] = Cell{4, vS(join(dom ? join(old, mkC(32, EDOM)) : old, rng ? mkC(32, ERANGE) : old))};
  };
  if (n == "fegetround") return vS(C.roundRet);
  if (n == "__errno_location") { return vPtr(OBJ_ERRNO, mkC(64, 0)); }
  if (n == "feraiseexcept" || n == "fesetexcept" || n == "fesetexceptflag") { AV a = A(0); AV old = S.fe; S.fe = iOr(old, a); return vS(mkC(32, 0)); }
  if (n == "fesetround" || n == "fesetenv" || n == "feupdateenv" || n == "feclearexcept" || n == "feholdexcept") { C.unknown.insert("fenv write " + n.str()); return vTop(t); }
  if (cb->doesNotReturn() || F->doesNotReturn()) { C.traps.emplace(n.str(), locOf(cb)); noret = true; return Val(); }
  // libm
  if ((n == "frexp" || n == "frexpf" || n == "frexpl") && cb->arg_size() == 2) { C.libm.insert(n.str()); AV m, e; frexpAV(A(0), m, e); storeTo(fr, S, cb->getArgOperand(1), vS(e), Type::getInt32Ty(F->getContext()), cb); return vS(m); }
  if ((n == "modf" || n == "modff" || n == "modfl") && cb->arg_size() == 2) { C.libm.insert(n.str()); AV x = A(0); AV tr = roundI(Intrinsic::trunc, x, 1), fr0; storeTo(fr, S, cb->getArgOperand(1), vS(tr), t, cb); if (!x.bot() && maskedDiff(x, tr, x.w, (x.ko & fSign(x.w)) ? 2u : 1u, fr0)) return vS(fr0); if (tr.single() && !(tr.lo() & ~fSign(x.w))) return vS(x); if (allIntegral(x, x.w)) { AV z; z.w = x.w; for (auto &i : x.iv) z.iv.push_back({i.lo & fSign(x.w), i.lo & fSign(x.w)}); norm(z); return vS(z); } return vS(modfFrac(x)); }
  if ((n.starts_with("nextafter") || n.starts_with("nexttoward")) && isF(t) && cb->arg_size() == 2 && C.rms) {
    C.libm.insert(n.str()); errnoMay(); AV x = A(0), y = A(1), xw = x;
    if (x.w < y.w) xw = fConv(x, y.w, 1);
    return vS(nextAV(C, x, y, xw, x.w == y.w ? &y : nullptr));
  }
  std::string base = n.str(); unsigned w = scW(t); if (isF(t)) { if (w != 64 && !base.empty()) base.pop_back(); 
    bool allF = true; for (unsigned i = 0; i < cb->arg_size(); i++) if (scW(cb->getArgOperand(i)->getType()) != w || !isF(cb->getArgOperand(i)->getType())) allF = false;
    bool ok; if (allF && cb->arg_size() >= 1 && cb->arg_size() <= 2) { hostCall(base, w, 1, 1, ok); if (base == "sqrt") { AV r = FDISP(w, sqrt(A(0), C.rms)); C.libm.insert(n.str()); errnoMay(); return vS(r); }
      if (ok) { C.libm.insert(n.str()); errnoMay(); AV b; if (cb->arg_size() == 2) b = A(1); AV x = A(0); if (base == "fdim" && !x.bot() && !b.bot()) { unsigned om = relMask(C, x, b, true) & fcmpMask(x, b); if (!(om & 12)) return vS(mkC(w, 0)); AV z; if (om == 4 && addZero(x, b, w, C.rms, true, z)) return vS(z); if (om == 4) { Val d = binOp(C, Instruction::FSub, vS(x), vS(b), t, false); return vS(meet(d.a, mkR(w, 1, fInf(w)))); } }
        return vS(libmAV(base, w, x, cb->arg_size() == 2 ? &b : nullptr, C.rms)); } } }
  { // further contracts: NaN in gives NaN out, exact exponents
    auto errnoTop = [&] { C.libm.insert(n.str()); errnoMay(); };
    auto onlyNaN = [&](unsigned i) { if (!isF(cb->getArgOperand(i)->getType())) return false; FV x = toFV(A(i)); return x.nan && x.c.empty(); };
    auto nanV = [&] { AV r; r.w = w; putNaN(r); return vS(finF(r)); };
    if (isF(t) && w) {
      static const std::set<std::string> anyNaN = {"ldexp", "scalbn", "scalbln", "fma", "nexttoward", "frexp", "fmod", "remainder", "remquo", "fdim", "atan2", "nextafter", "tgamma", "lgamma"};
      if (anyNaN.count(base)) { bool nn = false; for (unsigned i = 0; i < cb->arg_size(); i++) nn |= onlyNaN(i); if (nn) { errnoTop(); if (base == "remquo" || base == "frexp") for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->getArgOperand(i)->getType()->isPointerTy()) { Val p = V(i); if (p.k == Val::Ptr) for (auto &q : p.p) if (q.obj > 1 && !OI[q.obj].gv) { Obj &o = mobj(S, q.obj); o.c.clear(); o.zero = false; } } return nanV(); } }
      if ((base == "ldexp" || base == "scalbn" || base == "scalbln") && cb->arg_size() == 2) { errnoTop(); C.libm.insert(n.str()); AV x = A(0); FV f = toFV(x); bool fix = !f.c.empty(); for (auto &p : f.c) if (!(p.hi == 0 || p.lo == (long double)INFINITY)) fix = false; return vS(fix ? x : ldexpAV(x, A(1), C.rms)); }
    } else if (n == "ilogb" || n == "ilogbf" || n == "ilogbl") { errnoTop(); AV x = A(0); FV f = toFV(x); AV r; r.w = 32; auto put1 = [&](int v) { r.iv.push_back({(uint32_t)v, (uint32_t)v}); }; if (f.nan) put1(INT_MIN); for (auto &p : f.c) { long double lo = p.lo, hi = p.hi; if (lo == 0) { put1(INT_MIN); if (hi == 0) continue; lo = x.w == 32 ? 0x1p-149L : x.w == 64 ? (long double)0x1p-1074 : 0x1p-16445L; } if (hi == (long double)INFINITY) { put1(INT_MAX); if (lo == hi) continue; hi = x.w == 32 ? (long double)FLT_MAX : x.w == 64 ? (long double)DBL_MAX : LDBL_MAX; } r = [&] { AV q = r; AV z = fromSigned(32, ilogbl(lo), ilogbl(hi)); for (auto &i : z.iv) q.iv.push_back(i); return q; }(); } norm(r); return vS(r); }
  }
  if (base == "fma" && isF(t) && w && cb->arg_size() == 3) { C.libm.insert(n.str()); errnoMay(); return vS(FDISP(w, fma(A(0), A(1), A(2), C.rms))); }
  C.libm.insert(n.str()); 
  for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->getArgOperand(i)->getType()->isPointerTy()) { Val p = V(i); if (p.k == Val::Ptr) for (auto &q : p.p) if (q.obj > 1 && !OI[q.obj].gv) { Obj &o = mobj(S, q.obj); o.c.clear(); o.zero = false; } }
  errnoMay();
  return vTop(t);
}
static int newObj(int64_t size, const std::string &n) { OI.push_back({nullptr, size, n}); return OI.size() - 1; }
static CallRes runFn(const Function *F, std::vector<Val> args, State &S0, Ctx &C, bool top) {
  FnInfo &fi = fnInfo(F); Frame fr; fr.F = F; fr.fi = &fi; fr.C = &C; fr.top = top; fr.vals.resize(fi.n); C.depth++;
  for (unsigned i = 0; i < F->arg_size(); i++) { fr.vals[fi.id[F->getArg(i)]] = args[i]; if (args[i].k == Val::Sc && args[i].a.aff >= 0 && !args[i].a.affc && args[i].a.w == C.box[args[i].a.aff].w) fr.affArg.push_back({F->getArg(i), args[i].a.aff}); }
  std::map<int, State> pend; { State s = S0; s.ov.clear(); s.phi.clear(); s.init = true; pend[0] = s; }
  CallRes R; State retS; retS.init = false; std::map<const BasicBlock *, long> visits;
  auto fixAff = [&](AV &r) { // all bits are the bits of one argument: it is a copy of it
    if (r.aff >= 0 || !r.prov || r.bot() || r.w < 8) return; int i = -1; for (unsigned k = 0; k < r.w; k++) if ((*r.prov)[k] >= 0) { if ((*r.prov)[k] % 128 != (int)k) return; i = (*r.prov)[k] / 128; break; } if (i < 0 || i > 15) return; unsigned n = AFFW[i]; if (!n || r.w < n) return; const AV &bx = C.box[i];
    for (unsigned k = 0; k < n; k++) if ((*r.prov)[k] != i * 128 + (int)k) { u128 bit = (u128)1 << k; if (!((r.kz & bx.kz & bit) || (r.ko & bx.ko & bit))) return; } u128 hiM = maskw(r.w) & ~maskw(n); if ((r.kz & hiM) != hiM) return;
    AV b = C.box[i]; b.prov = nullptr; if (b.w < r.w) b = iZext(b, r.w); AV m = meet(r, b); if (m.bot()) return; m.prov = r.prov; m.aff = i; m.affc = 0; r = m; };
  auto setV = [&](State &S, const Value *v, Val x) { if (x.k == Val::Sc) { fixAff(x.a); if (x.a.w == 128 && x.a.aff >= 0 && x.a.affc && !x.a.pu) { static std::atomic<uint32_t> ctr{1}; x.a.pu = ctr++; x.a.pa = x.a.aff; x.a.pc = x.a.affc; x.a.po = 0; x.a.pl = 128; x.a.pat = 0; } } fr.vals[fi.id[v]] = std::move(x); if (!S.ov.empty()) S.ov.erase(v); };
  while (!pend.empty()) {
    auto it = pend.begin(); int bi = it->first; State S = std::move(it->second); pend.erase(it); const BasicBlock *B = fi.blocks[bi];
    long vc = ++visits[B]; if (vc > C.maxLoop) C.maxLoop = vc; if (vc > C.maxVisits) throw Abort{"loop bound exceeded @ " + locOf(B->getTerminator())};
    for (auto &p : S.phi) { S.ov.erase(p.first); fr.vals[fi.id[p.first]] = p.second; } S.phi.clear();
    bool dead = false;
    for (auto &I : *B) {
      if (isa<PHINode>(I)) continue;
      if (++C.steps > C.maxSteps) throw Abort{"step budget @ " + locOf(&I)};
      if (C.trace && I.getDebugLoc() && !isa<DbgInfoIntrinsic>(I)) { std::string l = locOf(&I); if (C.trace->empty() || C.trace->back() != l) C.trace->push_back(l); }
      if (I.isTerminator()) break;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Val r;
      if (auto *b = dyn_cast<BinaryOperator>(&I)) r = binOp(C, b->getOpcode(), get(fr, S, b->getOperand(0)), get(fr, S, b->getOperand(1)), b->getType(), b->getOperand(0) == b->getOperand(1));
      else if (auto *c = dyn_cast<CastInst>(&I)) r = castOp(C, c->getOpcode(), get(fr, S, c->getOperand(0)), c->getSrcTy(), c->getType());
      else if (auto *c = dyn_cast<CmpInst>(&I)) r = cmpOp(C, c, get(fr, S, c->getOperand(0)), get(fr, S, c->getOperand(1)), c->getOperand(0) == c->getOperand(1));
      else if (I.getOpcode() == Instruction::FNeg) { Val x = get(fr, S, I.getOperand(0)); r = mapAgg(x, [&](const Val &e) { return e.k == Val::Sc ? vS(fNegA(e.a)) : vTop(I.getType()->getScalarType()); }); }
      else if (auto *s = dyn_cast<SelectInst>(&I)) {
        Val c = get(fr, S, s->getCondition());
        if (c.k == Val::Agg) { Val x = get(fr, S, s->getTrueValue()), y = get(fr, S, s->getFalseValue()); if (x.k == Val::Agg && y.k == Val::Agg) { r.k = Val::Agg; for (size_t i = 0; i < c.g.size(); i++) { AV cc = c.g[i].k == Val::Sc ? c.g[i].a : mkTop(1); Val o; if (contains(cc, 1)) o = joinV(o, x.g[i]); if (contains(cc, 0)) o = joinV(o, y.g[i]); r.g.push_back(o); } } else r = vTop(I.getType()); }
        else { AV ca = c.k == Val::Sc ? c.a : mkTop(1); bool t1 = contains(ca, 1), t0 = contains(ca, 0);
          if (t1 && !t0) r = get(fr, S, s->getTrueValue()); else if (t0 && !t1) r = get(fr, S, s->getFalseValue());
          else { noteSplit(C, fr, S, s->getCondition()); State a = S, b = S; bool fa = refineCond(fr, a, s->getCondition(), true, 8), fb = refineCond(fr, b, s->getCondition(), false, 8); if (fa) r = joinV(r, get(fr, a, s->getTrueValue())); if (fb) r = joinV(r, get(fr, b, s->getFalseValue())); if (!fa && !fb) r = vTop(I.getType()); } } }
      else if (auto *l = dyn_cast<LoadInst>(&I)) r = loadFrom(fr, S, l->getPointerOperand(), l->getType(), &I);
      else if (auto *st = dyn_cast<StoreInst>(&I)) { storeTo(fr, S, st->getPointerOperand(), get(fr, S, st->getValueOperand()), st->getValueOperand()->getType(), &I); continue; }
      else if (auto *al = dyn_cast<AllocaInst>(&I)) { int64_t sz = DL->getTypeAllocSize(al->getAllocatedType()); if (auto *ci = dyn_cast<ConstantInt>(al->getArraySize())) sz *= ci->getSExtValue(); int &o = fr.allocaObj[al]; if (!o) o = newObj(sz, "alloca"); auto ob = std::make_shared<Obj>(); ob->size = sz; if (S.mem.use_count() > 1) S.mem = std::make_shared<Mem>(*S.mem); (*S.mem)[o] = ob; r = vPtr(o, mkC(64, 0)); }
      else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        Val p = get(fr, S, g->getPointerOperand()); if (p.k != Val::Ptr) r = vUnk(); else {
          AV off = mkC(64, 0); bool bad = false;
          for (gep_type_iterator gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) { const Value *ix = gi.getOperand();
            if (StructType *st2 = gi.getStructTypeOrNull()) off = iAdd(off, mkC(64, DL->getStructLayout(st2)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue())));
            else { Val iv = get(fr, S, ix); if (iv.k != Val::Sc) { bad = true; break; } AV a = iv.a.w < 64 ? iSext(iv.a, 64) : iv.a.w > 64 ? iTrunc(iv.a, 64) : iv.a; off = iAdd(off, iMul(a, mkC(64, DL->getTypeAllocSize(gi.getIndexedType())))); } }
          if (bad) r = vUnk(); else { r = p; for (auto &q : r.p) q.off = iAdd(q.off, off); } } }
      else if (auto *x = dyn_cast<ExtractValueInst>(&I)) { Val v = get(fr, S, x->getAggregateOperand()); for (unsigned i : x->indices()) { if (v.k != Val::Agg || i >= v.g.size()) { v = vTop(I.getType()); break; } Val t = v.g[i]; v = t; } r = v; if (r.k == Val::Unk) r = vTop(I.getType()); }
      else if (auto *x = dyn_cast<InsertValueInst>(&I)) { Val v = get(fr, S, x->getAggregateOperand()), y = get(fr, S, x->getInsertedValueOperand()); if (v.k == Val::Agg && x->getNumIndices() == 1) { v.g[x->getIndices()[0]] = y; r = v; } else if (v.k == Val::Agg && x->getNumIndices() == 2 && v.g[x->getIndices()[0]].k == Val::Agg) { v.g[x->getIndices()[0]].g[x->getIndices()[1]] = y; r = v; } else r = vTop(I.getType()); }
      else if (auto *x = dyn_cast<ExtractElementInst>(&I)) { Val v = get(fr, S, x->getVectorOperand()); AV ix = getA(fr, S, x->getIndexOperand()); if (v.k == Val::Agg && ix.single() && ix.lo() < v.g.size()) r = v.g[(size_t)ix.lo()]; else r = vTop(I.getType()); }
      else if (auto *x = dyn_cast<InsertElementInst>(&I)) { Val v = get(fr, S, x->getOperand(0)); AV ix = getA(fr, S, x->getOperand(2)); if (v.k == Val::Agg && ix.single() && ix.lo() < v.g.size()) { v.g[(size_t)ix.lo()] = get(fr, S, x->getOperand(1)); r = v; } else r = vTop(I.getType()); }
      else if (auto *x = dyn_cast<ShuffleVectorInst>(&I)) { Val a = get(fr, S, x->getOperand(0)), b = get(fr, S, x->getOperand(1)); if (a.k == Val::Agg && b.k == Val::Agg) { r.k = Val::Agg; for (int m : x->getShuffleMask()) { if (m < 0) r.g.push_back(vTop(I.getType()->getScalarType())); else r.g.push_back((size_t)m < a.g.size() ? a.g[m] : b.g[m - a.g.size()]); } } else r = vTop(I.getType()); }
      else if (isa<FreezeInst>(I)) r = get(fr, S, I.getOperand(0));
      else if (auto *cb = dyn_cast<CallInst>(&I)) { bool nr; r = call(fr, S, cb, nr); if (nr) { dead = true; break; } if (I.getType()->isVoidTy()) continue; if (r.k == Val::Bot) r = vTop(I.getType()); }
      else { C.unknown.insert(std::string("opcode ") + I.getOpcodeName()); r = vTop(I.getType()); }
      if (r.k == Val::Sc && r.a.bot()) { dead = true; break; }
      setV(S, &I, std::move(r));
    }
    if (dead) continue;
    const Instruction *T = B->getTerminator();
    auto go = [&](State &E, const BasicBlock *to) {
      for (auto &p : to->phis()) { Val v = get(fr, E, p.getIncomingValueForBlock(B)); E.phi[&p] = v; }
      auto oi = fi.ord.find(to); if (oi == fi.ord.end()) return;
      joinState(pend[oi->second], E);
    };
    if (auto *br = dyn_cast<BranchInst>(T)) {
      if (!br->isConditional()) { go(S, br->getSuccessor(0)); continue; }
      AV c = getA(fr, S, br->getCondition()); bool t1 = contains(c, 1), t0 = contains(c, 0);
      if (t1 && t0) { C.branched = true; noteSplit(C, fr, S, br->getCondition()); }
      if (t1) { State E = S; if (refineCond(fr, E, br->getCondition(), true, 10)) go(E, br->getSuccessor(0)); }
      if (t0) { State E = S; if (refineCond(fr, E, br->getCondition(), false, 10)) go(E, br->getSuccessor(1)); }
    } else if (auto *sw = dyn_cast<SwitchInst>(T)) {
      AV c = getA(fr, S, sw->getCondition()); AV rest = c; bool multi = !c.single(); if (multi) C.branched = true;
      for (auto &cs : sw->cases()) { u128 v = apToAV(cs.getCaseValue()->getValue()).lo(); if (!contains(c, v)) continue; State E = S; if (refine(fr, E, sw->getCondition(), mkC(c.w, v), 8)) go(E, cs.getCaseSuccessor());
        AV ne; ne.w = c.w; if (v > 0) ne.iv.push_back({0, v - 1}); if (v < maskw(c.w)) ne.iv.push_back({v + 1, maskw(c.w)}); norm(ne); rest = meet(rest, ne);
        if (multi && top && C.splits.size() <= 6) { // split candidates through the scrutinee
          State a = S; if (refine(fr, a, sw->getCondition(), mkC(c.w, v), 10)) for (unsigned i = 0; i < F->arg_size(); i++) { Val x = get(fr, a, F->getArg(i)); if (x.k == Val::Sc) { AV bx = meet(C.box[i], x.a); if (!bx.bot() && !sameSet(bx, C.box[i])) { u128 d = (bx.kz | bx.ko) & ~(C.box[i].kz | C.box[i].ko); if (d) { Split s; s.arg = i; u128 bit = (u128)1 << hibit(d); AV p = C.box[i], q = C.box[i]; p.kz |= bit; q.ko |= bit; norm(p); norm(q); if (!p.bot() && !q.bot()) { s.parts = {p, q}; C.splits.push_back(s); } } } } } } }
      if (!rest.bot()) { State E = S; if (refine(fr, E, sw->getCondition(), rest, 8)) go(E, sw->getDefaultDest()); }
    } else if (auto *rt = dyn_cast<ReturnInst>(T)) {
      if (rt->getReturnValue()) R.v = joinV(R.v, get(fr, S, rt->getReturnValue())); R.ret = true; S.ov.clear(); S.phi.clear(); joinState(retS, S);
    } else if (auto *iv = dyn_cast<InvokeInst>(T)) { bool nr; Val r = call(fr, S, iv, nr); if (nr) continue; if (!iv->getType()->isVoidTy()) { if (r.k == Val::Bot) r = vTop(iv->getType()); setV(S, iv, r); } go(S, iv->getNormalDest()); }
    else if (isa<UnreachableInst>(T)) { C.traps.emplace("unreachable", locOf(T)); }
    else throw Abort{std::string("terminator ") + T->getOpcodeName()};
  }
  C.depth--;
  if (R.ret) { S0.mem = retS.mem; S0.fe = retS.fe; }
  return R;
}
