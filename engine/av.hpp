// Abstract value domain: sets of disjoint unsigned bit-pattern intervals (<=128 bits wide),
// known-zero/known-one masks, "copy of argument bit" provenance and "argument + constant" affine tags.
// Integers and floating-point values share one representation (a float is its bit pattern), so a
// bitcast is the identity.
#pragma once
#include <algorithm>
#include <array>
#include <cerrno>
#include <cfenv>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <vector>
typedef unsigned __int128 u128;
typedef __int128 i128;
struct IV { u128 lo, hi; };
static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static const unsigned MAXIV = 8;
typedef std::array<int16_t, 128> Prov; // -1 unknown, else arg*128+bit

struct AV {
  unsigned w = 0;
  std::vector<IV> iv; // sorted, disjoint, non adjacent; empty = bottom
  u128 kz = 0, ko = 0;
  int aff = -1;
  u128 affc = 0;
  std::shared_ptr<const Prov> prov;
  // piece of a wide "argument + constant" value: bits [at,at+len) are bits [off,off+len) of value number pu, the others are 0
  uint32_t pu = 0; int8_t pa = -1; uint8_t po = 0, pl = 0, pat = 0; u128 pc = 0;
  bool bot() const { return iv.empty(); }
  bool single() const { return iv.size() == 1 && iv[0].lo == iv[0].hi; }
  u128 lo() const { return iv.front().lo; }
  u128 hi() const { return iv.back().hi; }
  bool full() const { return iv.size() == 1 && iv[0].lo == 0 && iv[0].hi == maskw(w) && !kz && !ko; }
};
static inline int hibit(u128 x) { // index of highest set bit, -1 if 0
  uint64_t h = (uint64_t)(x >> 64), l = (uint64_t)x;
  if (h) return 127 - __builtin_clzll(h);
  if (l) return 63 - __builtin_clzll(l);
  return -1;
}
static inline int ctz128(u128 x) {
  uint64_t h = (uint64_t)(x >> 64), l = (uint64_t)x;
  if (l) return __builtin_ctzll(l);
  if (h) return 64 + __builtin_ctzll(h);
  return 128;
}
// smallest v >= x with (v & kz)==0 and (v & ko)==ko within w bits; false if none
static inline bool nextMatch(u128 x, u128 kz, u128 ko, unsigned w, u128 &out) {
  u128 m = maskw(w), known = (kz | ko) & m;
  // bits of x at known positions must equal ko
  u128 diff = (x ^ ko) & known;
  if (!diff) { out = x; return true; }
  int d = hibit(diff);
  u128 bit = (u128)1 << d;
  if (ko & bit) { // x has 0 where 1 is required: set it, clear the lower free bits
    u128 r = (x & ~(bit | (bit - 1))) | bit | (ko & (bit - 1));
    // higher known bits of x already match
    out = r; return true;
  }
  // x has 1 where 0 required: increment a free zero bit above d
  u128 above = m & ~(((bit << 1) - 1));
  if (d == (int)w - 1) above = 0;
  u128 cand = ~x & above & ~known;
  if (!cand) return false;
  int c = ctz128(cand);
  u128 cb = (u128)1 << c;
  out = (x & ~(cb | (cb - 1))) | cb | (ko & (cb - 1));
  return true;
}
static inline bool prevMatch(u128 x, u128 kz, u128 ko, unsigned w, u128 &out) {
  // mirror: complement
  u128 m = maskw(w), r;
  if (!nextMatch(~x & m, ko & m, kz & m, w, r)) return false;
  out = ~r & m; return true;
}
static inline void mergeIV(std::vector<IV> &v) {
  if (v.size() > 1) {
    std::sort(v.begin(), v.end(), [](const IV &a, const IV &b) { return a.lo < b.lo; });
    size_t k = 0;
    for (size_t i = 1; i < v.size(); i++) {
      if (v[i].lo <= v[k].hi || v[i].lo == v[k].hi + 1) { if (v[i].hi > v[k].hi) v[k].hi = v[i].hi; }
      else v[++k] = v[i];
    }
    v.resize(k + 1);
  }
  while (v.size() > MAXIV) {
    size_t b = 1; u128 g = v[1].lo - v[0].hi;
    for (size_t i = 2; i < v.size(); i++) { u128 d = v[i].lo - v[i - 1].hi; if (d < g) { g = d; b = i; } }
    v[b - 1].hi = v[b].hi; v.erase(v.begin() + b);
  }
}
static inline void norm(AV &a) {
  u128 m = maskw(a.w);
  a.kz &= m; a.ko &= m;
  if (a.kz & a.ko) { a.iv.clear(); return; }
  mergeIV(a.iv);
  if (a.iv.empty()) return;
  if (a.kz | a.ko) {
    std::vector<IV> r; 
    for (auto &i : a.iv) {
      u128 l, h;
      if (!nextMatch(i.lo, a.kz, a.ko, a.w, l) || l > i.hi) continue;
      if (!prevMatch(i.hi, a.kz, a.ko, a.w, h) || h < l) continue;
      r.push_back({l, h});
    }
    a.iv.swap(r);
    if (a.iv.empty()) return;
  }
  // known bits from the intervals
  u128 kz = m, ko = m;
  for (auto &i : a.iv) {
    u128 x = i.lo ^ i.hi; int h = hibit(x);
    u128 fixed = m; if (h >= 0) fixed = m & ~((((u128)1 << h) << 1) - 1);
    if (h == 127) fixed = 0;
    kz &= fixed & ~i.lo; ko &= fixed & i.lo;
  }
  a.kz |= kz; a.ko |= ko;
}
static inline AV mkTop(unsigned w) { AV a; a.w = w; a.iv.push_back({0, maskw(w)}); return a; }
static inline AV mkBot(unsigned w) { AV a; a.w = w; return a; }
static inline AV mkC(unsigned w, u128 c) { AV a; a.w = w; c &= maskw(w); a.iv.push_back({c, c}); a.ko = c; a.kz = ~c & maskw(w); return a; }
static inline AV mkR(unsigned w, u128 lo, u128 hi) { AV a; a.w = w; a.iv.push_back({lo, hi}); norm(a); return a; }
static inline AV mkIV(unsigned w, std::vector<IV> v) { AV a; a.w = w; a.iv = std::move(v); norm(a); return a; }
static inline bool contains(const AV &a, u128 v) {
  if ((v & a.kz) || ((v & a.ko) != a.ko)) return false;
  for (auto &i : a.iv) if (v >= i.lo && v <= i.hi) return true;
  return false;
}
static inline std::shared_ptr<const Prov> joinProv(const AV &a, const AV &b) {
  if (!a.prov && !b.prov) return nullptr;
  if (!a.prov || !b.prov) {
    // unknown provenance on one side: constant bits do not matter, provenance does
    return nullptr;
  }
  if (a.prov == b.prov) return a.prov;
  auto p = std::make_shared<Prov>(); bool any = false;
  for (int i = 0; i < 128; i++) { int16_t x = (*a.prov)[i] == (*b.prov)[i] ? (*a.prov)[i] : -1; (*p)[i] = x; any |= x >= 0; }
  if (!any) return nullptr;
  return p;
}
static inline void piece(AV &r, const AV &a, int off, int len, int at) { if (!a.pu || len <= 0) return; r.pu = a.pu; r.pa = a.pa; r.pc = a.pc; r.po = off; r.pl = len; r.pat = at; }
static inline AV join(const AV &a, const AV &b) {
  if (a.bot()) return b;
  if (b.bot()) return a;
  AV r; r.w = a.w; r.iv = a.iv; r.iv.insert(r.iv.end(), b.iv.begin(), b.iv.end());
  r.kz = a.kz & b.kz; r.ko = a.ko & b.ko;
  if (a.aff >= 0 && a.aff == b.aff && a.affc == b.affc) { r.aff = a.aff; r.affc = a.affc; }
  r.prov = joinProv(a, b);
  norm(r); return r;
}
static inline AV meet(const AV &a, const AV &b) { // keeps a's tags
  AV r = a; r.iv.clear();
  for (auto &x : a.iv) for (auto &y : b.iv) { u128 l = std::max(x.lo, y.lo), h = std::min(x.hi, y.hi); if (l <= h) r.iv.push_back({l, h}); }
  r.kz |= b.kz; r.ko |= b.ko;
  norm(r); return r;
}
static inline bool sameSet(const AV &a, const AV &b) {
  if (a.iv.size() != b.iv.size() || a.kz != b.kz || a.ko != b.ko) return false;
  for (size_t i = 0; i < a.iv.size(); i++) if (a.iv[i].lo != b.iv[i].lo || a.iv[i].hi != b.iv[i].hi) return false;
  return true;
}
static inline bool subset(const AV &a, const AV &b) { // a subset of b (interval view, b's known bits honoured)
  if (a.bot()) return true;
  for (auto &x : a.iv) {
    bool ok = false;
    for (auto &y : b.iv) if (x.lo >= y.lo && x.hi <= y.hi) { ok = true; break; }
    if (!ok) return false;
  }
  // bits known in b beyond what intervals say
  return (b.kz & ~a.kz) == 0 && (b.ko & ~a.ko) == 0;
}
static inline bool subsetIv(const AV &a, const std::vector<IV> &b) {
  for (auto &x : a.iv) {
    bool ok = false;
    for (auto &y : b) if (x.lo >= y.lo && x.hi <= y.hi) { ok = true; break; }
    if (!ok) return false;
  }
  return true;
}
static inline bool disjoint(const AV &a, const std::vector<IV> &b) {
  for (auto &x : a.iv) for (auto &y : b) {
    u128 l = std::max(x.lo, y.lo), h = std::min(x.hi, y.hi);
    if (l > h) continue;
    u128 v; if (nextMatch(l, a.kz, a.ko, a.w, v) && v <= h) return false;
  }
  return true;
}
static inline u128 countAV(const AV &a) { u128 c = 0; for (auto &i : a.iv) { u128 n = i.hi - i.lo; c += n; if (c < n) return ~(u128)0; c += 1; } return c; }

// ---------------------------------------------------------------- integer ops
static inline void addWrap(std::vector<IV> &out, u128 lo, u128 hi, bool ovf, unsigned w) { // [lo,hi] before wrap, hi-lo < 2^w guaranteed unless ovf
  u128 m = maskw(w);
  if (ovf) { out.push_back({0, m}); return; }
  u128 l = lo & m, h = hi & m;
  if (l <= h) out.push_back({l, h}); else { out.push_back({0, h}); out.push_back({l, m}); }
}
static inline AV kbAdd(const AV &a, const AV &b, bool cin, AV r) { // known bits for a+b(+cin)
  unsigned w = a.w; u128 m = maskw(w);
  // classic: possible sums
  u128 amin = a.ko, amax = ~a.kz & m, bmin = b.ko, bmax = ~b.kz & m;
  u128 smin = (amin + bmin + cin) & m, smax = (amax + bmax + cin) & m;
  u128 cz = ~(smax ^ amax ^ bmax) & m; // carry known zero where max-sum carry = 0
  u128 co = (smin ^ amin ^ bmin) & m;  // carry known one where min-sum carry = 1
  u128 known = (a.kz | a.ko) & (b.kz | b.ko) & (cz | co);
  r.kz |= ~smax & known & m; r.ko |= smin & known;
  norm(r); return r;
}
static inline AV iAdd(const AV &a, const AV &b) {
  AV r; r.w = a.w; u128 m = maskw(a.w);
  if (a.bot() || b.bot()) return r;
  for (auto &x : a.iv) for (auto &y : b.iv) {
    u128 sx = x.hi - x.lo, sy = y.hi - y.lo;
    bool ovf = (sx + sy < sx) || (a.w < 128 && sx + sy > m);
    addWrap(r.iv, x.lo + y.lo, x.hi + y.hi, ovf, a.w);
  }
  norm(r); r = kbAdd(a, b, false, r);
  if (b.single() && a.aff >= 0) { r.aff = a.aff; r.affc = (a.affc + b.lo()) & m; }
  else if (a.single() && b.aff >= 0) { r.aff = b.aff; r.affc = (b.affc + a.lo()) & m; }
  if (((~a.kz & m) & (~b.kz & m)) == 0 && (a.prov || b.prov)) { // disjoint: acts as or
    auto p = std::make_shared<Prov>(); p->fill(-1); bool any = false;
    for (unsigned i = 0; i < a.w; i++) {
      u128 bit = (u128)1 << i;
      if ((a.kz & bit) && b.prov) (*p)[i] = (*b.prov)[i];
      else if ((b.kz & bit) && a.prov) (*p)[i] = (*a.prov)[i];
      any |= (*p)[i] >= 0;
    }
    if (any) r.prov = p;
  } else if (b.single() && b.lo() != 0 && a.prov) { // adding c: bits below lowest set bit of c unchanged
    int t = ctz128(b.lo()); auto p = std::make_shared<Prov>(); p->fill(-1); bool any = false;
    for (int i = 0; i < t; i++) { (*p)[i] = (*a.prov)[i]; any |= (*p)[i] >= 0; }
    if (any) r.prov = p;
  } else if (b.single() && b.lo() == 0) r.prov = a.prov;
  return r;
}
static inline AV iNot(const AV &a) {
  AV r; r.w = a.w; u128 m = maskw(a.w);
  for (auto &x : a.iv) r.iv.push_back({~x.hi & m, ~x.lo & m});
  r.kz = a.ko; r.ko = a.kz; norm(r); return r;
}
static inline AV iNeg(const AV &a) { return iAdd(iNot(a), mkC(a.w, 1)); }
static inline AV iSub(const AV &a, const AV &b) {
  AV r; r.w = a.w; u128 m = maskw(a.w);
  if (a.bot() || b.bot()) return r;
  if (a.aff >= 0 && a.aff == b.aff) return mkC(a.w, (a.affc - b.affc) & m);
  for (auto &x : a.iv) for (auto &y : b.iv) {
    u128 sx = x.hi - x.lo, sy = y.hi - y.lo;
    bool ovf = (sx + sy < sx) || (a.w < 128 && sx + sy > m);
    addWrap(r.iv, x.lo - y.hi, x.hi - y.lo, ovf, a.w);
  }
  norm(r); r = kbAdd(a, iNot(b), true, r);
  if (b.single() && a.aff >= 0) { r.aff = a.aff; r.affc = (a.affc - b.lo()) & m; }
  if (b.single() && b.lo() == 0) r.prov = a.prov;
  else if (b.single() && a.prov) {
    int t = ctz128(b.lo()); auto p = std::make_shared<Prov>(); p->fill(-1); bool any = false;
    for (int i = 0; i < t; i++) { (*p)[i] = (*a.prov)[i]; any |= (*p)[i] >= 0; }
    // subtracting exactly the bits known to be one acts as and-not
    if ((a.ko & b.lo()) == b.lo()) for (unsigned i = 0; i < a.w; i++) if (!((b.lo() >> i) & 1)) { (*p)[i] = (*a.prov)[i]; any |= (*p)[i] >= 0; }
    if (any) r.prov = p;
  }
  return r;
}
static inline bool mulOvf(u128 a, u128 b, u128 &r, unsigned w) {
  if (a == 0 || b == 0) { r = 0; return false; }
  r = a * b;
  if (r / a != b) return true;
  return r > maskw(w);
}
static inline AV iMul(const AV &a, const AV &b) {
  AV r; r.w = a.w; u128 m = maskw(a.w);
  if (a.bot() || b.bot()) return r;
  bool top = false;
  for (auto &x : a.iv) { for (auto &y : b.iv) {
      u128 l, h;
      if (x.lo == x.hi && y.lo == y.hi) { u128 v = (x.lo * y.lo) & m; r.iv.push_back({v, v}); continue; }
      if (mulOvf(x.hi, y.hi, h, a.w)) {
        // signed view: negative small values
        u128 sb = (u128)1 << (a.w - 1);
        auto sx = [&](u128 v) -> i128 { if (a.w == 128) return (i128)v; return (v & sb) ? (i128)v - ((i128)1 << a.w) : (i128)v; };
        bool xs = (x.lo & sb) == (x.hi & sb), ys = (y.lo & sb) == (y.hi & sb);
        if (a.w <= 64 && xs && ys) {
          i128 c[4] = {sx(x.lo) * sx(y.lo), sx(x.lo) * sx(y.hi), sx(x.hi) * sx(y.lo), sx(x.hi) * sx(y.hi)};
          i128 mn = *std::min_element(c, c + 4), mx = *std::max_element(c, c + 4);
          if ((u128)(mx - mn) <= m) { addWrap(r.iv, (u128)mn, (u128)mx, false, a.w); continue; }
        }
        top = true; break;
      }
      mulOvf(x.lo, y.lo, l, a.w); r.iv.push_back({l, h});
    } if (top) break; }
  if (top) { r.iv.clear(); r.iv.push_back({0, m}); }
  // trailing zeros
  int ta = ctz128(~a.kz & m), tb = ctz128(~b.kz & m); if (ta > (int)a.w) ta = a.w; if (tb > (int)a.w) tb = a.w;
  int t = std::min<int>(ta + tb, a.w); r.kz |= maskw(t);
  // low bits: if low k bits of both known, product's low k bits known
  u128 ka = a.kz | a.ko, kb = b.kz | b.ko; int k = std::min(ctz128(~ka), ctz128(~kb));
  if (k > 0) { if (k > (int)a.w) k = a.w; u128 v = (a.ko * b.ko) & maskw(k); r.ko |= v; r.kz |= ~v & maskw(k); }
  norm(r);
  if (b.single() && b.lo() == 1) { r.aff = a.aff; r.affc = a.affc; r.prov = a.prov; }
  return r;
}
static inline AV fromBits(unsigned w, u128 kz, u128 ko) { AV r; r.w = w; r.kz = kz & maskw(w); r.ko = ko & maskw(w); r.iv.push_back({0, maskw(w)}); norm(r); return r; }
static inline AV iShlC(const AV &a, unsigned c);
static inline AV iLshrC(const AV &a, unsigned c);
static inline AV iAnd(const AV &a, const AV &b) {
  if (a.bot() || b.bot()) return mkBot(a.w);
  u128 m = maskw(a.w);
  AV r = fromBits(a.w, a.kz | b.kz, a.ko & b.ko);
  auto doMask = [&](const AV &x, u128 M) {
    // contiguous mask from bit s to bit e
    if (M == 0) return;
    int s = ctz128(M), e = hibit(M);
    u128 top = maskw(a.w) & ~maskw(e + 1); // bits above the mask
    if (M != (maskw(e + 1) & ~maskw(s))) return;
    std::vector<IV> o;
    for (auto &i : x.iv) {
      u128 l = i.lo, h = i.hi;
      if ((l & top) == (h & top)) { o.push_back({l & M, h & M}); }
      else if (((h >> (e + 1)) - (l >> (e + 1))) == 1 && e + 1 < 128) { // wraps once
        if ((h & maskw(e+1)) < (l & maskw(e+1))) { o.push_back({0, h & M}); o.push_back({l & M, M}); } else o.push_back({0, M});
      } else o.push_back({0, M});
    }
    AV t; t.w = a.w; t.iv = o; t.kz = ~M & m; norm(t); r = meet(r, t);
  };
  if (b.single()) doMask(a, b.lo()); else if (a.single()) doMask(b, a.lo());
  // result <= min(max)
  u128 mx = std::min(a.hi(), b.hi()); if (mx < m) r = meet(r, mkR(a.w, 0, mx));
  if (a.prov || b.prov) {
    auto p = std::make_shared<Prov>(); p->fill(-1); bool any = false;
    for (unsigned i = 0; i < a.w; i++) {
      u128 bit = (u128)1 << i;
      if ((b.ko & bit) && a.prov && (*a.prov)[i] >= 0) (*p)[i] = (*a.prov)[i];
      else if ((a.ko & bit) && b.prov) (*p)[i] = (*b.prov)[i];
      else if (a.prov && b.prov && (*a.prov)[i] == (*b.prov)[i]) (*p)[i] = (*a.prov)[i];
      any |= (*p)[i] >= 0;
    }
    if (any) r.prov = p;
  }
  if (b.single() && (b.lo() | a.kz) == m) { r.aff = a.aff; r.affc = a.affc; }
  return r;
}
static inline AV iOr(const AV &a, const AV &b) {
  if (a.bot() || b.bot()) return mkBot(a.w);
  u128 m = maskw(a.w);
  AV r = fromBits(a.w, a.kz & b.kz, a.ko | b.ko);
  if (((~a.kz & m) & (~b.kz & m)) == 0) { AV s = iAdd(a, b); r = meet(r, s); r.aff = s.aff; r.affc = s.affc; }
  if (a.pu && a.pu == b.pu) { const AV &x = a.pat <= b.pat ? a : b, &y = a.pat <= b.pat ? b : a; if (x.pat + x.pl == y.pat && x.po + x.pl == y.po) { piece(r, x, x.po, x.pl + y.pl, x.pat); if (r.po == 0 && r.pat == 0 && r.pl >= 128 && r.w == 128) { r.aff = r.pa; r.affc = r.pc; } } }
  for (int k = 0; k < 2; k++) { const AV &x = k ? b : a, &y = k ? a : b; if (!y.single()) continue; u128 M = y.lo(); AV t; t.w = a.w; for (auto &i : x.iv) { int h = hibit(i.lo ^ i.hi); u128 vary = h < 0 ? 0 : h == 127 ? ~(u128)0 : ((((u128)1 << h) << 1) - 1); if (M & vary) { t.iv.push_back({M, m}); } else t.iv.push_back({i.lo | M, i.hi | M}); } norm(t); r = meet(r, t); }
  u128 mn = std::max(a.lo(), b.lo()); if (mn) r = meet(r, mkR(a.w, mn, m));
  if (a.prov || b.prov) {
    auto p = std::make_shared<Prov>(); p->fill(-1); bool any = false;
    for (unsigned i = 0; i < a.w; i++) {
      u128 bit = (u128)1 << i;
      if ((b.kz & bit) && a.prov && (*a.prov)[i] >= 0) (*p)[i] = (*a.prov)[i];
      else if ((a.kz & bit) && b.prov) (*p)[i] = (*b.prov)[i];
      else if (a.prov && b.prov && (*a.prov)[i] == (*b.prov)[i]) (*p)[i] = (*a.prov)[i];
      any |= (*p)[i] >= 0;
    }
    if (any) r.prov = p;
  }
  if (a.single() && a.lo() == 0) { r.aff = b.aff; r.affc = b.affc; }
  if (b.single() && b.lo() == 0) { r.aff = a.aff; r.affc = a.affc; }
  return r;
}
static inline AV iXor(const AV &a, const AV &b) {
  if (a.bot() || b.bot()) return mkBot(a.w);
  u128 m = maskw(a.w);
  if (b.single() && b.lo() == m) return iNot(a);
  if (a.single() && a.lo() == m) return iNot(b);
  u128 known = (a.kz | a.ko) & (b.kz | b.ko), v = (a.ko ^ b.ko) & known, eq = 0;
  if (a.prov && b.prov) for (unsigned i = 0; i < a.w; i++) if ((*a.prov)[i] >= 0 && (*a.prov)[i] == (*b.prov)[i]) eq |= (u128)1 << i;
  AV r = fromBits(a.w, (known & ~v) | eq, v & ~eq);
  if (b.single() && b.lo() == ((u128)1 << (a.w - 1))) { AV s = iAdd(a, b); r = meet(r, s); r.aff = s.aff; r.affc = s.affc; }
  else if (a.single() && a.lo() == ((u128)1 << (a.w - 1))) { AV s = iAdd(b, a); r = meet(r, s); r.aff = s.aff; r.affc = s.affc; }
  else if (((~a.kz & m) & (~b.kz & m)) == 0) r = meet(r, iAdd(a, b));
  else if (b.single() && (a.ko & b.lo()) == b.lo()) r = meet(r, iSub(a, b));
  if (a.prov || b.prov) {
    auto p = std::make_shared<Prov>(); p->fill(-1); bool any = false;
    for (unsigned i = 0; i < a.w; i++) {
      u128 bit = (u128)1 << i;
      if ((b.kz & bit) && a.prov && (*a.prov)[i] >= 0) (*p)[i] = (*a.prov)[i];
      else if ((a.kz & bit) && b.prov) (*p)[i] = (*b.prov)[i];
      any |= (*p)[i] >= 0;
    }
    if (any) r.prov = p;
  }
  if (b.single() && b.lo() == 0) { r.aff = a.aff; r.affc = a.affc; }
  return r;
}
static inline std::shared_ptr<const Prov> shiftProv(const std::shared_ptr<const Prov> &a, int by, unsigned w) { // by>0: left
  if (!a) return nullptr;
  auto p = std::make_shared<Prov>(); p->fill(-1); bool any = false;
  for (int i = 0; i < (int)w; i++) { int s = i - by; if (s >= 0 && s < 128) { (*p)[i] = (*a)[s]; any |= (*p)[i] >= 0; } }
  if (!any) return nullptr;
  return p;
}
static inline AV iShlC(const AV &a, unsigned c) {
  if (a.bot()) return a;
  u128 m = maskw(a.w);
  if (c == 0) return a;
  if (c >= a.w) return mkTop(a.w);
  AV r; r.w = a.w;
  for (auto &i : a.iv) {
    if ((i.lo >> (a.w - c)) == (i.hi >> (a.w - c))) r.iv.push_back({(i.lo << c) & m, (i.hi << c) & m});
    else r.iv.push_back({0, m});
  }
  r.kz = ((a.kz << c) | maskw(c)) & m; r.ko = (a.ko << c) & m;
  norm(r); r.prov = shiftProv(a.prov, c, a.w); piece(r, a, a.po, std::min<int>(a.pl, (int)a.w - (int)c - a.pat), a.pat + c); return r;
}
static inline AV iLshrC(const AV &a, unsigned c) {
  if (a.bot()) return a;
  u128 m = maskw(a.w);
  if (c == 0) return a;
  if (c >= a.w) return mkTop(a.w);
  AV r; r.w = a.w;
  for (auto &i : a.iv) r.iv.push_back({i.lo >> c, i.hi >> c});
  r.kz = (a.kz >> c) | (m & ~(m >> c)); r.ko = a.ko >> c;
  norm(r); r.prov = shiftProv(a.prov, -(int)c, a.w); { int d = std::max<int>(0, (int)c - a.pat); piece(r, a, a.po + d, (int)a.pl - d, std::max<int>(0, (int)a.pat - (int)c)); } return r;
}
static inline AV iSext(const AV &a, unsigned w);
static unsigned AFFW[16]; // widths of the entry arguments
static inline AV iTrunc(const AV &a, unsigned w);
static inline AV iAshrC(const AV &a, unsigned c) {
  if (a.bot()) return a;
  u128 m = maskw(a.w), sb = (u128)1 << (a.w - 1);
  if (c == 0) return a;
  if (c >= a.w) return mkTop(a.w);
  AV r; r.w = a.w; u128 fill = m & ~(m >> c);
  for (auto &i : a.iv) {
    auto put = [&](u128 l, u128 h) { u128 f = (l & sb) ? fill : 0; r.iv.push_back({(l >> c) | f, (h >> c) | f}); };
    if ((i.lo & sb) == (i.hi & sb)) put(i.lo, i.hi); else { put(i.lo, sb - 1); put(sb, i.hi); }
  }
  r.kz = (a.kz >> c) & ~fill; r.ko = (a.ko >> c) & ~fill;
  if (a.kz & sb) r.kz |= fill; if (a.ko & sb) r.ko |= fill;
  norm(r);
  if (a.prov) { auto p = std::make_shared<Prov>(); p->fill(-1); bool any = false;
    for (int i = 0; i < (int)a.w; i++) { int s = std::min<int>(i + c, a.w - 1); (*p)[i] = (*a.prov)[s]; any |= (*p)[i] >= 0; }
    if (any) r.prov = p; }
  return r;
}
template <class F> static inline AV iShiftV(const AV &a, const AV &s, F f) {
  if (a.bot() || s.bot()) return mkBot(a.w);
  if (s.single()) { if (s.lo() >= a.w) return mkTop(a.w); return f(a, (unsigned)s.lo()); }
  AV r = mkBot(a.w); bool first = true;
  for (auto &i : s.iv) for (u128 k = i.lo; k <= i.hi && k < a.w; k++) { if (!contains(s, k)) continue; AV t = f(a, (unsigned)k); if (first) { r = t; first = false; } else r = join(r, t); }
  if (s.hi() >= a.w) { // over-wide shifts are poison: contributes nothing beyond UB; keep sound
    if (first) return mkTop(a.w);
  }
  return r;
}
static inline AV iZext(const AV &a, unsigned w) { AV r = a; r.w = w; if (a.bot()) return r; r.aff = (a.w == w || !a.affc) ? a.aff : -1; r.kz |= maskw(w) & ~maskw(a.w); norm(r);
  if (a.prov) { auto p = std::make_shared<Prov>(*a.prov); for (unsigned i = a.w; i < 128; i++) (*p)[i] = -1; r.prov = p; } return r; }
static inline AV iTrunc(const AV &a, unsigned w) {
  AV r; r.w = w; u128 m = maskw(w);
  for (auto &i : a.iv) {
    if (i.hi - i.lo >= m) { r.iv.push_back({0, m}); continue; }
    u128 l = i.lo & m, h = i.hi & m;
    if (l <= h) r.iv.push_back({l, h}); else { r.iv.push_back({0, h}); r.iv.push_back({l, m}); }
  }
  r.kz = a.kz & m; r.ko = a.ko & m; if (!a.bot()) norm(r);
  if (a.aff >= 0 && a.aff < 16 && w >= AFFW[a.aff]) { r.aff = a.aff; r.affc = a.affc & m; }
  piece(r, a, a.po, std::min<int>(a.pl, (int)w - (int)a.pat), a.pat);
  if (a.prov) { auto p = std::make_shared<Prov>(*a.prov); bool any = false; for (unsigned i = 0; i < 128; i++) { if (i >= w) (*p)[i] = -1; any |= (*p)[i] >= 0; } if (any) r.prov = p; }
  return r;
}
static inline AV iSext(const AV &a, unsigned w) {
  AV r; r.w = w; u128 sb = (u128)1 << (a.w - 1), ext = maskw(w) & ~maskw(a.w);
  for (auto &i : a.iv) {
    if ((i.lo & sb) == (i.hi & sb)) { u128 e = (i.lo & sb) ? ext : 0; r.iv.push_back({i.lo | e, i.hi | e}); }
    else { r.iv.push_back({i.lo, sb - 1}); r.iv.push_back({sb | ext, i.hi | ext}); }
  }
  r.kz = a.kz; r.ko = a.ko; if (a.kz & sb) r.kz |= ext; if (a.ko & sb) r.ko |= ext;
  norm(r);
  if (a.prov) { auto p = std::make_shared<Prov>(*a.prov); for (unsigned i = a.w; i < w; i++) (*p)[i] = (*a.prov)[a.w - 1]; r.prov = p; }
  return r;
}
static inline i128 sval(u128 v, unsigned w) { if (w >= 128) return (i128)v; return ((v >> (w - 1)) & 1) ? (i128)v - ((i128)1 << w) : (i128)v; }
// signed hull pieces
static inline std::vector<std::pair<i128, i128>> signedIv(const AV &a) {
  std::vector<std::pair<i128, i128>> o; u128 sb = (u128)1 << (a.w - 1);
  for (auto &i : a.iv) {
    if ((i.lo & sb) == (i.hi & sb)) o.push_back({sval(i.lo, a.w), sval(i.hi, a.w)});
    else { o.push_back({sval(i.lo, a.w), sval(sb - 1, a.w)}); o.push_back({sval(sb, a.w), sval(i.hi, a.w)}); }
  }
  std::sort(o.begin(), o.end()); return o;
}
static inline i128 smin(const AV &a) { return signedIv(a).front().first; }
static inline i128 smax(const AV &a) { i128 m = signedIv(a)[0].second; for (auto &p : signedIv(a)) m = std::max(m, p.second); return m; }
static inline AV fromSigned(unsigned w, i128 lo, i128 hi) { // lo<=hi in range
  AV r; r.w = w; u128 m = maskw(w);
  u128 l = (u128)lo & m, h = (u128)hi & m;
  if ((lo < 0) == (hi < 0)) r.iv.push_back({l, h}); else { r.iv.push_back({0, h}); r.iv.push_back({l, m}); }
  norm(r); return r;
}
static inline AV iUdiv(const AV &a, const AV &b) {
  AV r; r.w = a.w; if (a.bot() || b.bot()) return r;
  for (auto &x : a.iv) for (auto &y : b.iv) { u128 yl = y.lo ? y.lo : 1; if (yl > y.hi) continue; r.iv.push_back({x.lo / y.hi, x.hi / yl}); }
  if (r.iv.empty()) return mkTop(a.w);
  norm(r); return r;
}
static inline AV iUrem(const AV &a, const AV &b) {
  AV r; r.w = a.w; if (a.bot() || b.bot()) return r;
  if (b.single() && b.lo()) {
    u128 d = b.lo();
    if ((d & (d - 1)) == 0) return iAnd(a, mkC(a.w, d - 1));
    for (auto &x : a.iv) { if (x.lo / d == x.hi / d) r.iv.push_back({x.lo % d, x.hi % d}); else r.iv.push_back({0, d - 1}); }
    norm(r); return r;
  }
  u128 mx = b.hi() ? b.hi() - 1 : 0;
  return mkR(a.w, 0, std::min(mx, a.hi()));
}
static inline AV iSdiv(const AV &a, const AV &b) {
  AV r = mkBot(a.w); if (a.bot() || b.bot()) return r;
  for (auto &x : signedIv(a)) for (auto &y : signedIv(b)) {
    auto part = [&](i128 yl, i128 yh) { if (yl > yh) return; i128 c[4] = {x.first / yl, x.first / yh, x.second / yl, x.second / yh};
      i128 mn = *std::min_element(c, c + 4), mx = *std::max_element(c, c + 4);
      if (x.first <= 0 && x.second >= 0) { mn = std::min<i128>(mn, 0); mx = std::max<i128>(mx, 0); }
      r = join(r, fromSigned(a.w, mn, mx)); };
    part(y.first, std::min<i128>(y.second, -1)); part(std::max<i128>(y.first, 1), y.second);
  }
  if (r.bot()) return mkTop(a.w);
  return r;
}
static inline AV iSrem(const AV &a, const AV &b) {
  if (a.bot() || b.bot()) return mkBot(a.w);
  if (a.single() && b.single() && b.lo() != 0) { i128 y = sval(b.lo(), b.w); if (y == -1) return mkC(a.w, 0); return mkC(a.w, (u128)(sval(a.lo(), a.w) % y)); }
  i128 m = std::max(smax(b), -smin(b)); if (m <= 0) return mkTop(a.w);
  i128 lo = smin(a) < 0 ? std::max(smin(a), -(m - 1)) : 0, hi = smax(a) > 0 ? std::min(smax(a), m - 1) : 0;
  if (smin(a) >= 0) { AV u = iUrem(a, b.single() && sval(b.lo(), b.w) > 0 ? b : mkR(a.w, 1, (u128)m)); return meet(u, fromSigned(a.w, lo, hi)); }
  return fromSigned(a.w, lo, hi);
}
// ---------------------------------------------------------------- floats
struct FmtInfo { unsigned w; u128 inf; u128 sign; };
static inline u128 fInf(unsigned w) { return w == 32 ? (u128)0x7f800000u : w == 64 ? (u128)0x7ff0000000000000ull : ((u128)0x7fff << 64 | (u128)1 << 63); }
static inline u128 fSign(unsigned w) { return (u128)1 << (w - 1); }
static inline long double bitsToLD(u128 b, unsigned w) {
  if (w == 32) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
  if (w == 64) { uint64_t x = (uint64_t)b; double f; memcpy(&f, &x, 8); return f; }
  long double f = 0; memcpy(&f, &b, 10); return f;
}
static inline u128 ldToBits(long double v, unsigned w) { // exact
  if (w == 32) { volatile float f = (float)v; float g = f; uint32_t x; memcpy(&x, &g, 4); return x; }
  if (w == 64) { volatile double f = (double)v; double g = f; uint64_t x; memcpy(&x, &g, 8); return x; }
  u128 b = 0; memcpy(&b, &v, 10); return b;
}
// canonical f80 magnitudes
static inline u128 canonUp(u128 m) { // smallest canonical >= m (79-bit magnitude)
  u128 e = m >> 64; uint64_t f = (uint64_t)m;
  if (e == 0) { if (f >> 63) return (u128)1 << 64 | (u128)1 << 63; return m; }
  if (!(f >> 63)) return (e << 64) | ((u128)1 << 63);
  return m;
}
static inline u128 canonDn(u128 m) {
  u128 e = m >> 64; uint64_t f = (uint64_t)m;
  if (e == 0) { if (f >> 63) return (((u128)1 << 63) - 1); return m; }
  if (!(f >> 63)) { if (e == 1) return ((u128)1 << 63) - 1; return ((e - 1) << 64) | (u128)0xffffffffffffffffull; }
  return m;
}
static inline AV canonF(const AV &a, unsigned w) {
  if (w != 80 || a.bot()) return a;
  AV r = a; r.iv.clear(); u128 s = fSign(80);
  for (auto &i : a.iv) {
    auto put = [&](u128 l, u128 h, u128 sg) { l = canonUp(l); h = canonDn(h); if (l <= h) r.iv.push_back({l | sg, h | sg}); };
    if ((i.lo & s) == (i.hi & s)) put(i.lo & ~s, i.hi & ~s, i.lo & s);
    else { put(i.lo, s - 1, 0); put(0, i.hi & ~s, s); }
  }
  norm(r); return r;
}
// 80-bit arguments are canonical encodings: the integer bit is set exactly when the exponent field is not 0.
// sorts: 1 = some exponent-0 encoding, 2 = some encoding with a non-zero exponent
static inline int sorts80(const AV &a) { int k = 0; u128 m = fSign(80) - 1; for (auto &i : a.iv) { if (((i.lo & m) >> 64) == 0 || (i.lo ^ i.hi) >> 79) k |= 1; if (((i.hi & m) >> 64) != 0 || (i.lo ^ i.hi) >> 79) k |= 2; } return k; }
static inline AV sort80(const AV &a0, int k) {
  AV a = a0, r = a0; r.iv.clear(); u128 s = fSign(80), J = (u128)1 << 63;
  for (u128 sg : {(u128)0, s}) for (auto &i : a.iv) { u128 l = sg | (k == 2 ? (u128)1 << 64 : 0), h = sg | (k == 2 ? s - 1 : J - 1); l = std::max(l, i.lo); h = std::min(h, i.hi); if (l <= h) r.iv.push_back({l, h}); }
  if (r.iv.empty()) return r;
  if (k == 2) r.ko |= J; else r.kz |= J;
  norm(r); return r;
}
static inline AV canonArg(const AV &a0, unsigned w) {
  AV a = canonF(a0, w); if (w != 80 || a.bot()) return a;
  u128 J = (u128)1 << 63; int k = sorts80(a); if (a.kz & J) k = 1; else if (a.ko & J) k = 2;
  return k == 3 ? a : sort80(a, k);
}
struct FC { bool neg; long double lo, hi; }; // magnitudes lo<=hi
struct FV { std::vector<FC> c; bool nan = false; };
static inline FV toFV(const AV &a0) {
  AV a = canonF(a0, a0.w);
  FV f; u128 s = fSign(a.w), inf = fInf(a.w);
  for (auto &i : a.iv) {
    auto part = [&](u128 l, u128 h, bool neg) {
      if (l <= inf) f.c.push_back({neg, bitsToLD(l, a.w), bitsToLD(std::min(h, inf), a.w)});
      if (h > inf) f.nan = true;
    };
    if ((i.lo & s) == (i.hi & s)) part(i.lo & ~s, i.hi & ~s, (i.lo & s) != 0);
    else { part(i.lo, s - 1, false); part(0, i.hi & ~s, true); }
  }
  return f;
}
static inline void putNaN(AV &r) { u128 inf = fInf(r.w), s = fSign(r.w); r.iv.push_back({inf + 1, s - 1}); r.iv.push_back({(s | inf) + 1, maskw(r.w)}); }
static inline void putMag(AV &r, bool neg, long double lo, long double hi) {
  u128 s = neg ? fSign(r.w) : 0; r.iv.push_back({ldToBits(lo, r.w) | s, ldToBits(hi, r.w) | s});
}
static inline long double minDen(unsigned w) { return bitsToLD(1, w); }
// put signed real range [lo,hi]; zero handled by pz/nz
static inline void putRange(AV &r, long double lo, long double hi, bool pz, bool nz) {
  if (lo > hi) return;
  if (lo < 0) putMag(r, true, hi < 0 ? -hi : minDen(r.w), -lo);
  if (hi > 0) putMag(r, false, lo > 0 ? lo : minDen(r.w), hi);
  if (pz) r.iv.push_back({0, 0});
  if (nz) r.iv.push_back({fSign(r.w), fSign(r.w)});
}
static inline AV finF(AV r) { norm(r); return r; }
static inline AV nanAV(unsigned w) { AV r; r.w = w; putNaN(r); return finF(r); }
static const int RMS[4] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
// rounding-mode set: bit i = RMS[i]
struct RMGuard { int o; RMGuard() { o = fegetround(); } ~RMGuard() { fesetround(o); } };
template <class T, class F> static inline void evalRM(unsigned rms, F f, long double &mn, long double &mx) {
  mn = INFINITY; mx = -INFINITY; bool any = false;
  if (rms == 1) { volatile T v = f(); T vv = v; if (vv == vv) mn = mx = vv; return; }
  for (int i = 0; i < 4; i++) if (rms >> i & 1) {
    fesetround(RMS[i]); volatile T v = f(); T vv = v; if (vv != vv) continue; any = true;
    long double l = vv; if (l < mn) mn = l; if (l > mx) mx = l;
  }
  fesetround(FE_TONEAREST);
  if (!any) { mn = INFINITY; mx = -INFINITY; }
}
template <class T> struct Fop {
  static AV add(const AV &a, const AV &b, unsigned rms, bool sub) {
    AV r; r.w = a.w; FV x = toFV(a), y = toFV(b); bool nan = x.nan || y.nan;
    const long double I = INFINITY;
    for (auto &p : x.c) for (auto &q0 : y.c) {
      FC q = q0; if (sub) q.neg = !q.neg;
      volatile T pl = p.neg ? -(T)p.hi : (T)p.lo, ph = p.neg ? -(T)p.lo : (T)p.hi, ql = q.neg ? -(T)q.hi : (T)q.lo, qh = q.neg ? -(T)q.lo : (T)q.hi;
      if (p.neg != q.neg && p.hi == I && q.hi == I) { nan = true; if (p.lo == I && q.lo == I) continue; }
      long double lo, hi, d1, d2; 
      evalRM<T>(rms, [&] { return (T)(pl + ql); }, lo, d1); evalRM<T>(rms, [&] { return (T)(ph + qh); }, d2, hi);
      // inf-inf at one corner only: use the safe bound
      if (lo == I && d1 == -I) lo = -I; if (hi == -I && d2 == I) hi = I;
      bool pz = false, nz = false;
      if (p.neg == q.neg) { if (p.lo == 0 && q.lo == 0) { pz = !p.neg; nz = p.neg; } }
      else if (std::max(p.lo, q.lo) <= std::min(p.hi, q.hi) && std::max(p.lo, q.lo) < I) { if (rms & ~2u) pz = true; if (rms & 2u) nz = true; }
      // exclude zero from the range if impossible is handled by putRange (zero only via flags)
      if (lo == 0 && hi == 0) putRange(r, 1, 0, pz, nz), putRange(r, 0, 0, pz, nz); else putRange(r, lo, hi, pz, nz);
    }
    if (nan) putNaN(r);
    return finF(r);
  }
  static AV mul(const AV &a, const AV &b, unsigned rms, bool same) {
    AV r; r.w = a.w; FV x = toFV(a), y = toFV(b); bool nan = x.nan || y.nan; const long double I = INFINITY;
    for (size_t i = 0; i < x.c.size(); i++) for (size_t j = 0; j < y.c.size(); j++) {
      if (same && i != j) continue;
      auto &p = x.c[i]; auto &q = y.c[j]; bool neg = p.neg != q.neg;
      if (!same && ((p.lo == 0 && q.hi == I) || (q.lo == 0 && p.hi == I))) nan = true;
      if (!same && ((p.hi == 0 && q.lo == I) || (q.hi == 0 && p.lo == I))) continue; // only NaN
      long double lo, hi, d; volatile T s = neg ? -1 : 1;
      auto M = [&](long double u, long double v, bool wantLo) -> long double { long double mn, mx; volatile T a1 = (T)u, b1 = (T)v;
        if ((u == 0 && v == I) || (v == 0 && u == I)) return wantLo ? 0 : (u == 0 && v == I ? 0 : 0);
        evalRM<T>(rms, [&] { return (T)((s * a1) * b1); }, mn, mx); if (neg) { d = mn; mn = -mx; mx = -d; } return wantLo ? mn : mx; };
      lo = M(p.lo, q.lo, true);
      if ((p.hi == 0 && q.hi == I) || (q.hi == 0 && p.hi == I)) hi = 0; else hi = M(p.hi, q.hi, false);
      putMag(r, neg, lo, hi);
    }
    if (nan) putNaN(r);
    return finF(r);
  }
  static AV div(const AV &a, const AV &b, unsigned rms, bool same) {
    AV r; r.w = a.w; FV x = toFV(a), y = toFV(b); bool nan = x.nan || y.nan; const long double I = INFINITY;
    for (size_t i = 0; i < x.c.size(); i++) for (size_t j = 0; j < y.c.size(); j++) {
      if (same && i != j) continue;
      auto &p = x.c[i]; auto &q = y.c[j]; bool neg = p.neg != q.neg;
      bool zz = p.lo == 0 && q.lo == 0, ii = p.hi == I && q.hi == I;
      if (same) { if (zz || ii) nan = true; if (p.hi == 0 || p.lo == I) continue; putMag(r, false, 1, 1); continue; }
      if (zz || ii) nan = true;
      if ((p.hi == 0 && q.hi == 0) || (p.lo == I && q.lo == I)) continue;
      long double lo, hi, d; volatile T s = neg ? -1 : 1;
      auto Dv = [&](long double u, long double v, bool wantLo) -> long double { long double mn, mx; volatile T a1 = (T)u, b1 = (T)v;
        evalRM<T>(rms, [&] { return (T)((s * a1) / b1); }, mn, mx); if (neg) { d = mn; mn = -mx; mx = -d; } return wantLo ? mn : mx; };
      if (p.lo == I) lo = I; else if (q.hi == I) lo = 0; else if (q.hi == 0) lo = I; else lo = p.lo == 0 ? 0 : Dv(p.lo, q.hi, true);
      if (p.hi == 0) hi = 0; else if (q.lo == 0) hi = I; else if (p.hi == I) hi = q.lo == I ? I : I; else hi = q.lo == I ? 0 : Dv(p.hi, q.lo, false);
      if (lo > hi) lo = 0;
      putMag(r, neg, lo, hi);
    }
    if (nan) putNaN(r);
    return finF(r);
  }
  static T tfma(T a, T b, T c) { return std::fma(a, b, c); }
  static AV fma(const AV &a, const AV &b, const AV &c, unsigned rms) {
    AV r; r.w = a.w; FV x = toFV(a), y = toFV(b), z = toFV(c); bool nan = x.nan || y.nan || z.nan; const long double I = INFINITY;
    for (auto &p : x.c) for (auto &q : y.c) {
      bool neg = p.neg != q.neg;
      if ((p.lo == 0 && q.hi == I) || (q.lo == 0 && p.hi == I)) nan = true;
      if ((p.hi == 0 && q.lo == I) || (q.hi == 0 && p.lo == I)) continue;
      for (auto &t : z.c) {
        bool pinf = p.hi == I || q.hi == I;
        if (pinf && t.hi == I && t.neg != neg) nan = true;
        if (p.lo == I || q.lo == I) { if (!(t.lo == I && t.neg != neg)) putMag(r, neg, I, I); continue; }
        if (t.lo == I) { putMag(r, t.neg, I, I); continue; }
        long double sg = neg ? -1 : 1;
        // product magnitude corners
        long double pl = p.lo, ql = q.lo, ph = p.hi, qh = q.hi;
        if ((pl == 0 && ql == I) || (pl == I && ql == 0)) { pl = 0; ql = 0; }
        if ((ph == 0 && qh == I) || (ph == I && qh == 0)) { ph = 0; qh = 0; }
        long double tl = t.neg ? -t.hi : t.lo, th = t.neg ? -t.lo : t.hi;
        volatile T la = (T)(sg * (neg ? ph : pl)), lb = (T)(neg ? qh : ql), ha = (T)(sg * (neg ? pl : ph)), hb = (T)(neg ? ql : qh), l3 = (T)tl, h3 = (T)th;
        long double lo, hi, d1, d2;
        evalRM<T>(rms, [&] { return tfma(la, lb, l3); }, lo, d1); evalRM<T>(rms, [&] { return tfma(ha, hb, h3); }, d2, hi);
        if (lo == I && d1 == -I) lo = -I; if (hi == -I && d2 == I) hi = I;
        bool pz = false, nz = false;
        bool prodZero = p.lo == 0 || q.lo == 0;
        if (neg == t.neg) { if (lo <= 0 && hi >= 0) { if (t.lo == 0) { pz = !neg; nz = neg; } } (void)prodZero; }
        else if (lo <= 0 && hi >= 0) { // exact cancellation, or underflow of a tiny difference cannot give zero ... keep both
          pz = nz = true; if (rms == 1 && false) nz = false;
        }
        if (lo == 0 && hi == 0) putRange(r, 0, 0, pz || !(pz || nz), nz); else putRange(r, lo, hi, pz, nz);
      }
    }
    if (nan) putNaN(r);
    return finF(r);
  }
  static AV sqrt(const AV &a, unsigned rms) {
    AV r; r.w = a.w; FV x = toFV(a); bool nan = x.nan;
    for (auto &p : x.c) {
      if (p.neg) { if (p.lo == 0) r.iv.push_back({fSign(a.w), fSign(a.w)}); if (p.hi > 0) nan = true; continue; }
      long double lo, hi, d; volatile T l = (T)p.lo, h = (T)p.hi;
      evalRM<T>(rms, [&] { return (T)std::sqrt((T)l); }, lo, d); evalRM<T>(rms, [&] { return (T)std::sqrt((T)h); }, d, hi);
      putMag(r, false, lo, hi);
    }
    if (nan) putNaN(r);
    return finF(r);
  }
};
#define FDISP(w, call) ((w) == 32 ? Fop<float>::call : (w) == 64 ? Fop<double>::call : Fop<long double>::call)
static inline AV fNegA(const AV &a) { return iXor(a, mkC(a.w, fSign(a.w))); }
static inline AV fAbsA(const AV &a) { return iAnd(a, mkC(a.w, fSign(a.w) - 1)); }
// rounding to integral by host function (monotone), keeps sign
template <class G> static inline AV fRoundInt(const AV &a, unsigned rms, bool modeDep, G g) {
  AV r; r.w = a.w; FV x = toFV(a);
  for (auto &p : x.c) {
    long double l = p.neg ? -p.hi : p.lo, h = p.neg ? -p.lo : p.hi, mn = INFINITY, mx = -INFINITY;
    for (int i = 0; i < 4; i++) if ((modeDep ? rms : 1u) >> i & 1) { fesetround(RMS[i]); volatile long double a1 = g(l), b1 = g(h); long double a2 = a1, b2 = b1; mn = std::min(mn, a2); mx = std::max(mx, b2); }
    fesetround(FE_TONEAREST);
    if (p.neg) putMag(r, true, mx == 0 ? 0 : -mx, -mn); else putMag(r, false, mn, mx);
  }
  if (x.nan) putNaN(r);
  return finF(r);
}
// conversion float->float
static inline AV fConv(const AV &a, unsigned w, unsigned rms) {
  AV r; r.w = w; FV x = toFV(a);
  for (auto &p : x.c) {
    auto cv = [&](long double v, bool wantLo) -> long double {
      long double mn, mx, s = p.neg ? -1 : 1; volatile long double vv = s * v;
      if (w == 32) evalRM<float>(rms, [&] { return (float)vv; }, mn, mx); else if (w == 64) evalRM<double>(rms, [&] { return (double)vv; }, mn, mx); else mn = mx = vv;
      if (p.neg) { long double d = mn; mn = -mx; mx = -d; } return wantLo ? mn : mx; };
    putMag(r, p.neg, cv(p.lo, true), cv(p.hi, false));
  }
  if (x.nan) putNaN(r);
  return finF(r);
}
// 3-valued compare: returns mask of possible outcomes {1: less, 2: equal, 4: greater, 8: unordered}
static inline unsigned fcmpMask(const AV &a, const AV &b) {
  FV x = toFV(a), y = toFV(b); unsigned m = 0;
  if (x.nan || y.nan) m |= 8;
  for (auto &p : x.c) for (auto &q : y.c) {
    long double pl = p.neg ? -p.hi : p.lo, ph = p.neg ? -p.lo : p.hi, ql = q.neg ? -q.hi : q.lo, qh = q.neg ? -q.lo : q.hi;
    if (pl < qh) m |= 1; if (ph > ql) m |= 4; if (pl <= qh && ql <= ph) m |= 2;
  }
  return m;
}
static inline std::string hex(u128 v) { char b[40]; if (v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
static inline std::string str(const AV &a) { if (a.bot()) return "bot"; std::string s; for (auto &i : a.iv) { if (!s.empty()) s += "|"; s += i.lo == i.hi ? hex(i.lo) : hex(i.lo) + ".." + hex(i.hi); } 
  if (a.aff >= 0) s += " =arg" + std::to_string(a.aff) + "+" + hex(a.affc); return s; }
