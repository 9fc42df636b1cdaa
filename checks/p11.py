"""P11 rounding to integral values: trunc, floor, ceil, round, rint, nearbyint, modf."""
from lib import *
IMGS = ['ce', 'rt', 'gcc', 'gccce', 'det', 'gccdet']
FNS = ['trunc', 'floor', 'ceil', 'round', 'rint', 'nearbyint']


def want(fn, x):
    """integer result for Fraction x"""
    fl = x.numerator // x.denominator
    fr = x - fl
    if fn == 'floor': return fl
    if fn == 'ceil': return fl if fr == 0 else fl + 1
    if fn == 'trunc': return fl if x >= 0 or fr == 0 else fl + 1
    h = Fraction(1, 2)
    if fr != h: return fl + (fr > h)
    if fn == 'round': return fl + 1 if x > 0 else fl
    return fl + (fl & 1)


def qs():
    r = []
    quick = TIER == 'quick'
    for c in FS:
        f = F[c]
        q = lambda id, fn, args, e, **k: r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args, e if isinstance(e, list) else [e], **k))
        mb = 63 if c == 'l' else f.p - 1
        P2 = lambda k: f.enc(Fraction(2) ** k)
        box = lambda k: [[P2(k), f.prv(P2(k + 1) if k < f.emax else f.inf)]]
        same = {'out': 'ret', 'aff': [[0, '0x0']]}
        z = lambda g: {'out': 'mem1', 'in': [[g, g]]}
        V = lambda n, neg: f.enc(n) | (f.sign if neg else 0) if n or neg else 0
        for fn in FNS:
            for g in (0, 1):
                sg = f.sign if g else 0
                S = lambda iv: f.neg_of(iv) if g else iv
                m = '-' if g else ''
                # magnitudes below one
                for id, lo, hi in (('(0,min)', 1, f.maxsub), ('[min,1/2)', f.minnorm, f.prv(P2(-1))), ('1/2', P2(-1), P2(-1)), ('(1/2,1)', f.nxt(P2(-1)), f.prv(f.one))):
                    x = f.frac(lo | sg) if lo == hi else (f.frac(lo | sg) + f.frac(hi | sg)) / 2
                    w = want(fn, x)
                    q(m + id, fn, [S([[lo, hi]])], ret([[V(abs(w), g)] * 2]))
                # values that are integral already
                q(m + 'big', fn, [S([[P2(f.p - 1), f.maxb]])], same)
                for k in range(0, f.p - 1):
                    t = mb - k
                    b = S(box(k))
                    q('%sint2^%d' % (m, k), fn, [dict(iv=hexiv(b), kz=hex((1 << t) - 1))], same)
                    c0 = ((f.enc(Fraction(2) ** k) | sg) >> mb) << mb if c != 'l' else ((f.enc(Fraction(2) ** k) | sg) >> 63) << 63
                    if fn == 'trunc' or (fn == 'floor' and not g) or (fn == 'ceil' and g):
                        q('%s2^%d' % (m, k), fn, [b], {'out': 'ret', 'tpl': [{'c': hex(c0), 'segs': [[0, t, k, t]] if k else []}]})
                ns = {1, 2, 3, 4, 5, 7, 8, 10, 100, 1023, 1024}
                for k in range(2, f.p - 1, 3 if quick else 1): ns |= {(1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) | (0x5555555555555555 & ((1 << k) - 1))}
                if not quick: ns |= set(range(1, 2000, 7))
                for n in sorted(ns):
                    if n >= 1 << (f.p - 1): continue
                    lo, hi = f.nxt(f.enc(n)), f.prv(f.enc(n + 1))
                    if lo > hi: continue
                    h = f.enc(Fraction(2 * n + 1, 2))
                    assert f.frac(h) == Fraction(2 * n + 1, 2)
                    for id, a, b in (('+', lo, f.prv(h)), ('h', h, h), ('++', f.nxt(h), hi), ('first', lo, lo), ('below h', f.prv(h), f.prv(h)), ('above h', f.nxt(h), f.nxt(h)), ('last', hi, hi)):
                        if n > 3 and quick and id in ('first', 'last'): continue
                        if a > b: continue
                        x = f.frac(a | sg)
                        w = want(fn, x)
                        assert w == want(fn, f.frac(b | sg))
                        q('%s%d%s' % (m, n, id), fn, [S([[a, b]])], ret([[V(abs(w), g)] * 2]))
                for v in f.edges():
                    if bool(v & f.sign) != bool(g): continue
                    if v & ~f.sign in (0, f.inf): q('%x' % v, fn, [[[v, v]]], ret([[v, v]]))
                    else: q('%x' % v, fn, [[[v, v]]], ret([[V(abs(want(fn, f.frac(v))), g)] * 2]))
        # modf: both parts exact and of the argument's sign
        for g in (0, 1):
            sg = f.sign if g else 0
            m = '-' if g else ''
            S = lambda iv: f.neg_of(iv) if g else iv
            zz = sg
            memsame = {'out': 'mem1', 'aff': [[0, '0x0']]}
            n = f.w // 8 if c != 'l' else 10
            ptr = {'ptr': n}
            q(m + '<1', 'modf', [S([[1, f.prv(f.one)]]), ptr], [same, {'out': 'mem1', 'in': [[zz, zz]]}])
            q(m + '0', 'modf', [[[sg, sg]], ptr], [ret([[zz, zz]]), {'out': 'mem1', 'in': [[zz, zz]]}])
            q(m + 'inf', 'modf', [S(f.pinf()), ptr], [ret([[zz, zz]]), {'out': 'mem1', 'in': S(f.pinf())}])
            q(m + 'big', 'modf', [S([[P2(f.p - 1), f.maxb]]), ptr], [ret([[zz, zz]]), memsame])
            for k in range(0, f.p - 1):
                t = mb - k
                b = S(box(k))
                c0 = ((f.enc(Fraction(2) ** k) | sg) >> mb) << mb
                q('%sint2^%d' % (m, k), 'modf', [dict(iv=hexiv(b), kz=hex((1 << t) - 1)), ptr], [ret([[zz, zz]]), memsame])
                q('%s2^%d' % (m, k), 'modf', [b, ptr], [ret([[zz, zz]] + S([[1, f.prv(f.one)]])), {'out': 'mem1', 'tpl': [{'c': hex(c0), 'segs': [[0, t, k, t]] if k else []}]}])
                # the fraction itself: two representative widths inside the binade
                for j in sorted({0, t // 2, t - 1}):
                    fr = Fraction(2) ** (k - mb + j)
                    if k and fr < 1:
                        x = Fraction(2) ** k + fr
                        q('%s2^%d+2^-%d' % (m, k, mb - k - j), 'modf', [S([[f.enc(x)] * 2]), ptr], [ret(S([[f.enc(fr)] * 2])), {'out': 'mem1', 'in': S([[P2(k)] * 2])}])
    return r


def run():
    return std('P11', 'Below one, per binade (template: kept integer bits), per unit interval (n,n+1/2), n+1/2, (n+1/2,n+1) for a grid of n incl. all powers of two, and beyond 2^(p-1): the result is the integer the definition names, with the sign of the argument.', qs(), IMGS, FNS + ['modf'])


if __name__ == '__main__': main(run)
