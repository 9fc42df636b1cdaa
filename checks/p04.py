"""P04 odd functions: the sign of zero, tiny arguments, sign of the result."""
from lib import *
IMGS = ['ce', 'rt', 'gcc', 'gccce', 'det', 'gccdet']
ODD = ['sin', 'tan', 'asin', 'atan', 'expm1', 'log1p', 'cbrt']
RND = ['ceil', 'floor', 'trunc', 'round', 'rint', 'nearbyint']


def qs():
    r = []
    for c in FS:
        f = F[c]
        q = lambda id, fn, args, e, **k: r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args, [ret(e)] if isinstance(e, list) else [e], **k))
        Z = f.zeros()
        ident = {'out': 'ret', 'aff': [[0, '0x0']]}
        for fn in ODD + RND + ['sqrt']: q('+-0', fn, [Z], ident)
        s = f.sign
        # sign: a positive argument never gives a negative result, and the reverse
        pos = {'sin': (None, 3), 'tan': (None, 1.5), 'asin': (None, 1), 'atan': (None, 1.5), 'expm1': (None, 1000), 'log1p': (None, None), 'cbrt': (None, None)}
        for fn in ODD:
            hi = {'sin': f.enc(3), 'tan': f.enc(1.5), 'asin': f.one}.get(fn, f.inf)
            nhi = {'log1p': f.prv(f.one)}.get(fn, hi)
            es = [f.qmin, f.emin, f.emin // 2, -40, -12, -3, 0, 3, f.emax // 2, f.emax]
            cuts = sorted({f.enc(Fraction(2) ** e) for e in es})
            for a, b in zip(cuts, cuts[1:] + [f.inf]):
                for sg, top in ((0, hi), (s, nhi)):
                    lo, h = a, min(f.prv(b) if b != f.inf else b, top)
                    if lo > h: continue
                    # zero may only come out through underflow; the sign bit must be that of the argument
                    q('%s[%x,%x]' % ('-' if sg else '+', lo, h), fn, [[[lo | sg, h | sg]]], [[0 | sg, f.inf | sg]], budget=40 if TIER == 'quick' else 300)
        # tiny arguments: f(x) = x (1 + O(x)); the box bounds with slack
        tiny = [f.qmin, f.qmin + 4, f.emin - 3, f.emin, f.emin + 1, f.emin + 5, f.emin // 2, -40, -30]
        if TIER == 'thorough': tiny = sorted(set(tiny) | set(range(f.emin, -30, max(1, -f.emin // 60))))
        for fn in ['sin', 'tan', 'asin', 'atan', 'expm1', 'log1p']:
            for e in tiny:
                if e > -30 or e < f.qmin: continue
                lo, h = f.enc(Fraction(2) ** e), f.enc(Fraction(2) ** (e + 1))
                L, H = Fraction(2) ** e * (1 - Fraction(1, 1 << 20)), Fraction(2) ** (e + 1) * (1 + Fraction(1, 1 << 20))
                if c == 'l' and e < -1000: continue  # these kernels work in double
                o = f.out(L, H)
                if e <= f.emin: o = [[max(0, o[0][0] - 6), o[0][1] + 6]]
                q('tiny+ 2^%d' % e, fn, [[[lo, h]]], o); q('tiny- 2^%d' % e, fn, [f.neg_of([[lo, h]])], f.neg_of(o))
        # cos and exp near 1, acos near pi/2 for tiny arguments
        t = f.rng(-mpf(2) ** -30, mpf(2) ** -30)
        for fn in ('cos', 'exp', 'exp2'): q('tiny', fn, [t], f.out(1 - mpf(2) ** -19, 1 + mpf(2) ** -19))
        q('tiny', 'acos', [t], f.out(mp.pi / 2 * (1 - mpf(2) ** -19), mp.pi / 2 * (1 + mpf(2) ** -19)))
        # rounding functions keep the sign even when the result is zero
        p01 = [[1, f.prv(f.enc(Fraction(1, 2)))]]
        for fn in ('floor', 'trunc', 'round', 'rint', 'nearbyint'): q('0<x<.5', fn, [p01], [[0, 0]])
        for fn in ('ceil', 'trunc', 'round', 'rint', 'nearbyint'): q('-.5<x<0', fn, [f.neg_of(p01)], [[s, s]])
        # atan2 of zero keeps the sign of y, remainders keep the sign of x
        for fn in ('fmod', 'remainder'): q('+-0,y', fn, [Z, f.pfin() + f.nfin() + f.infs()], ident)
    return r


def run():
    return std('P04', 'Zero arguments must come back with their sign, results carry the sign the function has on the box, and tiny arguments come back within the box they started in.', qs(), IMGS, UN + BI)


if __name__ == '__main__': main(run)
