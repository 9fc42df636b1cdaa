"""P05 overflow and underflow: saturation where the result leaves the format, and nowhere else."""
from lib import *
IMGS = ['ce', 'rt', 'gcc', 'gccce', 'det', 'gccdet', 'gccnb']


def qs():
    r = []
    for c in FS:
        f = F[c]
        d = F['d'] if c == 'l' else f     # long double kernels of these functions work in double outside libm
        q = lambda id, fn, args, e, **k: r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args, [ret(e)], **k))
        wide = c == 'l'
        s = f.sign
        lnmax = mp.log(mpf(2)) * (f.emax + 1)
        lnmin = mp.log(mpf(2)) * (f.qmin - 1)
        inf = f.pinf()
        D = mpf(1) / 1024
        # overflow
        for fn, k in (('exp', mpf(1)), ('exp2', 1 / mp.log(2)), ('expm1', mpf(1))):
            top = lnmax * k
            cuts = [top * (1 + D / 8), top * (1 + D * 8), top * mpf('1.25'), top * 2, top * 64, f.dec(f.maxb)]
            for a, b in zip(cuts, cuts[1:]): q('>%s' % mp.nstr(a, 6), fn, [f.rng(a, b)], inf)
            if not wide:
                low = lnmin * k
                cuts = [low * (1 + D / 8), low * (1 + D * 8), low * mpf('1.25'), low * 2, low * 64, -f.dec(f.maxb)]
                for a, b in zip(cuts, cuts[1:]):
                    q('<%s' % mp.nstr(a, 6), fn, [f.rng(b, a)], [[0, 1]] if fn != 'expm1' else [[s | f.prv(f.one), s | f.one]])
            # no early overflow / underflow: the result is within a factor of the truth over each slice
            dmax = mp.log(mpf(2)) * (d.emax + 1) * k
            dmin = mp.log(mpf(2)) * (d.emin + 2) * k
            n = 10 if TIER == 'quick' else 200
            for lo_, hi_ in ((dmax * mpf('0.9'), dmax * (1 - D / 64)), (dmin * (1 - D), dmin * mpf('0.9')), (mpf('0.5'), dmax * mpf('0.9'))) + (() if wide else ((dmax * (1 + D / 8), dmax * mpf('1.5')), (mp.log(mpf(2)) * (f.qmin - 2) * k, mp.log(mpf(2)) * (f.qmin - 2) * k * mpf('1.5')))):
                for i in range(n):
                    a = lo_ + (hi_ - lo_) * i / n
                    b = a + k / 4096
                    if fn == 'expm1' and b <= 0: q('near %s' % mp.nstr(a, 9), fn, [f.rng(min(a, b), max(a, b))], f.out(mpf(-1), mpf(-1) + mpf(2) ** -20)); continue
                    E = (lambda v: mp.exp(v / k))
                    L, H = E(min(a, b)), E(max(a, b))
                    if b > dmax: q('beyond %s' % mp.nstr(a, 9), fn, [f.rng(a, b)], inf); continue
                    if b < mp.log(mpf(2)) * (f.qmin - 1) * k and fn != 'expm1': q('below %s' % mp.nstr(a, 9), fn, [f.rng(a, b)], [[0, 1]]); continue
                    if fn == 'expm1': L, H = L - 1, H - 1
                    q('near %s' % mp.nstr(a, 9), fn, [f.rng(min(a, b), max(a, b))], f.out(L * (1 - D * 40), H * (1 + D * 40)), budget=12)
        # hypot: between max(|x|,|y|) and sqrt2 times it; overflow only when it must
        G = [f.emin, f.emin // 2, -10, 0, 10, f.emax // 2, f.emax - 1]
        for i in range(len(G)):
            for j in range(i + 1):
                for fn, n in (('hypot', 2), ('hypot3', 3)):
                    a, b = Fraction(2) ** G[i], Fraction(2) ** G[j]
                    ax = f.rng(a, a * Fraction(9, 8)); bx = f.rng(b, b * Fraction(9, 8))
                    hi = a * Fraction(9, 8) + b * Fraction(9, 8)
                    if n == 3: hi += b * Fraction(9, 8)
                    for p in range(n):
                        args = [bx] * n
                        args[p] = ax + f.neg_of(ax)
                        q('2^%d#%d,2^%d' % (G[i], p, G[j]), fn, args, f.out(a / 4, hi * 4))
        big = f.rng(f.dec(f.maxb) * mpf('0.75'), f.dec(f.maxb))
        q('max,max', 'hypot', [big + f.neg_of(big)] * 2, inf)
        q('max,max,max', 'hypot3', [big + f.neg_of(big)] * 3, inf)
        # pow
        def pw(id, x, y, e, **k): q(id, 'pow', [x, y], e, budget=12, steps=200000, **k)
        P = lambda a, b: f.rng(mpf(a), mpf(b))
        if not wide:
            big = f.dec(f.maxb)
            for sg in (0, 1):
                X = P(2, big)
                pw('x>=2,y>=emax+1', X, P(f.emax + 1, big), inf) if not sg else pw('x>=2,y<=qmin-1', X, P(-big, f.qmin - 2), [[0, 1]])
            X = P(f.dec(1), mpf('0.5'))
            pw('x<=.5,y<=-emax-2', X, P(-big, -f.emax - 2), inf); pw('x<=.5,y>=-qmin+2', X, P(2 - f.qmin, big), [[0, 1]])
            X = P(mpf(2) ** (f.emax // 2 + 1), big)
            pw('2^(emax/2+1),2', X, P(2, 3), inf); pw('x^-3 under', X, P(-4, -3), f.out(mpf(0), mpf(2) ** -(3 * (f.emax // 2 + 1)) * mpf('1.01'), zs='p'))
        # negative base, odd exponents: overflow keeps the sign
        nb = f.neg_of(f.rng(mpf(2) ** (d.emax // 2 + 1), d.dec(d.maxb)))
        if not wide:
            pw('-2^(emax/2+1),3', nb, P(3, 3), f.ninf()); pw('-2^(emax/2+1),4', nb, P(4, 4), inf)
            pw('-big,-5', nb, P(-5, -5), [[s, s | 1]]); pw('-big,-6', nb, P(-6, -6), [[0, 1]])
        # powers of two to integer powers around both ends of the range: exact, or out of it with the sign of the base
        pairs = {(k, n) for k in (1, -1, 2, -3, 7, f.emax // 2, -(f.emax // 2), f.emax, f.emin, f.qmin) for t in (f.emax - 1, f.emax + 1, 2 * f.emax, f.emin, f.emin - 1, f.emin - f.p // 2, f.qmin + 1, f.qmin, f.qmin - 2, 2 * f.qmin) for n in (t // k, t // k + 1)}
        for k, n in sorted(pairs):
            if n == 0: continue
            for g in (0, s):
                x, y = f.enc(Fraction(2) ** k) | g, f.enc(Fraction(n))
                pw('%s2^%d,int %d' % ('-' if g else '', k, n), [[x, x]], [[y, y]], [[f.enc(Fraction(2) ** (k * n)) | (g if n & 1 else 0)] * 2])
        # sqrt, cbrt never leave the format
        E = range(f.qmin, f.emax, max(1, (f.emax - f.qmin) // (24 if TIER == 'quick' else 300)))
        for e in E:
            a, b = Fraction(2) ** e, Fraction(2) ** (e + 1) * Fraction(1023, 1024) if e + 1 > f.emax else Fraction(2) ** (e + 1)
            x = f.rng(mpf(2) ** e, mpf(2) ** (e + 1) * (1 - mpf(2) ** -20))
            q('2^%d' % e, 'sqrt', [x], f.out(mpf(2) ** (mpf(e) / 2) * (1 - D / 16), mpf(2) ** (mpf(e + 1) / 2) * (1 + D / 16)))
            if not (c == 'l' and (e < d.emin or e >= d.emax)):
                for fn, g, dd in (('log', mp.log, 0), ('log2', lambda v: mp.log(v) / mp.log(2), 0), ('log10', mp.log10, 0)):
                    L, H = g(mpf(2) ** e), g(mpf(2) ** (e + 1))
                    if L < 0 < H or L == 0 or H == 0: continue
                    m = max(abs(L), abs(H)) * mpf('0.02')
                    q('2^%d' % e, fn, [x], f.out(L - m, H + m), budget=40)
        # ldexp / scalbn
        I = lambda a, b: {'iv': [[hex(a & 0xffffffff), hex(b & 0xffffffff)]]}
        for fn in ('ldexp', 'scalbn'):
            q('over', fn, [f.pnorm(), I(2 * f.emax + 3, 2**31 - 1)], inf)
            q('-over', fn, [f.neg_of(f.pnorm()), I(2 * f.emax + 3, 2**31 - 1)], f.ninf())
            q('under', fn, [f.pnorm(), I(-2**31, -(f.emax - f.qmin) - 3)], [[0, 0]])
            q('-under', fn, [f.neg_of(f.pnorm()), I(-2**31, -(f.emax - f.qmin) - 3)], [[s, s]])
            q('sub under', fn, [f.psub(), I(-2**31, -f.p - 2)], [[0, 0]])
            q('sub over', fn, [f.psub(), I(f.emax - f.qmin + 2, 2**31 - 1)], inf)
        # gamma, lgamma
        lim = {'f': 36, 'd': 172, 'l': 1756}[c]
        q('over', 'gamma', [f.rng(mpf(lim), f.dec(f.maxb))], inf)
        q('over', 'lgamma', [f.rng(f.dec(f.maxb) / 64, f.dec(f.maxb))], inf)
        q('big', 'lgamma', [f.rng(mpf(1000), mpf(2000))], f.out(mp.loggamma(1000) * mpf('0.99'), mp.loggamma(2000) * mpf('1.01')))
    return r


def run():
    def skip(im, q):
        if im in ('det', 'gccdet') and q['fn'] == 'w_pow_l' and ',int ' in q['id']: return True  # evaluates in double by design
        libm_only_wide = q['fn'].endswith('_l') and im not in ('rt', 'gcc', 'gccce', 'gccnb')
        return libm_only_wide and (q['fn'] in ('w_exp_l', 'w_exp2_l', 'w_expm1_l', 'w_gamma_l', 'w_lgamma_l') and '(>' in q['id'] or 'over' in q['id'] and 'gamma' in q['fn'])
    return std('P05', 'Results saturate to infinity or zero exactly outside the range of the format and stay finite, non-zero and of the right magnitude inside it.', qs(), IMGS, UN + BI + ['hypot3', 'ldexp', 'scalbn'], skip=skip)


if __name__ == '__main__': main(run)
