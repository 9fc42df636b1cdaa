"""P02 domain errors give NaN."""
from lib import *
IMGS = ['ce', 'rt', 'gcc', 'gccce', 'det', 'gccdet', 'gccnb']


def qs():
    r = []
    for c in FS:
        f = F[c]
        N = f.nan()
        one, m1 = f.one, f.sign | f.one
        neg = [[f.sign | 1, f.sign | f.inf]]
        q = lambda id, fn, args, **k: r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args, [ret(N)], **k))
        for fn in ('sqrt', 'log', 'log2', 'log10'):
            q('x<0', fn, [neg])
            q('-inf', fn, [f.ninf()])
            q('-sub', fn, [f.neg_of(f.psub())])
        b1 = [[f.nxt(m1 & ~f.sign) | f.sign, f.sign | f.inf]]
        q('x<-1', 'log1p', [b1])
        big = [[f.nxt(one), f.inf]]
        for fn in ('asin', 'acos'):
            q('x>1', fn, [big])
            q('x<-1', fn, [f.neg_of(big)])
        for fn in ('sin', 'cos', 'tan'): q('inf', fn, [f.infs()])
        X = f.fin() + f.infs()
        for fn in ('fmod', 'remainder'):
            q('x,0', fn, [X, f.zeros()])
            q('inf,y', fn, [f.infs(), X])
        r.append(Q('remquo_%s(x,0)' % c, 'w_remquo_%s' % c, [X, f.zeros(), {'ptr': 4}], [ret(N)]))
        r.append(Q('remquo_%s(inf,y)' % c, 'w_remquo_%s' % c, [f.infs(), X, {'ptr': 4}], [ret(N)]))
        # pow of a negative finite base to a finite non-integer: exponents strictly between consecutive integers
        nb = [[f.sign | 1, f.sign | f.maxb]]
        B = 40 if c != 'l' or TIER == 'thorough' else 6
        for lo, hi in ((0, 1), (1, 2), (2, 3), (7, 8), (1000, 1001)):
            a, b = f.enc(lo), f.enc(hi)
            iv = [[max(1, f.nxt(a)), f.prv(b)]]
            q('x<0,%d<y<%d' % (lo, hi), 'pow', [nb, iv], budget=B)
            q('x<0,-%d>y>-%d' % (lo, hi), 'pow', [nb, f.neg_of(iv)], budget=B)
            if c == 'l':  # the deterministic configuration evaluates in double: operands whose double rounding keeps their class
                d = F['d']
                xb = f.neg_of(f.rng(d.dec(d.minnorm), d.dec(d.maxb)))
                yb = f.rng(mpf(lo) + mpf('.001'), mpf(hi) - mpf('.001'))
                q('double x<0,%d<y<%d' % (lo, hi), 'pow', [xb, yb], budget=B)
                q('double x<0,-%d>y>-%d' % (lo, hi), 'pow', [xb, f.neg_of(yb)], budget=B)
        q('-inf', 'gamma', [f.ninf()])
        for k in (1, 2, 3, 10, 33, 100): q('-%d' % k, 'gamma', [[[f.enc(-k)] * 2]])
        e = f.enc(Fraction(2) ** (f.p - 1))
        q('x<=-2^p', 'gamma', [[[f.sign | e, f.sign | f.maxb]]])
        # fma: 0*inf, inf - inf
        A = f.nonnan()
        P = f.pos()
        q('0,inf,z', 'fma', [f.zeros(), f.infs(), A])
        q('inf,0,z', 'fma', [f.infs(), f.zeros(), A])
        q('inf,pos,-inf', 'fma', [f.pinf(), P, f.ninf()])
        q('neg,inf,inf', 'fma', [f.neg_of(P), f.pinf(), f.pinf()])
        q('-inf,pos,inf', 'fma', [f.ninf(), P, f.pinf()])
    return r


def run():
    def skip(im, q):
        return im in ('det', 'gccdet') and q['id'].startswith('pow_l(x<0')
    return std('P02', 'Every box inside the region where the function has no value must end in NaN on each dispatch path.', qs(), IMGS, UN + BI + TE + ['remquo'], skip=skip)


if __name__ == '__main__': main(run)
