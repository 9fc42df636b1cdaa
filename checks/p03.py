"""P03 limits, poles and special operands."""
from lib import *
IMGS = ['ce', 'rt', 'gcc', 'gccce', 'det', 'gccdet', 'gccnb']


def pt(b): return [[b, b]]


def near(f, v, n=4):
    """values within n steps of the real v (v != 0); long double kernels of these functions work in double"""
    if f.c == 'l':
        g = [[f.enc(abs(v) * (1 - mpf(2) ** -51), 'd'), f.enc(abs(v) * (1 + mpf(2) ** -51), 'u')]]
        return f.neg_of(g) if v < 0 else g
    b = f.enc(abs(v))
    lo, hi = b, b
    for _ in range(n): lo = f.prv(lo); hi = f.nxt(hi)
    r = [[lo, hi]]
    return f.neg_of(r) if v < 0 else r


def odd(f, e, neg=False):
    """odd integers of binade [2^e, 2^(e+1)), e <= p-1: interval plus known bits"""
    lo, hi = f.enc(Fraction(2) ** e), f.prv(f.enc(Fraction(2) ** (e + 1)))
    if e == 0: return {'iv': hexiv([[lo | (f.sign if neg else 0)] * 2])}
    s = f.sign if neg else 0
    fb = f.p - 1 - e  # weight-one bit
    ko, kz = 1 << fb, (1 << fb) - 1
    return {'iv': hexiv([[lo | s, hi | s]]), 'ko': hex(ko), 'kz': hex(kz)}


def even(f, e, neg=False):
    lo, hi = f.enc(Fraction(2) ** e), f.prv(f.enc(Fraction(2) ** (e + 1)))
    s = f.sign if neg else 0
    fb = f.p - 1 - e
    kz = (1 << (fb + 1)) - 1 if fb >= 0 else 0
    return {'iv': hexiv([[lo | s, hi | s]]), 'ko': '0x0', 'kz': hex(kz)}


def qs():
    r = []
    pi = mp.pi
    for c in FS:
        f = F[c]
        q = lambda id, fn, args, e, **k: r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args, [ret(e)] if isinstance(e, list) else [e], **k))
        PI, NI, PZ, NZ, Z = f.pinf(), f.ninf(), f.pz(), f.nz(), f.zeros()
        one = pt(f.one)
        for fn in ('exp', 'exp2'):
            q('inf', fn, [PI], PI); q('-inf', fn, [NI], PZ); q('0', fn, [Z], one)
        q('inf', 'expm1', [PI], PI); q('-inf', 'expm1', [NI], pt(f.one | f.sign))
        for fn in ('log', 'log2', 'log10'):
            q('inf', fn, [PI], PI); q('0', fn, [Z], NI); q('1', fn, [one], PZ)
        q('-1', 'log1p', [pt(f.one | f.sign)], NI); q('inf', 'log1p', [PI], PI)
        q('inf', 'sqrt', [PI], PI); q('1', 'sqrt', [one], one)
        q('inf', 'cbrt', [PI], PI); q('-inf', 'cbrt', [NI], NI)
        q('inf', 'atan', [PI], near(f, pi / 2)); q('-inf', 'atan', [NI], near(f, -pi / 2))
        q('0', 'cos', [Z], one); q('1', 'acos', [one], PZ); q('-1', 'acos', [pt(f.one | f.sign)], near(f, pi)); q('0', 'acos', [Z], near(f, pi / 2))
        q('1', 'asin', [one], near(f, pi / 2)); q('-1', 'asin', [pt(f.one | f.sign)], near(f, -pi / 2))
        for fn in ('ceil', 'floor', 'trunc', 'round', 'rint', 'nearbyint', 'fabs'):
            q('inf', fn, [PI], PI)
            if fn != 'fabs': q('-inf', fn, [NI], NI)
        q('inf', 'logb', [f.infs()], PI); q('0', 'logb', [Z], NI)
        q('inf', 'gamma', [PI], PI); q('0', 'gamma', [PZ], PI); q('-0', 'gamma', [NZ], NI)
        q('inf', 'lgamma', [f.infs()], PI); q('0', 'lgamma', [Z], PI)
        q('1', 'lgamma', [one], PZ); q('2', 'lgamma', [pt(f.enc(2))], PZ)
        for k in (1, 2, 3, 20, 100): q('-%d' % k, 'lgamma', [pt(f.enc(-k))], PI)
        e = f.enc(Fraction(2) ** (f.p - 1))
        q('x<=-2^p', 'lgamma', [[[f.sign | e, f.sign | f.maxb]]], PI)
        fin = f.fin()
        for fn in ('fmod', 'remainder'):
            q('fin,inf', fn, [fin, f.infs()], {'out': 'ret', 'aff': [[0, '0x0']]})
        A = f.all()
        for i in (0, 1):
            a = [A, A]; a[i] = f.infs()
            q('inf#%d' % i, 'hypot', a, PI)
        # atan2
        T = [('+0,neg', PZ, f.neg() , pi), ('+0,-0', PZ, NZ, pi), ('-0,neg', NZ, f.neg(), -pi), ('-0,-0', NZ, NZ, -pi),
             ('+0,pos', PZ, f.pos(), 0), ('+0,+0', PZ, PZ, 0), ('-0,pos', NZ, f.pos(), '-0'), ('-0,+0', NZ, PZ, '-0'),
             ('pos,0', f.pos(), Z, pi / 2), ('neg,0', f.neg(), Z, -pi / 2),
             ('fin+,-inf', f.pfin(), NI, pi), ('fin-,-inf', f.nfin(), NI, -pi), ('fin+,inf', f.pfin(), PI, 0), ('fin-,inf', f.nfin(), PI, '-0'),
             ('inf,fin', PI, fin, pi / 2), ('-inf,fin', NI, fin, -pi / 2), ('inf,-inf', PI, NI, 3 * pi / 4), ('-inf,-inf', NI, NI, -3 * pi / 4),
             ('inf,inf', PI, PI, pi / 4), ('-inf,inf', NI, PI, -pi / 4)]
        if c == 'l':  # finite long doubles beyond double round to infinity in the kernel: ask what a double holds
            d = F['d']
            w = lambda iv: [x for a, b in iv for x in (([[max(a, f.enc(d.dec(d.minnorm))), min(b, f.enc(d.dec(d.maxb)))]] if b < f.sign else f.neg_of([[max(a ^ f.sign, f.enc(d.dec(d.minnorm))), min(b ^ f.sign, f.enc(d.dec(d.maxb)))]])) if a != b else [[a, b]])]
            T = [(i, w(a), w(b), v) for i, a, b, v in T]
        for id, a, b, v in T:
            g = NZ if v == '-0' else PZ if v == 0 else near(f, v)
            q(id, 'atan2', [a, b], g)
        # pow
        B = 40
        X = f.all()
        q('any,0', 'pow', [X, Z], one); q('1,any', 'pow', [one, X], one); q('-1,inf', 'pow', [pt(f.one | f.sign), f.infs()], one)
        lt1 = [[0, f.prv(f.one)]]; lt1 += f.neg_of(lt1)
        gt1 = [[f.nxt(f.one), f.inf]]; gt1 += f.neg_of(gt1)
        q('|x|<1,-inf', 'pow', [lt1, NI], PI); q('|x|>1,-inf', 'pow', [gt1, NI], PZ); q('|x|<1,inf', 'pow', [lt1, PI], PZ); q('|x|>1,inf', 'pow', [gt1, PI], PI)
        q('inf,neg', 'pow', [PI, f.neg()], PZ); q('inf,pos', 'pow', [PI, f.pos()], PI)
        q('0,-inf', 'pow', [Z, NI], PI); q('+0,neg', 'pow', [PZ, f.neg()], PI); q('+0,pos', 'pow', [PZ, f.pos()], PZ)
        es = sorted({0, 1, 2, 3, 7, 16, f.p - 2, f.p - 1} | ({52, 53} if c == 'l' else set()))
        if TIER == 'thorough': es = range(f.p)
        for e in es:
            q('-0,-odd e%d' % e, 'pow', [NZ, odd(f, e, True)], NI, budget=B); q('-0,odd e%d' % e, 'pow', [NZ, odd(f, e)], NZ, budget=B)
            q('-inf,-odd e%d' % e, 'pow', [NI, odd(f, e, True)], NZ, budget=B); q('-inf,odd e%d' % e, 'pow', [NI, odd(f, e)], NI, budget=B)
        for e in list(es)[1:]:
            q('-0,-even e%d' % e, 'pow', [NZ, even(f, e, True)], PI, budget=B); q('-0,even e%d' % e, 'pow', [NZ, even(f, e)], PZ, budget=B)
            q('-inf,-even e%d' % e, 'pow', [NI, even(f, e, True)], PZ, budget=B); q('-inf,even e%d' % e, 'pow', [NI, even(f, e)], PI, budget=B)
        ev = [[f.enc(Fraction(2) ** f.p), f.maxb]]
        q('-0,-huge', 'pow', [NZ, f.neg_of(ev)], PI, budget=B); q('-0,huge', 'pow', [NZ, ev], PZ, budget=B); q('-inf,-huge', 'pow', [NI, f.neg_of(ev)], PZ, budget=B); q('-inf,huge', 'pow', [NI, ev], PI, budget=B)
        for lo in (0, 1, 2, 9, 1000):
            iv = [[max(1, f.nxt(f.enc(lo))), f.prv(f.enc(lo + 1))]]
            q('-0,nonint %d' % lo, 'pow', [NZ, iv], PZ, budget=B); q('-0,-nonint %d' % lo, 'pow', [NZ, f.neg_of(iv)], PI, budget=B)
            q('-inf,nonint %d' % lo, 'pow', [NI, iv], PI, budget=B); q('-inf,-nonint %d' % lo, 'pow', [NI, f.neg_of(iv)], PZ, budget=B)
        for s in ('ldexp', 'scalbn'):
            I = {'iv': [['0x0', '0xffffffff']]}
            q('inf,n', s, [f.infs(), I], {'out': 'ret', 'aff': [[0, '0x0']]}); q('0,n', s, [Z, I], {'out': 'ret', 'aff': [[0, '0x0']]})
        # fdim, fmin, fmax at infinities
        q('inf,y', 'fdim', [PI, fin + NI], PI); q('x,-inf', 'fdim', [fin + PI, NI], PI); q('-inf,y', 'fdim', [NI, f.nonnan()], PZ); q('x,inf', 'fdim', [f.nonnan(), PI], PZ)
        q('inf,y', 'fmax', [PI, A], PI); q('x,inf', 'fmax', [A, PI], PI); q('-inf,y', 'fmin', [NI, A], NI); q('x,-inf', 'fmin', [A, NI], NI)
    return r


def run():
    dscope = ('pow_l',)

    def skip(im, q):
        # deterministic long double pow evaluates in double; operands that change class in double are not asked
        return im in ('det', 'gccdet') and q['id'].startswith('pow_l') and any(t in q['id'] for t in ('huge', 'nonint', 'neg', 'pos', '<1', '>1', '1,any', 'e63', 'e62', *('e%d' % k for k in range(53, 62))))
    return std('P03', 'Every box of limit/pole/special operands must give exactly the value the C standard Annex F lists (constants such as pi/2 within a few last places).', qs(), IMGS, UN + BI + TE + ['ldexp', 'scalbn'], skip=skip)


if __name__ == '__main__': main(run)
