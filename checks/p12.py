"""P12 fmin, fmax, fdim (and the integer min/max behind them)."""
from lib import *
IMGS = ['ce', 'rt', 'gcc', 'gccce', 'det', 'gccdet']
MORE = ''.join('extern "C" %s w_min_%s(%s x,%s y){return ccm::min(x,y);} extern "C" %s w_max_%s(%s x,%s y){return ccm::max(x,y);}\n' % (t, c, t, t, t, c, t, t)
               for t, c in (('float', 'f'), ('double', 'd'), ('long double', 'l'), ('unsigned', 'u'), ('unsigned long', 'U')))


def qs():
    r = []
    for c in FS:
        f = F[c]
        q = lambda id, fn, args, e, **k: r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args, e if isinstance(e, list) else [e], **k))
        A0, A1 = {'out': 'ret', 'aff': [[0, '0x0']]}, {'out': 'ret', 'aff': [[1, '0x0']]}
        EQ = {'out': 'ret', 'aff': [[0, '0x0'], [1, '0x0']]}
        cls = {'+': f.pos(), '-': f.neg(), '0': f.zeros()}
        for fn in ('fmin', 'fmax', 'min', 'max'):
            lo = fn in ('fmin', 'min')
            for n, iv in cls.items():
                q(n + ',nan', fn, [iv, f.nan()], A0)
                q('nan,' + n, fn, [f.nan(), iv], A1)
                if n != '0':
                    q(n + '<' + n, fn, [iv, iv], A0 if lo else A1, rel=1)
                    q(n + '>' + n, fn, [iv, iv], A1 if lo else A0, rel=3)
                    q(n + '=' + n, fn, [iv, iv], EQ, rel=2)
            for a, b in (('-', '+'), ('-', '0'), ('0', '+')):
                q('%s,%s' % (a, b), fn, [cls[a], cls[b]], A0 if lo else A1)
                q('%s,%s' % (b, a), fn, [cls[b], cls[a]], A1 if lo else A0)
            q('0,0', fn, [f.zeros(), f.zeros()], ret(f.zeros()))
            q('same 0', fn, [f.pz(), f.pz()], ret(f.pz()))
            q('same -0', fn, [f.nz(), f.nz()], ret(f.nz()))
        X = f.nonnan()
        for n, iv in cls.items():
            if n == '0': continue
            q(n + '<' + n, 'fdim', [iv, iv], ret(f.pz()), rel=1)
            q(n + '=' + n, 'fdim', [iv, iv], ret(f.pz()), rel=2)
            q(n + '>' + n, 'fdim', [iv, iv], ret(f.pos()), rel=3)
        q('-,+', 'fdim', [f.neg(), f.pos()], ret(f.pz()))
        q('-,0', 'fdim', [f.neg(), f.zeros()], ret(f.pz()))
        q('0,+', 'fdim', [f.zeros(), f.pos()], ret(f.pz()))
        q('0,0', 'fdim', [f.zeros(), f.zeros()], ret(f.pz()))
        q('+,0', 'fdim', [f.pos(), f.zeros()], A0)
        q('inf,<inf', 'fdim', [f.pinf(), f.fin() + f.ninf()], ret(f.pinf()))
        q('fin,-inf', 'fdim', [f.fin(), f.ninf()], ret(f.pinf()))
        q('max,-max', 'fdim', [[[f.maxb] * 2], [[f.sign | f.maxb] * 2]], ret(f.pinf()))
        h = f.enc(Fraction(2) ** (f.emax - 1))
        q('big,-big', 'fdim', [[[f.enc(Fraction(2) ** f.emax), f.maxb]], [[f.sign | f.enc(Fraction(2) ** f.emax), f.sign | f.maxb]]], ret(f.pinf()))
        q('half,-half', 'fdim', [[[h, f.nxt(h, 9)]], [[f.sign | h, f.sign | f.nxt(h, 9)]]], ret([[f.enc(Fraction(2) ** f.emax), f.nxt(f.enc(Fraction(2) ** f.emax), 9)]]))
        key = lambda v: (-(v & ~f.sign) if v & f.sign else v)
        for x in f.edges():
            for y in f.edges():
                X2 = [[[x, x]], [[y, y]]]
                for fn in ('fmin', 'fmax', 'min', 'max'):
                    z = x if key(x) == key(y) else (x if (key(x) < key(y)) == (fn in ('fmin', 'min')) else y)
                    q('%x,%x' % (x, y), fn, X2, ret([[z, z]] if x == y or key(x) != key(y) else f.zeros()))
                z = 0 if key(x) <= key(y) else f.inf if f.inf in (x, y & ~f.sign) else f.enc(f.frac(x) - f.frac(y))
                q('%x,%x' % (x, y), 'fdim', X2, ret([[z, z]]))
        n = 3 if TIER == 'quick' else 17
        pts = [Fraction(2) ** k * m for k in range(f.emin, f.emax - 2, max(1, (f.emax - f.emin) // (6 * n))) for m in (1, Fraction(3, 2))]
        for x in pts:
            for d in (Fraction(1, 4), Fraction(3, 4), Fraction(2)):
                y = x - d * x * (1 if d < 2 else 1)
                X, Y = [f.enc(x), f.nxt(f.enc(x), 5)], [f.enc(y), f.nxt(f.enc(y) & ~f.sign, 5) | (f.enc(y) & f.sign)]
                ys = sorted([f.frac(Y[0]), f.frac(Y[1])])
                a, b = f.frac(X[0]) - ys[1], f.frac(X[1]) - ys[0]
                assert a > 0
                q('%s-%s' % (mpmath.nstr(f.dec(X[0]), 6), d), 'fdim', [[X], [Y]], ret([[f.enc(a), f.enc(b)]]))
    for c, w in (('u', 32), ('U', 64)):
        top = (1 << w) - 1
        for fn in ('min', 'max'):
            for rel, z in ((1, 0), (2, 0), (3, 1)):
                k = z if fn == 'min' else 1 - z
                r.append(Q('%s_%s rel%d' % (fn, c, rel), 'w_%s_%s' % (fn, c), [[[0, top]], [[0, top]]], [{'out': 'ret', 'aff': [[0, '0x0'], [1, '0x0']] if rel == 2 else [[k, '0x0']]}], rel=rel))
    return r


def run():
    return std('P12', 'Relational classes (x<y, x=y, x>y per sign class, NaN, zeros, infinities): fmin/fmax return the very bits of the argument the definition selects; fdim is +0 for x<=y and the rounded difference otherwise (exact bounds on a grid).', qs(), IMGS, ['fmin', 'fmax', 'fdim'], more=MORE)


if __name__ == '__main__': main(run)
