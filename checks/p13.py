"""P13 remainders: fmod, remainder, remquo."""
from lib import *
IMGS = ['ce', 'rt', 'gcc', 'gccce', 'det', 'gccdet']


def rnd_even(q):
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1): n += 1
    return n


def qs():
    r = []
    quick = TIER == 'quick'
    for c in FS:
        f = F[c]
        ptr = {'ptr': 4}
        def q(id, fn, args, e, **k): r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args + ([ptr] if fn == 'remquo' else []), e if isinstance(e, list) else [e], **k))
        A0 = {'out': 'ret', 'aff': [[0, '0x0']]}
        q0 = {'out': 'mem2', 'in': [[0, 0]]}
        one = f.one
        # |x| < |y|: fmod is x itself; |x| < |y|/2: remainder and remquo are x itself
        for e in sorted({f.emin, -20, -1, 0, 5, 60, f.emax}):
            b = f.enc(Fraction(2) ** e)
            yb = [[b, f.prv(f.enc(Fraction(2) ** (e + 1)) if e < f.emax else f.inf)]]
            xs = [[1, f.prv(b)]]
            for gx in (0, 1):
                for gy in (0, 1):
                    X = f.neg_of(xs) if gx else xs
                    Y = f.neg_of(yb) if gy else yb
                    t = '%s<2^%d%s' % ('-' if gx else '', e, '-' if gy else '')
                    q(t, 'fmod', [X, Y], A0, budget=24)
                    if e > f.emin + 2:
                        hb = f.enc(Fraction(2) ** (e - 1))
                        X2 = [[1, f.prv(hb)]]
                        X2 = f.neg_of(X2) if gx else X2
                        for fn in ('remainder', 'remquo'): q(t, fn, [X2, Y], [A0] + ([q0] if fn == 'remquo' else []), budget=24)
        for n, iv in (('+', f.pfin()), ('-', f.nfin())):
            q(n + 'x,inf', 'fmod', [iv, f.infs()], A0)
            q(n + 'x,inf', 'remainder', [iv, f.infs()], A0)
            q(n + 'x,inf', 'remquo', [iv, f.infs()], [A0, q0])
        for z in (0, f.sign):
            for fn in ('fmod', 'remainder', 'remquo'): q('%s0,y' % ('-' if z else ''), fn, [[[z, z]], f.pfin() + f.nfin()], [ret([[z, z]])] + ([q0] if fn == 'remquo' else []), budget=48)
        # the sign and the bound of the result
        for e in (-3, 0, 4):
            y = f.enc(Fraction(2) ** e)
            for k in (1, 6) if quick else (1, 2, 3, 6, 10, 20):
                x = [[y, f.prv(f.enc(Fraction(2) ** (e + k)))]]
                m = f.prv(y)
                h = f.enc(Fraction(2) ** (e - 1))
                for g in (0, 1):
                    X = f.neg_of(x) if g else x
                    o = f.neg_of([[0, m]]) if g else [[0, m]]
                    q('%sx/2^%d,%d' % ('-' if g else '', e, k), 'fmod', [X, [[y, y]]], ret(o), budget=150)
                    for fn in ('remainder', 'remquo'): q('%sx/2^%d,%d' % ('-' if g else '', e, k), fn, [X, [[y, y]]], ret([[0, h], [f.sign, f.sign | h]]), budget=150)
        # exact quotient cells: y fixed, x in a narrow range above (n+a)*y
        ys = [Fraction(1), Fraction(3), Fraction(5, 8), Fraction(7), Fraction(2) ** -30 * 3, Fraction(2) ** 40 * 5, Fraction(2) ** (f.emin + 4) * 3, Fraction(2) ** (f.emax - 9) * 3, Fraction(2) ** (f.emax - 2), Fraction(2) ** (f.emax - 3) * 7, Fraction(2) ** (f.emax - 1) * Fraction(3, 2)]
        ns = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 23, 100, 1001, 65535]
        if not quick: ns += list(range(10, 64)) + [(1 << 20) - 1, 1 << 20, 999999]
        for y in ys:
            for n in ns:
                for a in (Fraction(0), Fraction(1, 8), Fraction(1, 2) - Fraction(1, 64), Fraction(1, 2), Fraction(1, 2) + Fraction(1, 64), Fraction(7, 8)):
                    x = (n + a) * y
                    if x == 0 or x >= Fraction(2) ** (f.emax + 1): continue
                    b = f.enc(x)
                    if f.frac(b) != x: continue
                    # a few units above the point, never past the next change of the quotient
                    hi = f.nxt(b, 3) if a not in (Fraction(0), Fraction(1, 2)) else b
                    if hi >= f.inf or rnd_even(f.frac(hi) / y) != rnd_even(x / y) or f.frac(hi) // y != x // y: hi = b
                    xh = f.frac(hi)
                    for gx, gy in ((0, 0), (1, 0), (0, 1)) if quick else ((0, 0), (1, 0), (0, 1), (1, 1)):
                        if quick and (gx or gy) and n > 9: continue
                        X = [[b | (f.sign if gx else 0), hi | (f.sign if gx else 0)]]
                        Y = [[f.enc(y) | (f.sign if gy else 0)] * 2]
                        def box(l, h):  # value box of the result for positive x, then signed
                            if l >= 0: iv = [[f.enc(l), f.enc(h)]]
                            else: iv = [[f.enc(-h) | f.sign, f.enc(-l) | f.sign]]
                            return f.neg_of(iv) if gx else iv
                        t = '%s%d+%s*%s%s' % ('-' if gx else '', n, a, mpmath.nstr(mpf(y.numerator) / y.denominator, 5), '-' if gy else '')
                        # remainders of doubles are exact, so the box ends are representable
                        q(t, 'fmod', [X, Y], ret(box(x - n * y, xh - n * y)), budget=8)
                        m = rnd_even(x / y)
                        assert m == rnd_even(xh / y)
                        o = box(x - m * y, xh - m * y)
                        q(t, 'remainder', [X, Y], ret(o), budget=8)
                        neg = gx != gy
                        qv = [[(-(v) if neg else v) & 0xffffffff] * 2 for v in sorted({m} | {m % 8 + 8 * k for k in range(0, 9)} - ({0} if m % 8 else set()))]
                        q(t, 'remquo', [X, Y], [ret(o), {'out': 'mem2', 'in': qv}], budget=8)
        # every pair of edge and ordinary magnitudes, exactly
        ms = [v for v in f.edges() if v and v < f.inf] + [f.enc(Fraction(v)) for v in (0.1, 10, 3.7, 1e10, 3.141592653589793, 1e30, 7e-20)]
        for x in ms:
            for y in ms:
                a, b = f.frac(x), f.frac(y)
                if c == 'l' and quick and abs(x - y) >> 64 > 300: continue
                n = a // b
                m = rnd_even(a / b)
                for gx, gy in ((0, 0), (1, 0), (0, 1)) if quick else ((0, 0), (1, 0), (0, 1), (1, 1)):
                    X = [[x | (f.sign if gx else 0)] * 2]
                    Y = [[y | (f.sign if gy else 0)] * 2]
                    def pt(v):
                        e = f.enc(abs(v)) | (f.sign if (v < 0) else 0)
                        return ret([[e ^ (f.sign if gx else 0)] * 2])
                    t = '%x,%x' % (X[0][0], Y[0][0])
                    q(t, 'fmod', [X, Y], pt(a - n * b), steps=4000000)
                    q(t, 'remainder', [X, Y], pt(a - m * b), steps=4000000)
                    if c == 'l' and m >= 1 << 62: continue
                    low = m % 8
                    qv = [[(-v if gx != gy else v) & 0xffffffff] * 2 for v in range(low, 72, 8)]
                    if m < 1 << 31: qv += [[(-m if gx != gy else m) & 0xffffffff] * 2]
                    q(t, 'remquo', [X, Y], [pt(a - m * b), {'out': 'mem2', 'in': sorted(qv)}], steps=4000000)
    return r


def run():
    return std('P13', 'Divisor fixed, dividend over whole ranges (sign and magnitude bounds), |x|<|y| (result is x bit for bit), and narrow dividend cells around n*y, (n+1/2)*y for quotients n of every parity and low-bit pattern: the remainder must lie exactly in the shifted cell, the quotient must carry the right sign and low three bits.', qs(), IMGS, ['fmod', 'remainder', 'remquo'])


if __name__ == '__main__': main(run)
