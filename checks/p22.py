"""P22 lerp hits both end points, stays between them and stays finite; extrapolates along the same line."""
from lib import *
from itertools import product
IMGS = ['rt', 'ce', 'gcc', 'gccce', 'det', 'gccdet', 'gccnb']


def qs():
    r = []
    for c in FS:
        f = F[c]
        fn = 'w_lerp_%s' % c
        pt = lambda x: [[f.enc(Fraction(x), 'z')] * 2]
        sp = lambda iv: f.sign if iv[0][0] & f.sign else 0
        val = lambda x: f.frac(f.enc(Fraction(x), 'z'))
        mx, mn, tiny = f.frac(f.maxb), Fraction(2) ** (1 - f.emax), f.frac(1)

        def q(id, a, ex, **k): r.append(Q('lerp_%s(%s)' % (c, id), fn, a, ex, budget=k.pop('budget', 1500), **k))
        zz = lambda x: f.zeros() if x == 0 else pt(x)
        ends = [Fraction(0), Fraction(1), Fraction(3), Fraction(1, 10), Fraction(-1), Fraction(-5), Fraction(10) ** 9, -Fraction(10) ** 30, mn, -mn, tiny, 3 * tiny, mx, -mx, mx / 3, Fraction(7, 3)]
        ts = [Fraction(0), Fraction(1), Fraction(1, 2), Fraction(1, 4), Fraction(3, 4), Fraction(1, 10), Fraction(9, 10), 1 - Fraction(1, 2 ** f.p), Fraction(1, 2 ** 20), tiny]
        out = [Fraction(2), Fraction(-1), Fraction(3, 2), Fraction(-1, 4), Fraction(10), Fraction(-100)]
        for x, y in product(ends, ends):
            a, b = val(x), val(y)
            lo, hi = min(a, b), max(a, b)
            # the value on the line, to a few units in the last place of the larger of the numbers involved
            for t in ts + out:
                t = val(t)
                e = a + (b - a) * t
                if t == 0: q('%s,%s,0' % (float_s(a), float_s(b)), [pt(a), pt(b), f.zeros()], [ret(zz(a))]); continue
                if t == 1: q('%s,%s,1' % (float_s(a), float_s(b)), [pt(a), pt(b), pt(1)], [ret(zz(b))]); continue
                if a == b:
                    if abs(t) <= 1: q('%s,same,%s' % (float_s(a), float_s(t)), [pt(a), pt(b), pt(t)], [ret(zz(a))])
                    continue
                m = max(abs(a), abs(b), abs(t * b), abs((1 - t) * a), abs(t * (b - a)))
                if m > mx / 2 and not 0 <= t <= 1: continue
                w = m * Fraction(4, 2 ** f.p) + 2 * tiny
                l, h = e - w, e + w
                if 0 <= t <= 1: l, h = max(l, lo - w), min(h, hi + w)
                if 0 <= t <= 1 and (a > 0) == (b > 0) and a and b: h = min(h, hi)
                if 0 <= t <= 1 and (a > 0) == (b > 0) and a and b: l = max(l, lo)
                l, h = max(l, -mx), min(h, mx)
                q('%s,%s,%s' % (float_s(a), float_s(b), float_s(t)), [pt(a), pt(b), pt(t)], [ret(f.out(l, h))])
        # whole boxes
        I = lambda a, b: f.rng(Fraction(a), Fraction(b))
        pos, neg = [[1, f.maxb]], [[f.sign | 1, f.sign | f.maxb]]
        u = f.rng(Fraction(0), Fraction(1), 'p')
        for n, A, B in (('+,+', pos, pos), ('-,-', neg, neg)):
            q('%s: same sign, t=1' % n, [A, B, pt(1)], [ret(B)])
            q('%s: same sign, t in [0,1]' % n, [A, B, u], [ret(A)])
        for n, A, B in (('+,-', pos, neg), ('-,+', neg, pos)):
            q('%s: finite between' % n, [A, B, u], [ret(f.fin())])
        for lo, hi in ((1, 2), (5, 6), (100, 1000), (Fraction(1, 1000), Fraction(1, 100)), (-2, -1), (-1000, -999)):
            for lo2, hi2 in ((1, 2), (5, 6), (100, 1000), (Fraction(1, 1000), Fraction(1, 100)), (-2, -1), (-1000, -999)):
                A, B = I(lo, hi), I(lo2, hi2)
                q('[%s,%s],[%s,%s],1' % (lo, hi, lo2, hi2), [A, B, pt(1)], [ret(B)])
                q('[%s,%s],[%s,%s],0' % (lo, hi, lo2, hi2), [A, B, f.zeros()], [ret(A)])
                w = Fraction(max(abs(lo), abs(hi), abs(lo2), abs(hi2))) * Fraction(4, 2 ** f.p)
                l, h = min(lo, lo2), max(hi, hi2)
                q('[%s,%s],[%s,%s],[0,1]' % (lo, hi, lo2, hi2), [A, B, u], [ret(f.out(Fraction(l) - w, Fraction(h) + w))])
                for t0, t1 in ((Fraction(1, 4), Fraction(1, 2)), (Fraction(2), Fraction(3)), (Fraction(-2), Fraction(-1))):
                    v = [a + (b - a) * t for a in (lo, hi) for b in (lo2, hi2) for t in (t0, t1)]
                    v = [Fraction(x) for x in v]
                    w2 = max(map(abs, v + [Fraction(lo2), Fraction(lo)])) * Fraction(16, 2 ** f.p) * 4
                    q('[%s,%s],[%s,%s],[%s,%s]' % (lo, hi, lo2, hi2, t0, t1), [A, B, I(t0, t1)], [ret(f.out(min(v) - w2, max(v) + w2))])
    return r


def float_s(x):
    if x.denominator == 1 and abs(x) < 10 ** 6: return str(int(x))
    if abs(x.numerator) < 1000 and x.denominator < 1000: return str(x)
    return mp.nstr(mpf(x.numerator) / x.denominator, 12)


def run():
    return std('P22', 'For the public lerp in every build image and format: on pairs of end points (zero, ordinary, huge, subnormal, the largest finite, equal) and interpolation factors the abstract result must lie in the envelope of a + t(b - a); the factors 0 and 1 must give the end points themselves; with 0 <= t <= 1 the result must be finite and between the ends; and the same over whole boxes of ends and factors.', qs(), IMGS, ['lerp'])


if __name__ == '__main__': main(run)
