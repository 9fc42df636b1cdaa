"""P18 rounding modes: results that must follow the rounding mode in effect, and results that must not."""
from lib import *
import math, itertools
import p07, p08, p09, p10, p11, p12, p13
IMGS = ['rt', 'gcc', 'det', 'gccdet', 'gccnb']
MODES = {'nearest': (1, 'n', 'FE_TONEAREST'), 'down': (2, 'd', 'FE_DOWNWARD'), 'up': (4, 'u', 'FE_UPWARD'), 'zero': (8, 'z', 'FE_TOWARDZERO')}
INDEP = {'fabs', 'copysign', 'nextafter', 'nextup', 'nextdown', 'nexttoward', 'fmin', 'fmax', 'trunc', 'floor', 'ceil', 'round', 'modf', 'frexp', 'logb', 'ilogb', 'fmod', 'remainder', 'remquo'} | set(CLS) | set(CMP)


def isqrt_enc(f, x, mode):
    """correctly rounded square root of Fraction x"""
    n, d = x.numerator, x.denominator
    k = max(0, 2 * 160 + 2 * f.p + (d.bit_length() - n.bit_length()) + 2)
    k += k & 1
    import math
    v = n * (1 << k) // d
    r = math.isqrt(v)
    exact = r * r == v and n * (1 << k) % d == 0
    y = Fraction(r, 1 << (k // 2))
    if not exact: y += Fraction(1, 1 << (k // 2 + 1))  # strictly between two representable values at this precision
    return f.enc(y, mode)


def integral(fn, x, mode):
    if mode == 'n': return p11.want('rint', x)
    return p11.want({'d': 'floor', 'u': 'ceil', 'z': 'trunc'}[mode], x)


def dependent(mode, const=False):
    """obligations for the functions that follow the mode; const: constant evaluation with this mode configured"""
    r = []
    rms, em, _ = MODES[mode]
    kw = {} if const else {'rms': rms}
    quick = TIER == 'quick'
    for c in FS:
        f = F[c]
        s = f.sign
        def q(id, fn, args, e, **k): r.append(Q('%s: %s_%s(%s)' % (mode, fn, c, id), 'w_%s_%s' % (fn, c), args, e if isinstance(e, list) else [e], **{**kw, **k}))
        P2 = lambda k: f.enc(Fraction(2) ** k)
        I = lambda v, w: {'iv': [[hex(v & ((1 << w) - 1))] * 2]}
        mb = 63 if c == 'l' else f.p - 1
        # rint, nearbyint: every unit interval of a grid, the fractions around its ends and middle
        for fn in ('rint', 'nearbyint'):
            for g in (0, 1):
                sg = s if g else 0
                S = lambda iv: f.neg_of(iv) if g else iv
                m = '-' if g else ''
                V = lambda n: f.enc(abs(n)) | sg
                h = P2(-1)
                for id, lo, hi in (('(0,min)', 1, f.maxsub), ('[min,1/2)', f.minnorm, f.prv(h)), ('1/2', h, h), ('(1/2,1)', f.nxt(h), f.prv(f.one))):
                    q(m + id, fn, [S([[lo, hi]])], ret([[V(integral(fn, f.frac(hi | sg), em))] * 2]))
                q(m + 'big', fn, [S([[P2(f.p - 1), f.maxb]])], {'out': 'ret', 'aff': [[0, '0x0']]})
                for k in range(0, f.p - 1, 3 if quick else 1):
                    b = S([[P2(k), f.prv(P2(k + 1))]])
                    q('%sint2^%d' % (m, k), fn, [dict(iv=hexiv(b), kz=hex((1 << (mb - k)) - 1))], {'out': 'ret', 'aff': [[0, '0x0']]})
                ns = {1, 2, 3, 4, 7, 10, 1023}
                for k in range(2, f.p - 1, 5 if quick else 1): ns |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
                for n in sorted(ns):
                    if n >= 1 << (f.p - 1): continue
                    lo, hi = f.nxt(f.enc(n)), f.prv(f.enc(n + 1))
                    if lo > hi: continue
                    h = f.enc(Fraction(2 * n + 1, 2))
                    for id, a, b in (('+', lo, f.prv(h)), ('h', h, h), ('++', f.nxt(h), hi), ('first', lo, lo), ('last', hi, hi)):
                        if a > b: continue
                        w = integral(fn, f.frac(a | sg), em)
                        assert w == integral(fn, f.frac(b | sg), em)
                        q('%s%d%s' % (m, n, id), fn, [S([[a, b]])], ret([[V(w)] * 2]))
        # ldexp and relatives: saturation and the subnormal range
        for fn in (('ldexp',) if const else ('ldexp', 'scalbn', 'scalbln')):  # constant evaluation of scalbn multiplies natively, to nearest
            w = 64 if fn == 'scalbln' else 32
            for x in (f.one, f.nxt(f.one), f.enc(Fraction(3, 2)), f.prv(P2(1)), P2(f.emax), f.maxb, f.minnorm, f.maxsub, 1, 3):
                v = f.frac(x)
                e0 = math.floor(math.log2(v.numerator) - math.log2(v.denominator)) if v else 0
                for t in (f.emax, f.emax + 1, f.emax + 2, 2 * f.emax + 4, f.emin, f.emin - 1, f.emin - 2, f.emin - f.p // 2, f.qmin + 1, f.qmin, f.qmin - 1, f.qmin - 2, 2 * f.emin - 3 * f.p, 3 * f.emin):
                    for g in (0, s):
                        xx = v if not g else -v
                        e = t - e0
                        q('%x,%d' % (x | g, e), fn, [[[x | g] * 2], I(e, w)], ret([[f.enc(xx * Fraction(2) ** e, em) | g] * 2]), budget=8)
        # sqrt: perfect squares, their neighbours, the ends of the binades
        pts = set()
        for n in (1, 2, 3, 5, 9, 1023, (1 << (f.p // 2)) - 1):
            for k in (0, f.emin // 2 // 2 * 2, f.emax // 2 // 2 * 2):
                x = f.enc(n * n * Fraction(2) ** k)
                pts |= {x, f.nxt(x), f.prv(x), f.prv(x, 2)}
        for k in (1, 2, 3, 10, 11, f.emin, f.emin + 1, f.emax, f.emax - 1): pts |= {f.prv(P2(k)) if k > f.emin else P2(k), P2(k), f.nxt(P2(k))}
        pts |= {1, 2, 3, f.maxsub, f.prv(f.maxsub), f.maxb, f.prv(f.maxb), f.enc(Fraction(1, 3))}
        for x in sorted(pts): q('%x' % x, 'sqrt', [[[x, x]]], ret([[isqrt_enc(f, f.frac(x), em)] * 2]))
        # fma and fdim: one rounding of the exact value
        E = [f.one, f.nxt(f.one), f.prv(f.one), f.enc(Fraction(3, 2)), f.enc(Fraction(1, 3)), P2(-f.p), P2(f.p), f.enc(Fraction(10) ** 7 + 1)]
        H = [P2(f.emin), P2(f.emax), f.maxb, f.minnorm, f.maxsub, 1]
        tri = [(a, b, z) for a in E for b in E[:5] for z in (E[0], E[1] | s, E[5], E[6] | s)]
        tri += [(a, b, z) for a in H for b in (f.one, f.enc(Fraction(1, 2)), f.prv(P2(1)), P2(f.p // 2)) for z in (0, 1, 1 | s, f.minnorm)]
        for a, b, z in tri if not quick else tri[::2]:
            for g in (0, s):
                v = f.frac(a | g) * f.frac(b) + f.frac(z)
                if v == 0:
                    if a == 0 or z == 0: continue
                    w = s if em == 'd' else 0
                else: w = f.enc(v, em) | (s if v < 0 else 0)
                q('%x,%x,%x' % (a | g, b, z), 'fma', [[[a | g] * 2], [[b] * 2], [[z] * 2]], ret([[w] * 2]), budget=4)
        for x, y, z in itertools.product((0, s), (0, s, f.enc(Fraction(3, 2)), f.maxb | s), (0, s)):
            zs = (x ^ y) & s
            q('0,%x,%x,%x' % (x, y, z), 'fma', [[[x] * 2], [[y] * 2], [[z] * 2]], ret([[zs if zs == z else s if em == 'd' else 0] * 2]), budget=4)
            q('%x,0,%x,%x' % (y, x, z), 'fma', [[[y] * 2], [[x] * 2], [[z] * 2]], ret([[zs if zs == z else s if em == 'd' else 0] * 2]), budget=4)
        for a in () if const else E:  # constant evaluation of fdim subtracts natively, to nearest
            for b in E + H:
                v = f.frac(a) - f.frac(b | s)
                q('%x,%x' % (a, b | s), 'fdim', [[[a] * 2], [[b | s] * 2]], ret([[f.enc(v, em)] * 2]), budget=4)
                v = f.frac(a) - f.frac(b)
                if v > 0: q('%x,%x' % (a, b), 'fdim', [[[a] * 2], [[b] * 2]], ret([[f.enc(v, em)] * 2]), budget=4)
    return r


def independent():
    r = []
    for m in (p07, p08, p09, p11, p12, p13, p10):
        for x in m.qs():
            if x['fn'].split('_')[1] not in INDEP: continue
            y = Q.__new__(Q); dict.__init__(y, x); y['id'] = 'any mode: ' + x['id']; y['rms'] = 15
            r.append(y)
    seen = {}
    for y in r: seen.setdefault(y['id'], y)
    return list(seen.values())


def run():
    ck = Check('P18', 'Every obligation is decided with the rounding mode as a parameter of the abstract machine: mode-dependent functions per mode against the exactly rounded value, mode-independent ones under all four modes at once, and constant evaluation under each configured CCM_CONSTEXPR_ROUNDING_MODE.')
    D = [q for m in MODES for q in dependent(m)]
    A = independent()
    fns = sorted({q['fn'].split('_')[1] for q in D + A})
    drv = driver(fns)
    res = run_matrix(drv, {im: D + A for im in IMGS})
    for im in IMGS: ck.add(im, res[im], D + A)
    nC = 0
    for m in MODES:
        C = dependent(m, True)
        nC += len(C)
        res = run_matrix(drv, {im: C for im in ('ce',)}, extra=('-DCCM_CONSTEXPR_ROUNDING_MODE=' + MODES[m][2],))
        for im in res: ck.add(im, res[im], C)
    return ck.finish(functions=fns, images={i: IMAGE_TEXT[i] for i in IMGS + ['ce']}, per_mode=len(D), all_modes=len(A), constant_evaluation=nC)


if __name__ == '__main__': main(run)
