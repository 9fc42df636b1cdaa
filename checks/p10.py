"""P10 exact scaling: frexp, ldexp, scalbn, scalbln, logb, ilogb."""
from lib import *
IMGS = ['ce', 'rt', 'gcc', 'gccce', 'det', 'gccdet']


def pick(f, n):
    lo, hi = f.emin, f.emax
    base = set(range(lo, lo + 3)) | set(range(hi - 2, hi + 1)) | {-1, 0, 1, 2, f.p - 2, f.p - 1, f.p, f.p + 1, -f.p, -20, 20, 63, 64}
    step = max(1, (hi - lo) // n)
    return sorted((base | set(range(lo, hi + 1, step))) & set(range(lo, hi + 1)))


def qs():
    r = []
    n = 40 if TIER == 'quick' else 2100
    for c in FS:
        f = F[c]
        s = f.sign
        q = lambda id, fn, args, e, **k: r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args, e if isinstance(e, list) else [e], **k))
        P2 = lambda k: f.enc(Fraction(2) ** k)
        nx = lambda k: P2(k + 1) if k < f.emax else f.inf
        I = lambda v, w=32: {'iv': [[hex(v & ((1 << w) - 1))] * 2]}
        i32 = lambda v: {'out': None, 'in': [[v & 0xffffffff] * 2]}
        mem = lambda v, k: {'out': 'mem%d' % k, 'in': [[v & 0xffffffff] * 2]}
        box = lambda k: [[P2(k), f.prv(nx(k))]]
        both = lambda iv: (('', iv), ('-', f.neg_of(iv)))
        same = {'out': 'ret', 'aff': [[0, '0x0']]}
        mb = 63 if c == 'l' else f.p - 1
        def scaled(t, g): return {'out': 'ret', 'tpl': [{'c': hex((P2(t) | (f.sign if g else 0)) & ~((1 << mb) - 1)), 'segs': [[0, 0, mb, 0]]}]}
        for k in pick(f, n):
            for g, b in both(box(k)):
                q('%s2^%d' % (g, k), 'frexp', [b, {'ptr': 4}], [scaled(-1, g), mem(k + 1, 1)])
                q('%s2^%d' % (g, k), 'logb', [b], ret([[f.enc(k)] * 2]))
                q('%s2^%d' % (g, k), 'ilogb', [b], ret([[k & 0xffffffff] * 2]))
        sub = sorted(set(range(f.qmin, f.emin, max(1, f.p // (8 if TIER == 'quick' else 64)))) | {f.qmin, f.emin - 1})
        for k in sub:
            b = [[P2(k), P2(k + 1) - 1 if k + 1 < f.emin else f.maxsub]]
            for g, bb in both(b):
                h = [[f.enc(Fraction(1, 2)), f.prv(f.one)]]
                # the kernels that go through double cannot see long double subnormals: asked on every path all the same
                q('%s2^%d' % (g, k), 'frexp', [bb, {'ptr': 4}], [ret(f.neg_of(h) if g else h), mem(k + 1, 1)], budget=24)
                q('%s2^%d' % (g, k), 'logb', [bb], ret([[f.enc(k)] * 2]), budget=24)
                q('%s2^%d' % (g, k), 'ilogb', [bb], ret([[k & 0xffffffff] * 2]), budget=24)
        q('0', 'ilogb', [f.zeros()], ret([[0x80000000] * 2]))
        q('inf', 'ilogb', [f.infs()], ret([[0x7fffffff] * 2]))
        q('0', 'frexp', [f.zeros(), {'ptr': 4}], [same, mem(0, 1)])
        q('inf', 'frexp', [f.infs(), {'ptr': 4}], [same])
        for fn in ('ldexp', 'scalbn', 'scalbln'):
            w = 64 if fn == 'scalbln' else 32
            ks = pick(f, max(6, n // 6))
            for k in ks:
                es = {0, 1, -1, 2, 3, 10, -10, 30, f.emax - k, f.emin - k, f.emax // 2, f.emin // 2}
                for e in sorted(es):
                    if not f.emin <= k + e <= f.emax: continue
                    for g, b in both(box(k)):
                        if g and TIER == 'quick' and e not in (1, -10): continue
                        q('%s2^%d,%d' % (g, k, e), fn, [b, I(e, w)], scaled(k + e, g), budget=12)
                # results below the normal range: rounded to nearest once
                for t in (f.emin - 1, f.emin - 4, f.qmin + 1, f.qmin, f.qmin - 1, f.qmin - 2):
                    e = t - k
                    if e > 0 : continue
                    for lo, hi in ((P2(k), f.nxt(P2(k), 3)), (f.prv(nx(k), 3), f.prv(nx(k)))):
                        L, H = f.frac(lo) * Fraction(2) ** e, f.frac(hi) * Fraction(2) ** e
                        q('2^%d+%d,%d' % (k, (lo != P2(k)), e), fn, [[[lo, hi]], I(e, w)], ret([[f.enc(L), f.enc(H)]]), budget=12)
                # ties and their neighbours in the subnormal range: to even, once
                for n2 in (1, 3, 5, 7, 2**(f.p - 3) + 1, 2**(f.p - 3) + 3):
                    j = n2.bit_length() - 1  # argument n2 * 2^(k-j), result quantum 2^qmin, so n2/2 quanta
                    a = f.enc(n2 * Fraction(2) ** (k - j))
                    e = f.qmin - 1 - (k - j)
                    if not f.emin <= k or e < -(2**30): continue
                    for v in (a, f.prv(a), f.nxt(a)):
                        want = f.enc(f.frac(v) * Fraction(2) ** e)
                        for g in (0, f.sign): q('tie %x,%d' % (v | g, e), fn, [[[v | g] * 2], I(e, w)], ret([[want | g] * 2]), budget=12)
                e = f.emax + 1 - k
                q('2^%d,%d' % (k, e), fn, [box(k), I(e, w)], ret(f.pinf()), budget=12)
                q('-2^%d,%d' % (k, e), fn, [f.neg_of(box(k)), I(e, w)], ret(f.ninf()), budget=12)
                e = f.qmin - 2 - k
                q('2^%d,%d' % (k, e), fn, [box(k), I(e, w)], ret([[0, 0]]), budget=12)
            for k in sub:  # subnormal arguments scaled into the normal range: exact
                b = [[P2(k), P2(k + 1) - 1 if k + 1 < f.emin else f.maxsub]]
                for t in (f.emin, 0, f.emax // 2, f.emax):
                    e = t - k
                    lo, hi = b[0]
                    q('sub 2^%d,%d' % (k, e), fn, [b, I(e, w)], ret([[f.enc(f.frac(lo) * Fraction(2) ** e), f.enc(f.frac(hi) * Fraction(2) ** e)]]), budget=12)
                q('sub 2^%d,inf' % k, fn, [b, I(f.emax + 1 - k, w)], ret(f.pinf()), budget=12)
        for e in (2**31, 2**32, 2**32 + 1, 2**33 - 3, 2**40, 2**63 - 1):  # exponents beyond int
            q('norm,%d' % e, 'scalbln', [f.pnorm(), I(e, 64)], ret(f.pinf()), budget=12)
            q('norm,%d' % -e, 'scalbln', [f.pnorm(), I(-e, 64)], ret([[0, 0]]), budget=12)
    return r


def run():
    return std('P10', 'Per binade: frexp/ldexp/scalbn/scalbln results are the argument bits with the exponent field shifted by exactly the requested amount; logb/ilogb are exactly the exponent; results leaving the normal range are rounded once.', qs(), IMGS, ['frexp', 'logb', 'ilogb', 'ldexp', 'scalbn', 'scalbln'])


if __name__ == '__main__': main(run)
