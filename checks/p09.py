"""P09 sign and neighbour manipulation."""
from lib import *


def aff(a, d, f): return {'out': 'ret', 'aff': [[a, hex(d & f.full)]]}


def tpl(f, segs, c=0): return {'out': 'ret', 'tpl': [{'c': hex(c), 'segs': segs}]}


def qs():
    r = []
    for c in FS:
        f = F[c]
        W = f.w - 1
        A, X = f.all(), f.nonnan()
        q = lambda id, fn, args, e, **k: r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args, [e], **k))
        q('x', 'fabs', [X], tpl(f, [[0, 0, W, 0]]))
        q('x,y', 'copysign', [X, X], tpl(f, [[0, 0, W, 0], [1, W, 1, W]]))
        q('x,nan', 'copysign', [X, f.nan()], tpl(f, [[0, 0, W, 0], [1, W, 1, W]]))
        # neighbours; for the 80-bit format the integer step is exact inside a binade, the seams are given apart
        up = f.pfin()
        if c != 'l':
            P = [('+', [[1, f.maxb]], 1), ('-', [[f.sign | 1, f.sign | f.inf]], -1)]     # toward +inf
            M = [('+', [[1, f.inf]], -1), ('-', [[f.sign | 1, f.sign | f.maxb]], 1)]
        else:
            h = 1 << 63
            P, M = [], []
            for e in (0x0001, 0x3ffe, 0x3fff, 0x4000, 0x7ffe):
                lo, hi = (e << 64) | h, (e << 64) | h | (h - 1)
                P += [('+%x' % e, [[lo, hi - 1]], 1), ('-%x' % e, [[f.sign | lo + 1, f.sign | hi]], -1)]
                M += [('+%x' % e, [[lo + 1, hi]], -1), ('-%x' % e, [[f.sign | lo, f.sign | hi - 1]], 1)]
            P += [('+sub', [[1, h - 2]], 1), ('-sub', [[f.sign | 1, f.sign | h - 1]], -1)]
            M += [('+sub', [[1, h - 1]], -1), ('-sub', [[f.sign | 1, f.sign | h - 2]], 1)]
        for n, iv, d in P:
            q('up%s' % n, 'nextup', [iv], aff(0, d, f))
            q('x<y%s' % n, 'nextafter', [iv, f.pinf()], aff(0, d, f))
            q('down-arg%s' % n, 'nexttoward', [iv, F['l'].pinf()], aff(0, d, f))
        for n, iv, d in M:
            q('down%s' % n, 'nextdown', [iv], aff(0, d, f))
            q('x>y%s' % n, 'nextafter', [iv, f.ninf()], aff(0, d, f))
            q('x>y%s' % n, 'nexttoward', [iv, F['l'].ninf()], aff(0, d, f))
        if c == 'l':
            for e in (0x0001, 0x3ffe, 0x3fff, 0x7ffd):  # seams
                hi, nx = (e << 64) | ((1 << 64) - 1), ((e + 1) << 64) | (1 << 63)
                for fn, y in (('nextup', None), ('nextafter', f.pinf()), ('nexttoward', f.pinf())):
                    a = [[[hi, hi]]] + ([y] if y else [])
                    q('seam+%x' % e, fn, a, ret([[nx, nx]]))
                    q('seam-%x' % e, fn, [[[f.sign | nx, f.sign | nx]]] + ([y] if y else []), ret([[f.sign | hi, f.sign | hi]]))
                for fn, y in (('nextdown', None), ('nextafter', f.ninf()), ('nexttoward', f.ninf())):
                    q('dseam+%x' % e, fn, [[[nx, nx]]] + ([y] if y else []), ret([[hi, hi]]))
                    q('dseam-%x' % e, fn, [[[f.sign | hi, f.sign | hi]]] + ([y] if y else []), ret([[f.sign | nx, f.sign | nx]]))
        sm, inf = f.sign | f.maxb, f.inf
        q('zero', 'nextup', [f.zeros()], ret([[1, 1]]))
        q('zero', 'nextdown', [f.zeros()], ret([[f.sign | 1] * 2]))
        q('inf', 'nextup', [f.pinf()], ret(f.pinf()))
        q('max', 'nextup', [[[f.maxb] * 2]], ret(f.pinf()))
        q('-inf', 'nextup', [f.ninf()], ret([[sm, sm]]))
        q('-inf', 'nextdown', [f.ninf()], ret(f.ninf()))
        q('-max', 'nextdown', [[[sm, sm]]], ret(f.ninf()))
        q('inf', 'nextdown', [f.pinf()], ret([[f.maxb] * 2]))
        for fn, g in (('nextafter', f), ('nexttoward', F['l'])):
            q('0,pos', fn, [f.zeros(), g.pos()], ret([[1, 1]]))
            q('0,neg', fn, [f.zeros(), g.neg()], ret([[f.sign | 1] * 2]))
            q('max,inf', fn, [[[f.maxb] * 2], g.pinf()], ret(f.pinf()))
            q('-max,-inf', fn, [[[sm, sm]], g.ninf()], ret(f.ninf()))
            q('inf,fin', fn, [f.pinf(), g.fin()], ret([[f.maxb] * 2]))
            q('-inf,fin', fn, [f.ninf(), g.fin()], ret([[sm, sm]]))
        X1 = f.pfin() + f.nfin() + f.infs()
        q('x==y', 'nextafter', [X1, X1], aff(1, 0, f), rel=2)
        q('0,0', 'nextafter', [f.zeros(), f.pz()], ret(f.pz()))
        q('0,-0', 'nextafter', [f.zeros(), f.nz()], ret(f.nz()))
        if c != 'l':
            q('x<y,x>0', 'nextafter', [f.pfin(), f.pos()], aff(0, 1, f), rel=1)
            q('x>y,x>0', 'nextafter', [f.pfin(), f.pos()], aff(0, -1, f), rel=3)
            q('x<y,x<0', 'nextafter', [f.nfin(), f.neg()], aff(0, -1, f), rel=1)
            q('x>y,x<0', 'nextafter', [f.nfin(), f.neg()], aff(0, 1, f), rel=3)
        q('x>0>=y', 'nextafter', [[[(1 << 64) * 0x3fff | (1 << 63) | 1, (1 << 64) * 0x3fff | ((1 << 64) - 1)]] if c == 'l' else f.pfin(), f.neg() + f.zeros()], aff(0, -1, f))
        q('x<0<=y', 'nextafter', [[[f.sign | (1 << 64) * 0x3fff | (1 << 63) | 1, f.sign | (1 << 64) * 0x3fff | ((1 << 64) - 1)]] if c == 'l' else f.nfin(), f.pos() + f.zeros()], aff(0, -1, f))
        key = lambda v, g=f: (g.frac(v) if v & ~g.sign != g.inf else Fraction(2) ** 20000 * (-1 if v & g.sign else 1))
        def step(x, up):
            if x & ~f.sign == 0: return 1 if up else f.sign | 1
            if x == (f.inf if up else f.sign | f.inf): return x
            m = x & ~f.sign
            return (f.nxt(m) if up == (not x & f.sign) else f.prv(m)) | (x & f.sign)
        for x in f.edges():
            q('%x' % x, 'nextup', [[[x, x]]], ret([[step(x, True)] * 2]))
            q('%x' % x, 'nextdown', [[[x, x]]], ret([[step(x, False)] * 2] if x & ~f.sign != 1 or not x & f.sign == 0 else [[0, 0]]))
            for fn, g in (('nextafter', f), ('nexttoward', F['l'])):
                near = [] if c == 'l' or x & ~f.sign in (0, f.inf) else [g.nxt(g.enc(f.frac(x)) & ~g.sign) | (g.enc(f.frac(x)) & g.sign), g.prv(g.enc(f.frac(x)) & ~g.sign) | (g.enc(f.frac(x)) & g.sign)]
                for y in sorted(set(g.edges() + (near if g is not f else []))):
                    a, b = key(x), key(y, g)
                    z = step(x, a < b) if a != b else y if g is f else (y >> 64 << 64 and x if x & ~f.sign else (f.sign if y & g.sign else 0))
                    q('%x,%x' % (x, y), fn, [[[x, x]], [[y, y]]], ret([[z, z]]))
    return r


def run():
    return std('P09', 'Bit-exact templates: the result must be composed of the bits of the arguments as the definition says (magnitude bits of x, sign bit of y), or be the argument pattern plus or minus one, on whole sign/relation classes; binade seams of the 80-bit format are single boxes.', qs(), ['ce', 'rt', 'gcc', 'det', 'gccdet'], ['fabs', 'copysign', 'nextafter', 'nexttoward', 'nextup', 'nextdown'])


if __name__ == '__main__': main(run)
