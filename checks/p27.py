"""P27 every elementary function is close to the mathematical function it is named after."""
import random
from lib import *
IMGS = ['ce', 'gccce', 'det', 'gccdet', 'rt', 'gcc', 'gccnb']
cb = lambda v: mp.cbrt(v) if v >= 0 else -mp.cbrt(-v)
REF = dict(exp=mp.exp, exp2=lambda v: mpf(2) ** v, expm1=mp.expm1, log=mp.log, log10=mp.log10, log1p=mp.log1p, log2=lambda v: mp.log(v) / mp.ln2, sqrt=mp.sqrt, cbrt=cb, sin=mp.sin, cos=mp.cos, tan=mp.tan,
           asin=mp.asin, acos=mp.acos, atan=mp.atan, gamma=mp.gamma, lgamma=lambda v: mp.log(abs(mp.gamma(v))) if abs(v) < 50 else mp.loggamma(v))
REF2 = dict(pow=lambda x, y: mp.power(x, y), hypot=lambda x, y: mp.sqrt(x * x + y * y), atan2=mp.atan2)
# log2 of the relative error allowed; the long double kernels work in double outside libm
TOL = {'f': 20, 'd': 46, 'l': 46}
TOLF = {(fn, c): 19 for fn in ('gamma', 'lgamma') for c in FS}


def grids(fn, f, k):
    """arguments: a jittered uniform grid over the interval(s) the tables divide, and every exponent"""
    R = random.Random('%s %s' % (fn, f.c))
    U = R.uniform
    def lin(a, b, n):
        for i in range(n): yield mpf(a) + (mpf(b) - a) * mpf(i + R.random()) / n
    def expo(a, b, n, both=False):
        for e in range(a, b):
            for _ in range(n):
                v = mpf(2) ** e * mpf(U(1, 2))
                yield v
                if both: yield -v
    d = F['d'] if f.c == 'l' else f
    top = int(mp.floor(mp.ln2 * d.emax))
    xs = []
    if fn in ('exp', 'expm1'):
        xs += lin(-1, 1, 768 * k); xs += lin(-top, top, 512 * k); xs += expo(-d.p - 3, 0, 2 * k, True)
    elif fn == 'exp2':
        xs += lin(-1, 1, 768 * k); xs += lin(d.emin + 1, d.emax, 512 * k); xs += expo(-d.p - 3, 0, 2 * k, True)
    elif fn in ('log', 'log2', 'log10'):
        xs += lin(0.5, 2, 1024 * k); xs += lin(0.9, 1.1, 256 * k); xs += expo(d.qmin + 1 if f.c != 'l' else d.emin, d.emax, 1 if f.c != 'f' else 3)
        xs += [1 + s * mpf(2) ** -j for j in range(2, d.p - 2) for s in (1, -1)]
    elif fn == 'log1p':
        xs += lin(-0.999, 4, 1536 * k); xs += expo(-d.p - 3, -1, 3 * k, True); xs += expo(1, d.emax, 1)
    elif fn in ('sqrt', 'cbrt'):
        xs += lin(1, 8, 256 * k); xs += expo(f.qmin + 1, f.emax, 1 if f.c != 'f' else 3, fn == 'cbrt') if not (fn == 'cbrt' and f.c == 'l') else expo(d.emin, d.emax, 1, True)
    elif fn in ('sin', 'cos', 'tan'):
        xs += lin(-7, 7, 1024 * k); xs += lin(-400, 400, 128 * k); xs += expo(-d.p // 2 - 2, d.emax, 1 if f.c != 'f' else 3, True)
    elif fn in ('asin', 'acos'):
        xs += lin(-1, 1, 1024 * k); xs += expo(-d.p // 2 - 2, -1, 2, True); xs += [s * (1 - mpf(2) ** -j) for j in range(2, d.p - 1) for s in (1, -1)]
    elif fn == 'atan':
        xs += lin(-1, 1, 512 * k); xs += lin(-20, 20, 512 * k); xs += expo(-d.p // 2 - 2, d.p + 4, 3, True)
    elif fn in ('gamma', 'lgamma'):
        xs += lin(0.05, 12, 384 * k); xs += lin(12, {'f': 34, 'd': 170, 'l': 170}[f.c], 128 * k); xs += lin(-9, 0, 256 * k); xs += expo(-20, -4, 2)
        if fn == 'lgamma': xs += expo(5, d.emax // 2, 1)
        xs = [x for x in xs if x > 0 or abs(x - mp.nint(x)) > mpf(2) ** -6]
    return [d.dec(d.enc(x)) for x in xs]


def pairs(fn, f, k):
    R = random.Random('%s %s' % (fn, f.c))
    U, C = R.uniform, R.choice
    d = F['d'] if f.c == 'l' else f
    r = []
    if fn == 'hypot':
        for _ in range(600 * k): r.append((mpf(2) ** U(-6, 6) * C((1, -1)), mpf(2) ** U(-6, 6) * C((1, -1))))
        for e in range(d.emin + 1, d.emax - 1, 1 if f.c == 'f' else 3): r.append((mpf(2) ** (e + R.random()), mpf(2) ** (e + U(-4, 1))))
    elif fn == 'atan2':
        for _ in range(800 * k): r.append((mpf(2) ** U(-8, 8) * C((1, -1)), mpf(2) ** U(-8, 8) * C((1, -1))))
        for e in range(d.emin + 10, d.emax - 1, 1 if f.c == 'f' else 5): r.append((mpf(2) ** (e + R.random()), mpf(2) ** (e + U(-4, 1)) * C((1, -1))))
    else:
        n = 0
        while n < 2600 * k:
            x = mpf(2) ** U(-2, 2) if n % 3 else mpf(2) ** U(d.emin, d.emax)
            if n % 7 == 0: x = mpf(1) + mpf(2) ** -U(2, d.p - 2) * C((1, -1))
            t = U(-0.98, 0.98) * (d.emax - 1)       # log2 of the result
            l = mp.log(x) / mp.ln2
            if l == 0: continue
            y = mpf(t) / l if n % 2 else mpf(C((-3, -2.5, -2, -1.5, -1, -.75, -.5, -.25, .1, .3, .5, 1.5, 2, 2.5, 3, 5, 7.5, 11)))
            if abs(y * l) > d.emax * .98 or abs(y) > mpf(2) ** 60: continue
            n += 1
            r.append((x, y))
    return [(d.dec(d.enc(a)), d.dec(d.enc(b))) for a, b in r]


def near(f, v, n):
    """v and its n neighbours above in magnitude (of the double the long double kernels see)"""
    b = f.enc(v)
    if b & (f.sign - 1) == 0: return None
    e = f.nxt(b & (f.sign - 1), n)
    if e > f.maxb: return None
    return [[b, e | (b & f.sign)]]


def sweep(fn, c, k):
    """adjoining boxes over whole intervals: a proof for every argument in them, at a coarser tolerance"""
    f = F[c]
    if fn in ('gamma', 'lgamma') or c == 'l': return
    dom = dict(log=[(.25, 4)], log2=[(.25, 4)], log10=[(.25, 4)], log1p=[(-.75, -.01), (.01, 4)], sqrt=[(.25, 4)], cbrt=[(-2, -.25), (.25, 2)], asin=[(-.99, -.01), (.01, .99)], acos=[(-.99, .99)], sin=[(-3, -.02), (.02, 3)], cos=[(-1.5, 1.5)], tan=[(-1.5, -.02), (.02, 1.5)],
               exp=[(-1, 1)], exp2=[(-1, 1)], expm1=[(-1, -.02), (.02, 1)], atan=[(-4, -.02), (.02, 4)])[fn]
    n = (256 if TIER == 'quick' else 4096) if c == 'f' else (512 if TIER == 'quick' else 16384)
    for a, b in dom:
        m = int(n * (b - a))
        for i in range(m):
            x, y = mpf(a) + (mpf(b) - a) * i / m, mpf(a) + (mpf(b) - a) * (i + 1) / m
            yield f.dec(f.enc(x, 'd')), f.dec(f.enc(y, 'u'))


def part(job):
    mp.prec = 150
    fn, c, k = job
    f, r = F[c], []
    t = mpf(2) ** -TOLF.get((fn, c), TOL[c])
    if fn in REF:
        g = REF[fn]
        for x in grids(fn, f, k):
            iv = near(f, x, 1 if c != 'l' else 3)
            if iv is None: continue
            x2 = f.dec(iv[0][1])
            if fn in ('asin', 'acos') and abs(x2) > 1 or fn == 'log1p' and x2 <= -1: continue
            u, v = g(x), g(x2)
            lo, hi = min(u, v), max(u, v)
            if lo <= 0 <= hi: continue
            m = max(abs(lo), abs(hi))
            a = m * t
            if fn == 'lgamma': a = max(a, t)
            if fn == 'gamma' and (m > f.dec(f.maxb) * mpf('0.99') or m < mpf(2) ** f.emin * 2): continue
            if c == 'l' and fn in ('sin', 'cos', 'tan') and abs(hi - lo) > m * mpf(2) ** -20: continue
            if m < mpf(2) ** (f.emin + 2): a += mpf(2) ** f.qmin
            r.append(('%s_%s(%s)' % (fn, c, mp.nstr(x, 18)), 'w_%s_%s' % (fn, c), [iv], f.out(lo - a, hi + a), 8))
        for x, y in sweep(fn, c, k):
            u, v = g(x), g(y)
            lo, hi = min(u, v), max(u, v)
            if fn == 'cos' and x < 0 < y: hi = mpf(1)
            if fn == 'sin':
                if x < mp.pi / 2 < y: hi = mpf(1)
                if x < -mp.pi / 2 < y: lo = mpf(-1)
            a = max(abs(lo), abs(hi)) / 64
            r.append(('%s_%s[%s,%s]' % (fn, c, mp.nstr(x, 18), mp.nstr(y, 18)), 'w_%s_%s' % (fn, c), [f.rng(x, y)], f.out(lo - a, hi + a), 48))
    else:
        g = REF2[fn]
        for x, y in pairs(fn, f, k):
            v = g(x, y)
            if v == 0: continue
            bx, by = [[f.enc(x)] * 2], [[f.enc(y)] * 2]
            id = '%s_%s(%s,%s)' % (fn, c, mp.nstr(x, 18), mp.nstr(y, 18))
            r.append((id, 'w_%s_%s' % (fn, c), [bx, by], f.out(v - abs(v) * t, v + abs(v) * t), 8))
            if fn == 'pow' and c == 'l':
                a = abs(v) * mpf(2) ** -52
                r.append(('80-bit ' + id, 'w_pow_l', [bx, by], f.out(v - a, v + a), 8))
    return r


def qs():
    k = 1 if TIER == 'quick' else 6
    jobs = [(fn, c, k) for fn in list(REF2) + list(REF) for c in FS]
    seen, r = set(), []
    with cf.ProcessPoolExecutor(JOBS) as ex:
        for l in ex.map(part, jobs):
            for id, fn, args, e, b in l:
                if id in seen: continue
                seen.add(id)
                r.append(Q(id, fn, args, [ret(e)], budget=b))
    return r


def run():
    OWN = ('ce', 'det')                      # the images in which every function is the library's own code
    n = {}
    def skip(im, q):
        fn = q['fn'][2:-2]
        if q['id'].startswith('80-bit'): return im not in ('ce', 'gccce', 'rt')
        if im in OWN: return False
        if im == 'gccdet' : return hash_of(q['id']) % 4 != 0
        if fn in ('sin', 'cos', 'tan', 'gamma', 'lgamma') or '[' in q['id']: return True   # the platform's function, known by its contract only
        return hash_of(q['id']) % 8 != 0
    return std('P27', 'On boxes around arguments in every cell of every table, every polynomial piece and every exponent, and on adjoining boxes that cover whole intervals, the result encloses the mathematical value within the stated relative error.', qs(), IMGS, list(REF) + list(REF2), skip=skip)


def hash_of(s): return int(hashlib.md5(s.encode()).hexdigest()[:8], 16)


if __name__ == '__main__': main(run)
