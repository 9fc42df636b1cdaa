"""P21 no call has undefined behaviour: no signed overflow, bad shift, unrepresentable conversion, division by zero, out-of-range index or unreachable code, whatever the arguments."""
from lib import *
IMGS = ['ce', 'rt', 'gcc', 'det'] if TIER == 'quick' else ['ce', 'rt', 'gcc', 'gccce', 'det', 'gccdet', 'gccnb']
SAN = ['signed-integer-overflow', 'shift', 'float-cast-overflow', 'bounds', 'integer-divide-by-zero', 'unreachable', 'return', 'builtin', 'bool', 'enum']
UBN = {0: 'add overflow', 1: 'builtin with invalid argument (unreachable)', 2: 'alignment', 3: 'division', 5: 'unrepresentable conversion', 20: 'shift out of bounds', 18: 'index out of bounds'}


def boxes(f, fine):
    """a partition of every encoding of the format"""
    m = [[[0, 0]], f.psub(), f.pinf()]
    e = lambda k: f.enc(Fraction(2) ** k)
    if fine:
        cuts = sorted({max(f.emin, min(f.emax, k)) for k in list(range(-6, 7)) + [f.emin, f.emin + 1, f.emin // 2, f.emin // 4, -f.p - 4, -f.p, -f.p // 2, -12, 10, 16, f.p // 2, f.p - 2, f.p - 1, f.p, f.p + 3, 30, 31, 32, 62, 63, 64, 65, f.emax // 8, f.emax // 4, f.emax // 2, f.emax - 1, f.emax]})
    else:
        cuts = sorted({f.emin, -f.p, -1, 0, 1, 5, 31, 63, f.emax // 2, f.emax - 1})
        cuts = [k for k in cuts if f.emin <= k <= f.emax]
    m += [[[e(a), f.prv(e(b))]] for a, b in zip(cuts, cuts[1:])] + [[[e(cuts[-1]), f.maxb]]]
    return m + [f.neg_of(b) for b in m] + [f.nan()]


def ordinary(f, b): return all(0 < (v & (f.sign - 1)) < f.inf for iv in b for v in iv)


def ints(w):
    M = (1 << w) - 1
    h = 1 << (w - 1)
    B = [(-h, -40000), (-39999, -1100), (-1099, -70), (-69, -1), (0, 0), (1, 69), (70, 1099), (1100, 39999), (40000, h - 1)]
    if w == 64: B = [(-h, -(1 << 32)), (-(1 << 32) + 1, -40000)] + B[1:-1] + [(40000, (1 << 32) - 1), (1 << 32, h - 1)]
    return [[[a & M, b & M]] for a, b in B + [(-h, -h), (h - 1, h - 1), (-h + 1, -h + 1)]]


def qs(tier=TIER):
    r = []
    def q(fn, c, id, args, **k): r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args, [], notrap=True, nooob=True, budget=6 if tier == 'quick' else 200, steps=30000 if tier == 'quick' else 400000, cap=4500 if tier == 'quick' else 400000, **k))
    for c in FS:
        f = F[c]
        fine = boxes(f, True)
        rough = boxes(f, False)
        for fn in UN + CLS:
            for i, b in enumerate(fine): q(fn, c, '#%d' % i, [b])
            # the edges of the kernels' tables: both ends of mantissa cells at chosen exponents
            for k in sorted({f.emin, -20, -3, -2, -1, 0, 1, 2, 3, 6, f.emax - 1}):
                lo = f.enc(Fraction(2) ** k)
                n = f.p - 1
                for t in range(0, 128, 8 if tier == 'quick' else 1):
                    base = lo + (t << (n - 7))
                    for nm, bx in (('first', [[base, f.nxt(base)]]), ('last', [[base + (1 << (n - 7)) - 2, base + (1 << (n - 7)) - 1]]), ('middle', [[base + (1 << (n - 8)) - 1, base + (1 << (n - 8))]])):
                        for sg in (0, 1): q(fn, c, '%s%s of cell %d at 2^%d' % ('-' if sg else '', nm, t, k), [f.neg_of(bx) if sg else bx])
            # every exponent (shift widths and table rows depend on it)
            for k in range(f.emin - f.p + 2, f.emax + 1, 1 if f.emax < 5000 else (7 if tier == 'thorough' else 61)):
                b = f.enc(Fraction(2) ** k * Fraction(11, 8)) if k >= f.emin + 3 else f.enc(Fraction(2) ** k)
                for sg in (0, 1): q(fn, c, '%s2^%d*11/8' % ('-' if sg else '', k), [f.neg_of([[b, b + 1]]) if sg else [[b, b + 1]]])
            # either side of the integer types' limits
            for k in (31, 32, 63, 64):
                if k > f.emax: continue
                b = f.enc(Fraction(2) ** k)
                for t in (-2, -1, 0, 1):
                    for sg in (0, 1): q(fn, c, '%s2^%d%+dulp' % ('-' if sg else '', k, t), [f.neg_of([[b + t] * 2]) if sg else [[b + t] * 2]])
        for fn in BI + CMP:
            for i, a in enumerate(rough):
                for j, b in enumerate(rough):
                    if fn == 'pow' and ordinary(f, a) and ordinary(f, b): continue
                    q(fn, c, '#%d,#%d' % (i, j), [a, b])
        # pow of ordinary numbers: blocks two bases wide at chosen exponents
        for ke in (f.emin, -f.p, -3, -1, 0, 1, 3, f.p, f.emax - 1):
            for kf in (0, 13, 27):
                x = Fraction(2) ** ke * (1 + Fraction(kf, 32))
                for y in (Fraction(1, 2**40), Fraction(1, 3), Fraction(1), Fraction(5, 2), Fraction(3), Fraction(200), Fraction(2 * f.emax + 1), Fraction(2) ** 31, Fraction(2) ** 32, Fraction(2) ** 40, Fraction(2) ** 63, Fraction(2) ** 64, Fraction(2) ** (f.emax - 3)):
                    for sx, sy in ((0, 0), (0, 1), (1, 0), (1, 1)):
                        bx, by = [[f.enc(x), f.nxt(f.enc(x))]], [[f.enc(y)] * 2]
                        q('pow', c, '%s%s,%s%s' % ('-' if sx else '', float(x) if ke > -1000 and ke < 1000 else '2^%d*%d' % (ke, kf), '-' if sy else '', mp.nstr(mpf(y.numerator) / y.denominator, 6)), [f.neg_of(bx) if sx else bx, f.neg_of(by) if sy else by])
        small = [rough[0], rough[1], rough[2], rough[len(rough) // 4], rough[len(rough) // 4 - 1], f.neg_of(rough[1]), f.neg_of(rough[len(rough) // 4]), f.nan()]
        for fn in TE + ['hypot3']:
            for i, a in enumerate(small):
                for j, b in enumerate(small):
                    for l, d in enumerate(small): q(fn, c, '#%d,#%d,#%d' % (i, j, l), [a, b, d])
        for fn, w in (('ldexp', 32), ('scalbn', 32), ('scalbln', 64)):
            for i, a in enumerate(fine):
                for j, b in enumerate(ints(w)): q(fn, c, '#%d,int#%d' % (i, j), [a, b])
            M = (1 << w) - 1
            for nm, b in (('1', f.enc(Fraction(1))), ('min', f.enc(Fraction(2) ** f.emin)), ('max', f.maxb - 1), ('sub', f.psub()[0][0])):
                for n in sorted(set(range(f.emin - 140, f.emin + 5)) | set(range(f.emax - 5, f.emax + 90)) | set(range(-140, 140)) | set(range(2 * f.emin - 140, 2 * f.emin + 5, 3)) | set(range(2 * f.emax - 5, 2 * f.emax + 140, 3))):
                    q(fn, c, '%s,%d' % (nm, n), [[[b, b + 1]], [[n & M] * 2]])
        for i, a in enumerate(fine):
            q('frexp', c, '#%d' % i, [a, {'ptr': 4}])
            q('modf', c, '#%d' % i, [a, {'ptr': {'f': 4, 'd': 8, 'l': 16}[c]}])
        for i, a in enumerate(rough):
            for j, b in enumerate(rough): q('remquo', c, '#%d,#%d' % (i, j), [a, b, {'ptr': 4}])
            for j, b in enumerate(boxes(F['l'], False)): q('nexttoward', c, '#%d,#%d' % (i, j), [a, b])
    return r


def run():
    ck = Check('P21', 'With every undefined operation compiled into a trap, no block of arguments (the blocks partition all encodings) must reach one.')
    Qs = qs()
    fns = UN + BI + TE + CLS + CMP + ['hypot3', 'ldexp', 'scalbn', 'scalbln', 'frexp', 'modf', 'remquo', 'nexttoward']
    res = run_matrix(driver(fns), {im: Qs for im in IMGS}, SAN)
    for im in IMGS: ck.add(im, res[im], Qs)
    return ck.finish(functions=sorted({q['fn'] for q in Qs}), sanitizers=SAN, images={i: IMAGE_TEXT[i] for i in IMGS})


if __name__ == '__main__': main(run)
