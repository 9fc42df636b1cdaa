"""P23 every call returns after a bounded number of steps, whatever its arguments."""
from lib import *
import random
QUICK = TIER == 'quick'
IMGS = ['ce', 'rt', 'gcc', 'det'] if QUICK else ['ce', 'rt', 'gcc', 'gccce', 'det', 'gccdet', 'gccnb']
CAPS, VIS = {'f': 400000, 'd': 400000, 'l': 1500000}, 40000
FNS = UN + BI + TE + CLS + CMP + ['hypot3', 'ldexp', 'scalbn', 'scalbln', 'frexp', 'modf', 'remquo', 'nexttoward']
CORE = {'fmod', 'remainder', 'remquo', 'pow', 'hypot'}


def qs():
    r = []
    for c in FS:
        f = F[c]
        rnd = random.Random(23)
        P = lambda v: [[v, v]]

        def q(fn, id, args): cap = CAPS[c]; r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args, [], term=True, cap=cap, visits=VIS, steps=4 * cap, budget=4))
        # one value per exponent with a mantissa of its own, every kind of special value, the integers and the edges of the integer types
        ks = list(range(f.emin - f.p + 2, f.emax + 1, (1 if f.emax < 200 else 9 if f.emax < 2000 else 163) * (3 if QUICK else 1))) + list(range(-70, 70)) + list(range(f.emin - f.p + 1, f.emin + 3)) + [f.emax - 1, f.emax]
        vals = [0, f.inf, f.inf | 1 << (f.p - 2), f.maxb, 1, 2, 3, f.psub()[0][1], f.psub()[0][0]]
        if c != 'l': vals += [f.inf + 1]
        for k in ks:
            b = f.enc(Fraction(2) ** k)
            vals.append(b)
            if k > f.emin: vals += [f.prv(b), b + rnd.randrange(1 << (f.p - 1))]
        vals += [f.enc(Fraction(n)) for n in list(range(1, 180)) + [255, 256, 1000, 1024, 1754, 1755, 1756, 2000, 12345, 65535, 10 ** 6]] + [f.enc(Fraction(n) + Fraction(1, 2)) for n in range(180)]
        vals = sorted(set(vals))
        for fn in UN + CLS:
            for v in vals:
                for s in (0, f.sign): q(fn, '%#x' % (v | s), [P(v | s)])
        edge = sorted({0, 1, 2, 3, f.psub()[0][1], f.psub()[0][0], f.inf, f.inf | 1 << (f.p - 2), f.maxb, f.prv(f.maxb), f.one, f.prv(f.one), f.nxt(f.one)} | {f.enc(x) for x in (Fraction(2), Fraction(3), Fraction(5, 2), Fraction(10), Fraction(1, 3), Fraction(2) ** f.emin, Fraction(2) ** 31, Fraction(2) ** 63, Fraction(2) ** 64, Fraction(10) ** 20, Fraction(1, 10 ** 20), Fraction(2) ** f.p - 1, Fraction(2) ** (f.emax // 2) * 3, Fraction(7) / 2 ** (f.emax // 2))})
        for fn in BI + CMP:
            ed = edge[::2] if QUICK and fn not in CORE else edge
            for a in ed:
                for b in ed:
                    for s, t in ((0, 0), (f.sign, 0), (0, f.sign), (f.sign, f.sign)): q(fn, '%#x,%#x' % (a | s, b | t), [P(a | s), P(b | t)])
        for fn in ('fmod', 'remainder', 'remquo', 'pow', 'hypot', 'atan2'):
            for _ in range(60):
                a, b = rnd.choice(vals), rnd.choice(vals)
                q(fn, '%#x,%#x' % (a, b | rnd.choice((0, f.sign))), [P(a), P(b)] + ([{'ptr': 4}] if fn == 'remquo' else []))
        for a in edge:
            for b in edge:
                q('remquo', '%#x,%#x' % (a, b), [P(a), P(b), {'ptr': 4}])
                q('remquo', '-%#x,%#x' % (a, b), [P(a | f.sign), P(b), {'ptr': 4}])
            for b in (0, F['l'].one, F['l'].sign | F['l'].maxb, F['l'].inf): q('nexttoward', '%#x,%#x' % (a, b), [P(a), P(b)])
        some = edge[::2] if len(edge) > 14 else edge
        for fn in TE + ['hypot3']:
            for a in some:
                for b in some:
                    for d in some[::2] + [f.sign | some[-2]]: q(fn, '%#x,%#x,%#x' % (a, b, d), [P(a), P(b), P(d)])
        for fn, w in (('ldexp', 32), ('scalbn', 32), ('scalbln', 64)):
            M = (1 << w) - 1
            for a in edge:
                for n in (0, 1, -1, 5, -60, 130, -130, 1023, -1074, 2100, -2200, 16383, -16445, 33000, -33000, 10 ** 6, -10 ** 6, (1 << (w - 1)) - 1, -(1 << (w - 1)), -(1 << (w - 1)) + 1, 1 << (w - 2)):
                    q(fn, '%#x,%d' % (a, n), [P(a), P(n & M)])
        for v in vals:
            for s in (0, f.sign):
                q('frexp', '%#x' % (v | s), [P(v | s), {'ptr': 4}])
                q('modf', '%#x' % (v | s), [P(v | s), {'ptr': {'f': 4, 'd': 8, 'l': 16}[c]}])
    return list({q['id']: q for q in r}.values())


def run():
    ck = Check('P23', 'Over argument values at every kind of operand, exponent and magnitude, the abstract execution of each function in each build image must reach its return within 400,000 instructions (1,500,000 for long double) and %d passes through one block; an execution that passes the bound without an undecided branch on the way certainly takes that long.' % VIS)
    Qs = qs()
    res = run_matrix(driver(FNS), {im: Qs for im in IMGS})
    top = {}
    for im in IMGS:
        ck.add(im, res[im], Qs)
        for i, r in res[im].items():
            fn = r['fn'] if 'fn' in r else i.split('(')[0]
            if r.get('steps', 0) > top.get(fn, (0,))[0]: top[fn] = (r['steps'], r.get('max_loop', 0), im, i)
    return ck.finish(functions=sorted({q['fn'] for q in Qs}), images={i: IMAGE_TEXT[i] for i in IMGS}, most_steps={k: list(v) for k, v in sorted(top.items())})


if __name__ == '__main__': main(run)
