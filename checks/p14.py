"""P14 error reporting and environment discipline: errno and explicit exception flags per argument class (abstract interpretation), environment typestate and sink values (effect analysis)."""
from effects import *
IMGS = ['det', 'gccdet', 'rt', 'gcc']
FIMGS = ['rt', 'gcc', 'gccnb', 'det', 'gccdet', 'ce', 'gccce']
INIT, EDOM, ERANGE = 0x5eed, 33, 34
INVALID, DIVZERO, OVER, UNDER, INEX = 1, 4, 8, 16, 32
ev = lambda *v: {'out': 'errno', 'in': [[x, x] for x in v]}


def fe(mask): return {'out': 'fe', 'in': [[x, x] for x in range(64) if not x & ~mask]}


def qs():
    r = []
    for c in FS:
        f = F[c]
        s = f.sign
        E = lambda x: [[f.enc(x)] * 2]
        qn = [[f.inf | (1 << (f.p - 2)) , s - 1], [s | f.inf | (1 << (f.p - 2)), f.full]]

        def q(id, fn, args, *ex, **k): r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args, list(ex), **k))
        DOM = (ev(EDOM), fe(INVALID))
        POLE = (ev(ERANGE), fe(DIVZERO))
        OVF = (ev(INIT, ERANGE), fe(OVER | INEX))
        UNF = (ev(INIT, ERANGE), fe(UNDER | INEX))
        OK = (ev(INIT), fe(INEX))
        EXACT = (ev(INIT), fe(0))
        I = lambda a, b: f.rng(mpf(a), mpf(b), 'none')
        # quiet NaN operands are never an error
        for fn in UN + ['isnan', 'isinf', 'isfinite', 'isnormal', 'signbit', 'fpclassify']:
            q('qNaN', fn, [qn], *EXACT)
            q('NaN', fn, [[[qn[0][0]] * 2]], *EXACT)
            q('-NaN', fn, [[[qn[1][0]] * 2]], *EXACT)
            if fn not in UN: q('any', fn, [f.all()], *EXACT)
        anyv = f.fin() + f.infs() + qn
        for fn in BI:
            if fn in ('copysign', 'fmin', 'fmax'): q('any', fn, [anyv, anyv], *EXACT); continue
            q('qNaN,y', fn, [qn, anyv], *EXACT)
            q('x,qNaN', fn, [anyv, qn], *EXACT)
        for fn in CMP: q('any', fn, [anyv, anyv], *EXACT)
        for fn in ('ldexp', 'scalbn', 'scalbln'): q('qNaN,e', fn, [qn, {'iv': [['0x0', '0xffffffff' if fn != 'scalbln' else '0xffffffffffffffff']]}], *EXACT)
        for fn in ('fabs', 'ceil', 'floor', 'trunc', 'round', 'rint', 'nearbyint'):
            q('any', fn, [f.zeros() + f.infs()], *EXACT)
            q('0<x<1', fn, [I('.001', '.999')], *OK)
            q('big', fn, [[[f.enc(Fraction(2) ** f.p), f.maxb], [s | f.enc(Fraction(2) ** f.p), s | f.maxb]]], *EXACT)
        # domain errors, poles, infinities and ordinary arguments of each function
        neg = [[s | 1, s | f.inf]]
        for fn in ('log', 'log2', 'log10'):
            q('x<0', fn, [neg], *DOM)
            q('0', fn, [f.zeros()], *POLE)
            q('inf', fn, [f.pinf()], *EXACT)
            q('1', fn, [E(1)], *EXACT)
            for a, b in (('1e-3', '1.001e-3'), ('.75', '.7502'), ('3', '3.0005'), ('1e20', '1.0001e20')): q('[%s,%s]' % (a, b), fn, [I(a, b)], *OK)
        q('x<-1', 'log1p', [[[f.nxt(f.one) | s, s | f.inf]]], *DOM)
        q('-1', 'log1p', [E(-1)], *POLE)
        q('inf', 'log1p', [f.pinf()], *EXACT)
        q('0', 'log1p', [f.zeros()], *EXACT)
        for a, b in (('-.5', '-.4999'), ('.25', '.25001'), ('100', '100.01')): q('[%s,%s]' % (a, b), 'log1p', [I(a, b)], *OK)
        for fn in ('asin', 'acos'):
            q('x>1', fn, [[[f.nxt(f.one), f.inf]]] if c != 'l' else [I(2, f.dec(f.maxb)) + f.pinf()], *DOM)
            q('x<-1', fn, [[[f.nxt(f.one) | s, s | f.inf]]] if c != 'l' else [I(-f.dec(f.maxb), -2) + f.ninf()], *DOM)
            q('1', fn, [[[f.one] * 2, [f.one | s] * 2]], *OK)
            for a, b in (('0.001', '.49'), ('.51', '.999'), ('-.999', '-.51'), ('-.49', '-.001')): q('[%s,%s]' % (a, b), fn, [I(a, b)], *OK)
        for fn in ('sin', 'cos', 'tan'):
            q('inf', fn, [f.infs()], *DOM)
            q('0', fn, [f.zeros()], *EXACT)
            for a, b in (('.5', '.5001'), ('3', '3.0001'), ('-100', '-99.9999'), ('1e6', '1.00000001e6')): q('[%s,%s]' % (a, b), fn, [I(a, b)], *OK)
        for fn in ('exp', 'exp2', 'expm1'):
            q('inf', fn, [f.infs()], *EXACT)
            q('0', fn, [f.zeros()], *EXACT)
            q('overflow', fn, [[[f.enc(2 * f.emax), f.maxb]]], *OVF)
            if fn != 'expm1': q('underflow', fn, [[[s | f.enc(2 * f.emax), s | f.maxb]]], *UNF)
            for a, b in (('.5', '.5001'), ('3', '3.0001'), ('-5', '-4.9999')): q('[%s,%s]' % (a, b), fn, [I(a, b)], *OK)
        for fn in ('gamma', 'lgamma'):
            q('0', fn, [f.zeros()], *POLE)
            q('inf', fn, [f.pinf()], *EXACT)
            for k in (1, 2, 7, 100): q('-%d' % k, fn, [E(-k)], *(DOM if fn == 'gamma' else POLE))
            e = f.enc(Fraction(2) ** (f.p - 1))
            big = [[s | e, s | f.enc(F['d'].frac(F['d'].maxb) if c == 'l' else f.frac(f.maxb), 'z')]]
            q('x<=-2^p', fn, [big], *(DOM if fn == 'gamma' else POLE))
            for x in (2 ** 24 + 2, 2 ** 40, 2 ** 60): q('-%d' % x, fn, [E(-x)], *(DOM if fn == 'gamma' else POLE))
            q('overflow', fn, [[[f.maxb] * 2]], *OVF)
            for a, b in (('1.5', '1.5001'), ('3.25', '3.2501')): q('[%s,%s]' % (a, b), fn, [I(a, b)], *OK)
            for k in (1, 2, 3, 20): q('%d' % k, fn, [E(k)], *OK)
        q('-inf', 'gamma', [f.ninf()], *DOM)
        q('-inf', 'lgamma', [f.ninf()], *EXACT)
        for fn in ('fmod', 'remainder'):
            q('x,0', fn, [f.fin() + f.infs(), f.zeros()], ev(INIT, EDOM), fe(INVALID))
            q('inf,y', fn, [f.infs(), f.fin() + f.infs()], ev(INIT, EDOM), fe(INVALID))
            q('0,y', fn, [f.zeros(), f.pos() + f.neg()], ev(INIT), fe(INEX))
            q('x,inf', fn, [f.fin(), f.infs()], ev(INIT), fe(INEX))
        # pow
        B = {'budget': 40}
        nb, hv = [[s | f.enc(3), s | f.enc(5)]], I('.25', '.75')
        q('x<0,non-integer', 'pow', [nb, hv], *DOM, **B)
        q('0,y<0', 'pow', [f.zeros(), I('-1000', '-.25')], ev(EDOM, ERANGE), fe(DIVZERO), **B)
        Nn = [[qn[0][0]] * 2]
        for i, y in enumerate((2, -.5, 1e10)): q('NaN,%s' % y, 'pow', [Nn, E(y)], *EXACT); q('%s,NaN' % y, 'pow', [E(y), Nn], *EXACT)
        q('x,0', 'pow', [anyv, f.zeros()], *EXACT)
        q('1,y', 'pow', [[[f.one] * 2], anyv], *EXACT)
        q('0,y>0', 'pow', [f.zeros(), f.pos()], *EXACT, **B)
        q('inf,y', 'pow', [f.infs(), I('-1000', '1000')], *EXACT, **B)
        q('x,inf', 'pow', [f.pos() + f.neg(), f.infs()], *EXACT, **B)
        q('2,overflow', 'pow', [E(2), I(2 * f.emax, 4 * f.emax)], *OVF, **B)
        q('2,underflow', 'pow', [E(2), I(-4 * f.emax, -2 * f.emax)], *UNF, **B)
        for x, y in ((2, 3), (1.5, 2), (7, .5), (-2, 3), (.5, -2), (10, -1)): q('%s,%s' % (x, y), 'pow', [E(x), E(y)], *OK)
        # the rest
        q('inf,y', 'hypot', [f.infs(), anyv], *EXACT)
        q('x,inf', 'hypot', [anyv, f.infs()], *EXACT)
        q('0,0', 'hypot', [f.zeros(), f.zeros()], *EXACT)
        q('3,4', 'hypot', [E(3), E(4)], *OK)
        q('max,max', 'hypot', [[[f.maxb] * 2], [[f.maxb] * 2]], *OVF)
        q('any zeros', 'atan2', [f.zeros(), f.zeros() + f.fin() + f.infs()], ev(INIT, ERANGE), fe(UNDER | INEX))
        q('x,y', 'atan2', [I('.5', '.51'), I('2', '2.01')], *OK)
        q('inf', 'atan', [f.infs()], *OK)
        q('any', 'atan', [I('1e-3', '1000') + I('-1000', '-1e-3')], *OK)
        q('x<=y', 'fdim', [I(1, 2), I(3, 4)], *OK)
        q('inf,inf', 'fdim', [f.pinf(), f.pinf()], *EXACT)
        q('0*inf', 'fma', [f.zeros(), f.infs(), E(1)], ev(INIT, EDOM), fe(INVALID))
        q('inf-inf', 'fma', [f.pinf(), f.pos(), f.ninf()], ev(INIT, EDOM), fe(INVALID))
        q('exact', 'fma', [E(3), E(5), E(7)], *OK)
        q('inf*y', 'fma', [f.infs(), I(1, 2), E(1)], *EXACT)
        q('overflow', 'fma', [[[f.maxb] * 2], E(2), E(1)], *OVF)
        for v in (0, 1, .5): q('%s' % v, 'lerp', [E(3), E(5), E(v)], *OK)
        q('x>=0', 'sqrt', [[[0, f.inf], [s, s]]], *OK)
        q('x<0', 'sqrt', [neg], ev(INIT, EDOM), fe(INVALID))
        q('0', 'cbrt', [f.zeros() + f.infs()], *EXACT)
        for a, b in (('.5', '.51'), ('-100', '-99'), ('1e20', '1.01e20')): q('[%s,%s]' % (a, b), 'cbrt', [I(a, b)], *OK)
        q('0', 'logb', [f.zeros()], ev(INIT, ERANGE), fe(DIVZERO))
        q('x', 'logb', [f.pfin() + f.nfin()], ev(INIT), fe(0))
        q('x', 'nextafter', [I('1', '1.5'), I('3', '4')], *OK)
        q('max,inf', 'nextafter', [[[f.maxb] * 2], f.pinf()], *OVF)
        q('0,1', 'nextafter', [f.zeros(), E(1)], *UNF)
        for fn in ('ldexp', 'scalbn', 'scalbln'):
            q('0/inf,e', fn, [f.zeros() + f.infs(), {'iv': [['0x0', '0xffffffff' if fn != 'scalbln' else '0xffffffffffffffff']]}], *EXACT)
            q('1,5', fn, [E(1), {'iv': [['0x5', '0x5']]}], *OK)
            q('1,20000', fn, [E(1), {'iv': [[hex(40000)] * 2]}], *OVF)
    return r


def run():
    ck = Check('P14', 'Per argument class: errno is left alone for NaNs, infinities the function accepts, exact cases and ordinary arguments; a domain error stores EDOM, a pole or range error ERANGE; flags raised explicitly are those of the error class. Over all reachable code: only EDOM and ERANGE reach errno, only the five standard flags reach feraiseexcept, no flag is cleared and no trap changed, and a changed rounding mode is restored on every path; with CCM_CONFIG_DISABLE_ERRNO nothing reaches errno.')
    Qs = qs()
    plan = {im: Qs for im in IMGS}
    fns = sorted({q['fn'].split('_')[1] for q in Qs})
    with cf.ThreadPoolExecutor(4) as ex:
        fa = ex.submit(facts_all, FIMGS)
        fb = ex.submit(facts_all, ['det', 'gccdet', 'rt', 'gcc'], ('-DCCM_CONFIG_DISABLE_ERRNO',))
        res = run_matrix(driver(fns), plan)
        fa, fb = fa.result(), fb.result()
    for im in IMGS: ck.add(im, res[im], Qs)
    for im, F_ in fa.items():
        seen = {}
        for e in F_.entries:
            for k in F_.reach(e): seen.setdefault(k, e)
        for kind, fn, l, top, vals in F_.sinks:
            if fn not in seen: continue
            if top: ck.undecided('%s: the value reaching %s at %s is not a set of constants' % (im, kind, l))
            for v, vl in vals:
                ok = v in (EDOM, ERANGE) if kind == 'errno' else not v & ~61
                if ok: ck.ok(1, im + ' ' + kind)
                else: ck.violation('%s:%s=%d' % (im, kind, v), vl, '[%s] %s receives %d, which is not %s' % (IMAGE_TEXT[im], kind, v, 'EDOM or ERANGE' if kind == 'errno' else 'a combination of the standard exception flags'))
        if im in ('ce', 'gccce'):
            for kind, fn, l, *_ in F_.sinks:
                if fn in seen: ck.violation('%s:%s' % (im, kind), l, '[%s] constant evaluation reaches a write of %s' % (IMAGE_TEXT[im], kind))
        for k, e in seen.items():
            if k in ('feclearexcept', 'feenableexcept', 'fedisableexcept', 'fesetexceptflag') or k.startswith('llvm.reset.fp'):
                ck.violation('%s:call:%s' % (im, k), F_.path(e, k), '[%s] calls %s: flags are cleared or traps changed' % (IMAGE_TEXT[im], k))
            else: ck.ok(1, im + ' calls')
        for e, l, n, rl in F_.env: ck.violation('%s:env:%s' % (im, e), l, '[%s] %s returns (%s) with the floating-point environment changed by %s at %s and not restored' % (IMAGE_TEXT[im], e, rl, n, l))
        ck.ok(len(F_.entries) - len({e[0] for e in F_.env}), im + ' environment typestate')
    for im, F_ in fb.items():
        for kind, fn, l, top, vals in F_.sinks:
            if kind == 'errno': ck.violation('%s:noerrno' % im, l, '[%s, CCM_CONFIG_DISABLE_ERRNO] errno is still written' % IMAGE_TEXT[im])
        ck.ok(1, im + ' errno disabled')
    return ck.finish(functions=len(fns), images={i: IMAGE_TEXT[i] for i in FIMGS}, argument_classes=len(Qs), environment_entries=sorted({e for f in fa.values() for e in f.env_entries}))


if __name__ == '__main__': main(run)
