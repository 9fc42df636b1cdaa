"""P26 the extension helpers (ccm::ext): integer helpers exact over their whole range, clamping helpers within their bounds, angle and interpolation helpers on their defining identities."""
from lib import *
import math
IMGS = ['rt', 'ce', 'gcc', 'gccce']
IT = {'int': (32, 1), 'unsigned': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'unsigned char': (8, 0), 'signed char': (8, 1)}
SH = lambda t: t.replace('unsigned ', 'u').replace('unsigned', 'u').replace('signed ', 's').replace(' ', '')
FT = {c: F[c].name for c in FS}
# floating helpers: name -> number of arguments
FL = {'approximately': 3, 'chgsign': 2, 'cubic': 5, 'degrees': 1, 'radians': 1, 'delta_angle': 2, 'fract': 1, 'inverse_lerp': 3, 'unlerp': 3, 'lerp_angle': 3, 'lerp_smooth': 4, 'mix': 3, 'move_towards': 3, 'move_towards_angle': 3, 'normalize': 3, 'ping_pong': 2, 'rcp': 1, 'remap': 5, 'repeat': 2, 'saturate': 1, 'smoothstep': 3}
SAFE = ['delta_angle', 'inverse_lerp', 'unlerp', 'lerp_angle', 'move_towards_angle', 'normalize', 'remap', 'repeat']
ALIGN = (1, 2, 8, 64)


def src():
    o = ['#include <ccmath/ccmath.hpp>']
    o += ['#include <ccmath/ext/%s>' % h for h in sorted(os.listdir(os.path.join(INC, 'ccmath/ext'))) if h.endswith('.hpp')]
    for t, (w, sg) in IT.items():
        s = SH(t)
        e = lambda n, ps, x, rt=t: o.append('extern "C" %s w_%s_%s(%s){return %s;}' % (rt, n, s, ps, x))
        P2 = '%s a,%s b' % (t, t)
        e('abs_diff', P2, 'ccm::ext::abs_diff(a,b)')
        e('ceil_div', P2, 'ccm::ext::ceil_div(a,b)')
        e('ceil_div_safe', P2, 'ccm::ext::safe::ceil_div(a,b)')
        e('pow2', '%s a' % t, '(int)ccm::ext::is_power_of_two(a)', 'int')
        e('pow2_safe', '%s a' % t, '(int)ccm::ext::safe::is_power_of_two(a)', 'int')
        e('ispow2', '%s a' % t, '(int)ccm::ext::ispow2(a)', 'int')
        e('ispow2_safe', '%s a' % t, '(int)ccm::ext::safe::ispow2(a)', 'int')
        for k in ALIGN:
            e('up%d' % k, '%s a' % t, 'ccm::ext::align_up<%s,%d>(a)' % (t, k))
            e('down%d' % k, '%s a' % t, 'ccm::ext::align_down<%s,%d>(a)' % (t, k))
        e('clamp', '%s a,%s b,%s c' % (t, t, t), 'ccm::ext::clamp(a,b,c)')
        e('sign', '%s a' % t, 'ccm::ext::sign(a)')
        e('step', P2, 'ccm::ext::step(a,b)')
    for c, T in FT.items():
        for n, k in FL.items():
            ps, cs = ','.join('%s %s' % (T, v) for v in 'abxyz'[:k]), ','.join('abxyz'[:k])
            rt = 'int' if n == 'approximately' else T
            for sfx, ns in [('', '')] + ([('_safe', 'safe::')] if n in SAFE else []):
                o.append('extern "C" %s w_%s%s_%s(%s){return ccm::ext::%s%s(%s);}' % (rt, n, sfx, c, ps, ns, n, cs))
        o.append('extern "C" %s w_clamp_%s(%s a,%s b,%s x){return ccm::ext::clamp(a,b,x);}' % (T, c, T, T, T))
        o.append('extern "C" %s w_clamp01_%s(%s a){return ccm::ext::clamp(a);}' % (T, c, T))
        o.append('extern "C" %s w_normalize01_%s(%s a){return ccm::ext::normalize(a);}' % (T, c, T))
        o.append('extern "C" %s w_sign_%s(%s a){return ccm::ext::sign(a);}' % (T, c, T))
        o.append('extern "C" %s w_step_%s(%s a,%s b){return ccm::ext::step(a,b);}' % (T, c, T, T))
    # mixed-type forms
    o.append('extern "C" double w_clampmix_1(int a,double b,double c){static_assert(__is_same(decltype(ccm::ext::clamp(a,b,c)),double),"type");return ccm::ext::clamp(a,b,c);}')
    o.append('extern "C" double w_clampmix_2(double a,int b,int c){static_assert(__is_same(decltype(ccm::ext::clamp(a,b,c)),double),"type");return ccm::ext::clamp(a,b,c);}')
    o.append('extern "C" double w_clampmix_3(float a,double b,int c){static_assert(__is_same(decltype(ccm::ext::clamp(a,b,c)),double),"type");return ccm::ext::clamp(a,b,c);}')
    o.append('extern "C" double w_mixmix_1(int a,int b,double c){static_assert(__is_same(decltype(ccm::ext::mix(a,b,c)),double),"type");return ccm::ext::mix(a,b,c);}')
    o.append('extern "C" double w_mixmix_2(float a,double b,float c){static_assert(__is_same(decltype(ccm::ext::mix(a,b,c)),double),"type");return ccm::ext::mix(a,b,c);}')
    return '\n'.join(o) + '\n'


def int_qs(r):
    A = lambda k: {'out': 'ret', 'aff': [[k, '0x0']]}
    for t, (w, sg) in IT.items():
        s = SH(t)
        M = (1 << w) - 1
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, M)
        iv = lambda a, b: ([[a & M, b & M]] if (a < 0) == (b < 0) else [[a & M, M], [0, b]])
        q = lambda id, fn, args, e, **k: r.append(Q('%s_%s(%s)' % (fn, s, id), 'w_%s_%s' % (fn, s), args, [e], **k))
        E = lambda v, ww=None: ret([[v & (M if ww is None else (1 << ww) - 1)] * 2])
        pts = sorted({v for v in [0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 100, 127, 128, 200, 255, 256, 1000, 32767, 32768, 65535, hi, hi - 1, hi - 7, hi - 63, hi // 2, hi // 2 + 1, hi // 3] + [-1, -2, -3, -8, -9, -64, -65, -100, -128, lo, lo + 1, lo // 2] if lo <= v <= hi})
        for a in pts:
            for b in pts:
                d = abs(a - b)
                if d <= hi: q('%d,%d' % (a, b), 'abs_diff', [iv(a, a), iv(b, b)], E(d))
                if b != 0 and a >= 0 and b > 0:
                    for fn in ('ceil_div', 'ceil_div_safe'): q('%d,%d' % (a, b), fn, [iv(a, a), iv(b, b)], E(-(-a // b)))
            if a >= 0 or not sg: q('%d,0' % a, 'ceil_div_safe', [iv(a, a), iv(0, 0)], E(0))
        # whole blocks of dividends that share one quotient
        for d in [v for v in (1, 2, 3, 7, 10, 64, 100, 127, hi // 2, hi // 2 + 1, hi - 1, hi) if 0 < v <= hi]:
            top = -(-hi // d)
            for k in sorted({1, 2, 3, top // 2, top - 1, top} & set(range(1, top + 1)) if top < 100000 else {1, 2, 3, top // 2, top - 1, top}):
                if k < 1: continue
                a, b = (k - 1) * d + 1, min(k * d, hi)
                if a <= b:
                    for fn in ('ceil_div', 'ceil_div_safe'): q('[%d..%d],%d' % (a, b, d), fn, [iv(a, b), iv(d, d)], E(k))
        for b in pts:  # blocks of one operand
            n = min(40, hi - b)
            if not sg and n > 0: q('[%d..+%d],%d' % (b, n, b), 'abs_diff', [iv(b, b + n), iv(b, b)], ret(iv(0, n)))
        for k in ALIGN:
            if k - 1 > hi: continue
            q('all', 'down%d' % k, [[[0, M]]], {'out': 'ret', 'tpl': [{'c': '0x0', 'segs': [[0, k.bit_length() - 1, w - (k.bit_length() - 1), k.bit_length() - 1]]}]} if k > 1 else A(0))
            if k == 1: q('all', 'up1', [[[0, M]]], A(0)); continue
            for m in sorted({0, 1, 2, 3, hi // k - 1, hi // k // 2} | ({-1, -2, lo // k + 1, lo // k} if sg else set())):
                a, b = m * k + 1, (m + 1) * k
                if lo <= a and b <= hi: q('[%d..%d]' % (a, b), 'up%d' % k, [iv(a, b)], E(b))
        # powers of two: exactly one bit
        for fn in ('pow2', 'pow2_safe', 'ispow2', 'ispow2_safe'):
            q('0', fn, [iv(0, 0)], E(0, 32))
            for i in range(w):
                v = 1 << i
                if v <= hi: q('2^%d' % i, fn, [iv(v, v)], E(1, 32))
                if v < hi and i > 1:
                    u = min(2 * v - 1, hi)
                    q('2^%d+1..' % i, fn, [iv(v + 1, v + 1)], E(0, 32)); q('2^%d-1' % (i + 1), fn, [iv(u, u)], E(0, 32)); q('3*2^%d' % (i - 1), fn, [iv(3 << (i - 1), 3 << (i - 1))], E(0, 32))
            if sg:
                for v in (-1, -2, -4, -8, -16, lo // 2, lo + 1): q('%d' % v, fn, [iv(v, v)], E(0, 32))
                if fn.endswith('safe'): q('negative', fn, [iv(lo, -1)], E(0, 32))
        # clamp, sign, step
        if w >= 32:
            for nm, (a, b, c) in {'between': ((10, 20), (0, 9), (21, 30)), 'edges': ((10, 20), (10, 10), (20, 20))}.items(): q(nm, 'clamp', [iv(*a), iv(*b), iv(*c)], A(0))
            q('below', 'clamp', [iv(lo, 9), iv(10, 20), iv(20, hi)], A(1))
            q('above', 'clamp', [iv(31, hi), iv(0, 10), iv(20, 30)], A(2))
            q('low,high', 'clamp', [iv(hi - 5, hi), iv(lo, lo), iv(hi - 9, hi - 6)], A(2))
        q('0', 'sign', [iv(0, 0)], E(0)); q('+', 'sign', [iv(1, hi)], E(1))
        if sg: q('-', 'sign', [iv(lo, -1)], E(-1))
        for rel, v in ((1, 1), (2, 1), (3, 0)):
            q('rel%d+' % rel, 'step', [iv(0, hi), iv(0, hi)], E(v), rel=rel)
        if sg: q('-,+', 'step', [iv(lo, -1), iv(0, hi)], E(1)); q('+,-', 'step', [iv(0, hi), iv(lo, -1)], E(0))


def flt_qs(r):
    Fr = Fraction
    for c in FS:
        f = F[c]
        P = f.p
        q = lambda id, fn, args, e, **k: r.append(Q('%s_%s(%s)' % (fn, c, id), 'w_%s_%s' % (fn, c), args, e if isinstance(e, list) else [e], **k))
        A = lambda k: {'out': 'ret', 'aff': [[k, '0x0']]}
        zz = f.zeros()
        pt = lambda v: [[f.enc(v)] * 2]
        U01 = [[0, f.one], [f.sign, f.sign]]
        one = [[f.one, f.one]]
        below1 = [[1, f.prv(f.one)]]
        # chgsign: bits of x with the sign of y
        m = f.w - 1
        q('all', 'chgsign', [f.nonnan(), f.nonnan()], {'out': 'ret', 'tpl': [{'c': '0x0', 'segs': [[0, 0, m, 0], [1, m, 1, m]]}]})
        # saturate, clamp
        for fn in ('saturate', 'clamp01'):
            q('inside', fn, [[[1, f.one]]], A(0))
            q('<=0', fn, [f.neg() + zz], ret(zz))
            q('>=1', fn, [[[f.one, f.inf]]], ret(one))
        q('(0,1)', 'normalize01', [[[1, f.prv(f.one)]]], A(0)); q('<=0', 'normalize01', [f.nfin() + zz], ret(zz)); q('>=1', 'normalize01', [[[f.one, f.maxb]]], ret(one))
        for nm, (a, b, x), k in (('between', (3, 1, 5), 0), ('below', (-3, 1, 5), 1), ('above', (8, 1, 5), 2), ('neg between', (-3, -5, -1), 0), ('neg below', (-9, -5, -1), 1), ('neg above', (7, -5, -1), 2)):
            q(nm, 'clamp', [f.rng(mpf(v) - mpf('.5'), mpf(v) + mpf('.5')) for v in (a, b, x)], A(k))
        q('inf', 'clamp', [f.pinf(), pt(1), f.rng(2, 3)], A(2)); q('-inf', 'clamp', [f.ninf(), f.rng(1, 2), pt(3)], A(1)); q('wide', 'clamp', [f.rng(-1, 1), f.ninf(), f.pinf()], A(0))
        # sign, step, rcp, approximately
        q('+', 'sign', [f.pos()], ret(one)); q('-', 'sign', [f.neg()], ret(f.neg_of(one))); q('0', 'sign', [zz], ret(zz))
        for n, iv in (('+', f.pos()), ('-', f.neg())):
            for rel in (1, 2, 3): q('rel%d%s' % (rel, n), 'step', [iv, iv], ret(one if (rel != 3) else zz), rel=rel)
        q('-,+', 'step', [f.neg(), f.pos() + zz], ret(one)); q('+,-', 'step', [f.pos(), f.neg() + zz], ret(zz)); q('0,0', 'step', [zz, zz], ret(one)); q('0,-', 'step', [zz, f.neg()], ret(zz))
        for e in range(-20, 21, 5): q('2^%d' % e, 'rcp', [pt(Fr(2) ** e)], ret(pt(Fr(2) ** -e)))
        for v in (3, 5, 7, 10, Fr(1, 10), Fr(-22, 7), 1000003): q('%s' % v, 'rcp', [pt(v)], ret(pt(1 / f.frac(f.enc(v)))))
        q('[1,2]', 'rcp', [f.rng(1, 2)], ret(f.rng(mpf('.5'), 1))); q('inf', 'rcp', [f.pinf()], ret(f.pz())); q('-inf', 'rcp', [f.ninf()], ret(f.nz())); q('0', 'rcp', [f.pz()], ret(f.pinf()))
        for a, b, e, v in ((1, 1, 0, 1), (1, 2, 1, 1), (2, 1, 1, 1), (1, 2, Fr(1, 2), 0), (2, 1, Fr(1, 2), 0), (-3, 3, 6, 1), (-3, 3, 5, 0), (5, Fr(21, 4), Fr(1, 4), 1), (Fr(21, 4), 5, Fr(1, 8), 0)): q('%s,%s,%s' % (a, b, e), 'approximately', [pt(a), pt(b), pt(e)], ret([[v, v]]))
        q('near', 'approximately', [f.rng(1, mpf('1.25')), f.rng(1, mpf('1.25')), f.rng(mpf('.5'), 1)], ret([[1, 1]])); q('far', 'approximately', [f.rng(1, 2), f.rng(4, 5), f.rng(0, 1)], ret([[0, 0]])); q('far2', 'approximately', [f.rng(4, 5), f.rng(-2, 2), f.rng(0, 1)], ret([[0, 0]])); q('negative eps', 'approximately', [f.rng(1, 2), f.rng(1, 2), f.rng(-2, -1)], ret([[0, 0]])); q('nan', 'approximately', [f.nan(), f.nonnan(), f.nonnan()], ret([[0, 0]]))
        # fract
        q('(0,1)', 'fract', [below1], A(0))
        q('integers', 'fract', [[[f.enc(Fr(2) ** (P - 1)), f.maxb]]], ret(zz)); q('-integers', 'fract', [f.neg_of([[f.enc(Fr(2) ** (P - 1)), f.maxb]])], ret(zz))
        for n in (1, 2, 3, 7, 100, 4095): q('[%d,+1)' % n, 'fract', [f.rng(mpf(n), mpf(n) + 1 - mpf(2) ** -10)], ret([[0, f.prv(f.one)], [f.sign, f.sign]]))
        for v in (Fr(5, 4), Fr(-5, 4), Fr(-1, 2), Fr(7, 8), Fr(-1023, 1024), Fr(4097, 2), Fr(-4097, 4)): q('%s' % v, 'fract', [pt(v)], ret(pt(v - math.floor(v))))
        # exact small cases: dyadic arguments with exact intermediate results, or a few ulp where one division is inexact
        def ex(fn, args, val, ulp=0, scale=None):
            val = Fr(val)
            s = Fr(scale if scale is not None else max([abs(val)] + [abs(Fr(a)) for a in args])) * Fr(ulp) / 2 ** (P - 1)
            e = ret(zz if val == 0 else pt(val)) if not ulp else ret(f.out(val - s, val + s))
            for sfx in ('', '_safe') if fn in SAFE else ('',):
                q(','.join(map(str, args)), fn + sfx, [pt(a) for a in args], e)
        D = [Fr(x) for x in (0, 1, -1, 2, 3, -4, Fr(1, 2), Fr(-7, 4), 10, 100)]
        for a in D:
            for b in D:
                if a != b:
                    L = b - a
                    for t in (Fr(0), Fr(1), Fr(1, 2), Fr(-1), Fr(2), Fr(3, 4)):
                        x = a + t * L
                        for fn in ('unlerp', 'inverse_lerp'): ex(fn, (a, b, x), t)
                        ex('normalize', (x, a, b), min(max(t, Fr(0)), Fr(1)))
                        ex('smoothstep', (a, b, x), (lambda u: u * u * (3 - 2 * u))(min(max(t, Fr(0)), Fr(1))))
                        ex('remap', (a, b, 8, 24, x), 8 + 16 * t); ex('remap', (a, b, 24, -8, x), 24 - 32 * t)
                        ex('mix', (a, b, t), a + (b - a) * t)
                    ex('lerp_smooth', (a, b, 0, 1), a, 4)
                    ex('lerp_smooth', (a, b, 1, 1), b + (a - b) / 2, 4); ex('lerp_smooth', (a, b, 4, 2), b + (a - b) / 4, 4); ex('lerp_smooth', (a, b, 3, Fr(1, 2)), b + (a - b) / 64, 4)
                    for md in (Fr(1, 4), Fr(1), Fr(5), Fr(1000)):
                        d = b - a
                        ex('move_towards', (a, b, md), b if abs(d) <= md else a + (md if d > 0 else -md))
                else:
                    for fn in ('unlerp', 'inverse_lerp'): q('same %s' % a, fn + '_safe', [pt(a), pt(a), f.rng(-9, 9)], ret(zz))
                    q('same %s' % a, 'normalize_safe', [f.rng(-9, 9), pt(a), pt(a)], ret(zz))
                    q('same %s' % a, 'remap_safe', [pt(a), pt(a), f.rng(3, 5), f.rng(-9, 9), f.rng(-9, 9)], A(2))
                    ex('move_towards', (a, a, 0), a)
        for y in ((1, 2, 3, 4), (0, 1, 0, 1), (5, -3, 8, 2), (Fr(1, 2), 4, -6, Fr(3, 4))):
            for t in (Fr(0), Fr(1), Fr(1, 2), Fr(1, 4), Fr(-1), Fr(2)):
                y0, y1, y2, y3 = map(Fr, y)
                a0 = y3 - y2 - y0 + y1
                ex('cubic', (y0, y1, y2, y3, t), a0 * t**3 + (y0 - y1 - a0) * t**2 + (y2 - y0) * t + y1)
        # ranges over boxes: clamping helpers never leave their interval
        for fn in ('normalize', 'normalize_safe'):
            for n, b in (('a', (f.rng(-100, 100), pt(-3), pt(5))), ('b', (f.rng(-100, 100), f.rng(-4, -3), f.rng(5, 6))), ('wide', (f.fin(), pt(0), pt(7)))): q(n, fn, list(b), ret(U01))
            q('below', fn, [f.rng(-100, -5), f.rng(-4, -3), f.rng(5, 6)], ret(zz)); q('above', fn, [f.rng(7, 100), f.rng(-4, -3), f.rng(5, 6)], ret(one))
        q('below', 'smoothstep', [f.rng(2, 3), f.rng(4, 5), f.rng(-100, 2)], ret(zz)); q('above', 'smoothstep', [f.rng(2, 3), f.rng(4, 5), f.rng(5, 100)], ret(one))
        q('falling', 'smoothstep', [f.rng(4, 5), f.rng(2, 3), f.rng(5, 100)], ret(zz)); q('falling2', 'smoothstep', [f.rng(4, 5), f.rng(2, 3), f.rng(-100, 2)], ret(one))
        for i in range(16): q('t%d' % i, 'smoothstep', [pt(0), pt(16), f.rng(mpf(i), mpf(i + 1))], ret([[0, f.enc(Fr(9, 8))], [f.sign, f.sign]]))
        # move_towards never overshoots
        q('reached', 'move_towards', [f.rng(1, 2), f.rng(2, 3), f.rng(3, 4)], A(1)); q('up', 'move_towards', [f.rng(0, 1), f.rng(8, 9), f.rng(1, 2)], ret(f.rng(1, 3))); q('down', 'move_towards', [f.rng(8, 9), f.rng(0, 1), f.rng(1, 2)], ret(f.rng(6, 8)))
        # repeat lands in [0, length), ping_pong in [0, length], angle differences in [-180, 180]
        lens = [Fr(1), Fr(3), Fr(360), Fr(1, 10), Fr(7, 1000)]
        vals = [Fr(0), Fr(1), Fr(-1), Fr(7, 2), Fr(-7, 2), Fr(359), Fr(361), Fr(-361), Fr(725), Fr(10) ** 6 + Fr(1, 3), -Fr(10) ** 6 - Fr(1, 3), Fr(10) ** 20, -Fr(10) ** 20, Fr(1, 10) ** 20, -Fr(1, 10) ** 20, Fr(2) ** f.emin, -Fr(2) ** f.emin, Fr(999999, 1000000) * 3, Fr(2) ** (P - 1) + 1, -Fr(2) ** P - 2]
        for L in lens:
            Lb = f.enc(L)
            for v in vals + [L, -L, 2 * L, -3 * L, 10 * L]:
                for sfx in ('', '_safe'):
                    q('%s,%s' % (hex(f.enc(v)), L), 'repeat' + sfx, [pt(v), [[Lb, Lb]]], ret([[0, f.prv(Lb)], [f.sign, f.sign]]))
                q('%s,%s' % (hex(f.enc(v)), L), 'ping_pong', [pt(v), [[Lb, Lb]]], ret([[0, f.nxt(Lb, 4)], [f.sign, f.sign]]))
                vb = f.frac(f.enc(v))
                if L.denominator == 1 and v.denominator <= 4 and abs(v) < 2000:
                    w = v - math.floor(v / L) * L
                    ex('repeat', (v, L), w, 4, max(abs(v), L))
                    ph = v - math.floor(v / (2 * L)) * 2 * L
                    ex('ping_pong', (v, L), L - abs(ph - L), 8, max(abs(v), L))
        for n in (-8, -1, 0, 1, 5):
            for sfx in ('', '_safe'): q('box%d' % n, 'repeat' + sfx, [f.rng(mpf(4 * n) + mpf('.25'), mpf(4 * n) + mpf('3.5')), pt(4)], ret(f.rng(mpf('.25'), mpf('3.5'))))
        q('zero length', 'repeat_safe', [f.nonnan(), zz], ret(zz)); q('zero length', 'ping_pong', [f.nonnan(), zz], ret(zz))
        R180 = [[0, f.enc(180)], [f.sign, f.sign | f.enc(180)]]
        ang = [Fr(x) for x in (0, 1, 10, 90, 179, 180, 181, 270, 359, 360, 361, 540, 720, -1, -90, -179, -180, -181, -359, -360, -720, Fr(1, 2), Fr(721, 2), 1000, -1000)]
        for a in ang:
            for b in ang:
                d = (b - a) - math.floor((b - a) / 360) * 360
                if d > 180: d -= 360
                ex('delta_angle', (a, b), d, 4, 2000)
                for sfx in ('', '_safe'): q('range %s,%s' % (a, b), 'delta_angle' + sfx, [pt(a), pt(b)], ret(R180))
                if abs(d) != 180 and abs(a) <= 360 and abs(b) <= 360:
                    for t in (Fr(0), Fr(1), Fr(1, 4)): ex('lerp_angle', (a, b, t), a + d * t, 4, 2000)
                    for md in (Fr(1), Fr(30), Fr(400)): ex('move_towards_angle', (a, b, md), a + d if abs(d) <= md else a + (md if d > 0 else -md), 4, 2000)
        for a, b in ((Fr(10) ** 10, Fr(1, 3)), (Fr(1, 3), -Fr(10) ** 10), (Fr(0), -Fr(1, 10) ** 20), (Fr(1, 10) ** 20, Fr(0)), (Fr(2) ** (P + 3), Fr(-1)), (-Fr(10) ** 30, Fr(7))):
            for sfx in ('', '_safe'): q('range %s,%s' % (a, b), 'delta_angle' + sfx, [pt(a), pt(b)], ret(R180))
        # degrees and radians
        k = mpf(180) / mpmath.pi
        for fn, m in (('degrees', k), ('radians', 1 / k)):
            q('0', fn, [f.pz()], ret(f.pz())); q('-0', fn, [f.nz()], ret(f.nz())); q('inf', fn, [f.pinf()], ret(f.pinf())); q('-inf', fn, [f.ninf()], ret(f.ninf()))
            for e in list(range(-60, 61, 3)) + ([-1000, -500, 500, 900] if c != 'f' else []):
                for s in (1, -1):
                    for nm, lo, hi in (('', mpf(1), mpf('1.25')), ('b', mpf('1.5'), mpf('1.5') + mpf(2) ** -20), ('c', mpf('1.75') + mpf(2) ** -18, mpf('1.75') + mpf(2) ** -18)):
                        lo, hi = mpmath.ldexp(lo, e), mpmath.ldexp(hi, e)
                        y0, y1 = lo * m * (1 - mpf(2) ** (3 - P)), hi * m * (1 + mpf(2) ** (3 - P))
                        q('2^%d%s%s' % (e, nm, '' if s > 0 else '-'), fn, [f.rng(lo, hi) if s > 0 else f.rng(-hi, -lo)], ret(f.out(y0, y1) if s > 0 else f.out(-y1, -y0)))
    d = F['d']
    mx = lambda id, fn, args, e: r.append(Q('%s(%s)' % (fn, id), 'w_' + fn, args, [e]))
    D = lambda v: [[d.enc(v)] * 2]
    I = lambda v: [[v & 0xffffffff] * 2]
    S = lambda v: [[F['f'].enc(v)] * 2]
    mx('1,1.5,2', 'clampmix_1', [I(1), D(1.5), D(2)], ret(D(1.5))); mx('5,1.5,2.5', 'clampmix_1', [I(5), D(1.5), D(2.5)], ret(D(2.5))); mx('16777217', 'clampmix_1', [I(16777217), D(0), D(1e9)], ret(D(16777217)))
    mx('1.5,1,2', 'clampmix_2', [D(1.5), I(1), I(2)], ret(D(1.5))); mx('.25,1,2', 'clampmix_2', [D(.25), I(1), I(2)], ret(D(1)))
    mx('.5f,.75+2^-40,2', 'clampmix_3', [S(.5), D(Fraction(3, 4) + Fraction(1, 2**40)), I(2)], ret(D(Fraction(3, 4) + Fraction(1, 2**40))))
    mx('1,2,.5', 'mixmix_1', [I(1), I(2), D(.5)], ret(D(1.5))); mx('0,10,.25', 'mixmix_1', [I(0), I(10), D(.25)], ret(D(2.5)))
    mx('1f,2+2^-40,1f', 'mixmix_2', [S(1), D(2 + Fraction(1, 2**40)), S(1)], ret(D(2 + Fraction(1, 2**40))))


def qs():
    r = []
    int_qs(r)
    flt_qs(r)
    seen, o = set(), []
    for x in r:
        if x['id'] not in seen: seen.add(x['id']); o.append(x)
    return o


def run():
    return std('P26', 'Integer helpers: whole blocks of arguments that share one exact answer, bit templates and every power of two; clamping helpers: the result stays in the stated interval over argument boxes; interpolation and angle helpers: exact or a few-ulp identities, and their documented ranges.', qs(), IMGS, [], drv=src())


if __name__ == '__main__': main(run)
