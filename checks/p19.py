"""P19 every overload is the same function: suffixed names, integer and mixed arguments agree with the overload of the promoted type."""
from lib import *
import re

SAME = '''
template<class T> __attribute__((always_inline)) constexpr int ccv_same(T a, T b) {
  if constexpr (__is_same(T,float)||__is_same(T,double)||__is_same(T,long double)) { if (a != a || b != b) return a != a && b != b; return a == b && __builtin_signbit(a) == __builtin_signbit(b); }
  else return a == b;
}
'''
D, S, L = 'double', 'float', 'long double'
INTS = {'int': (32, 1), 'long': (64, 1), 'unsigned char': (8, 0), 'unsigned long': (64, 0), 'bool': (1, 0), 'short': (16, 1), 'unsigned': (32, 0), 'signed char': (8, 1), 'long long': (64, 1)}
RANK = {S: 0, D: 1, L: 2}
FC = {S: 'f', D: 'd', L: 'l'}
SH = lambda t: t.replace('unsigned ', 'u').replace('unsigned', 'u').replace('signed ', 's').replace('long long', 'll').replace('long double', 'ld').replace(' ', '')


def prom(*ts): return max(((D if t in INTS else t) for t in ts), key=lambda t: RANK[t])


def common(*ts):  # std::common_type_t
    fl = [t for t in ts if t in RANK]
    if fl: return max(fl, key=lambda t: RANK[t])
    return None


class W:
    """one wrapper: w_NAME(params) returns 1 iff both calls agree; the static_assert pins the result type"""
    def __init__(s, name, params, body, ty=None, expr=None, ab=None):
        s.name, s.params = name, params
        rt, a, b = ab
        s.ab = [(rt + ' %s_' + name + '(' + ', '.join(['%s %s' % (t, n) for n, t in zip('xyz', params)] + (['void *o'])) + ') { ' + e + ' }') for e in (a, b)]
        ps = ', '.join('%s %s' % (t, n) for n, t in zip('xyz', params))
        sa = 'static_assert(__is_same(decltype(%s), %s), "TYPE of %s is not %s");' % (expr, ty, expr, ty) if ty else ''
        s.src = 'extern "C" int w_%s(%s) { %s %s }' % (name, ps, sa, body)


def pair(name, params, a, b, ty): return W(name, params, 'return ccv_same<%s>(%s, %s);' % (ty, a, b), ty, a, (ty, 'return %s;' % a, 'return %s;' % b))


def wrappers():
    o = []
    cast = lambda t, v: 'static_cast<%s>(%s)' % (t, v)
    # ---- suffixed names
    for sfx, T in (('f', S), ('l', L)):
        for fn in UN:
            if fn == 'gamma': continue  # tgammaf, tgammal below
            o.append(pair('%s%s' % (fn, sfx), [T], 'ccm::%s%s(x)' % (fn, sfx), 'ccm::%s(x)' % fn, T))
        o.append(pair('tgamma' + sfx, [T], 'ccm::tgamma%s(x)' % sfx, 'ccm::gamma(x)', T))
        for fn in BI:
            if fn == 'fmin': continue  # no suffixed fmin
            o.append(pair('%s%s' % (fn, sfx), [T, T], 'ccm::%s%s(x, y)' % (fn, sfx), 'ccm::%s(x, y)' % fn, T))
        o.append(pair('fma' + sfx, [T, T, T], 'ccm::fma%s(x, y, z)' % sfx, 'ccm::fma(x, y, z)', T))
        for fn, E in (('ldexp', 'int'), ('scalbn', 'int'), ('scalbln', 'long')):
            o.append(pair(fn + sfx, [T, E], 'ccm::%s%s(x, y)' % (fn, sfx), 'ccm::%s(x, y)' % fn, T))
        o.append(W('ilogb' + sfx, [T], 'return ccm::ilogb%s(x) == ccm::ilogb(x);' % sfx, ab=('int', 'return ccm::ilogb%s(x);' % sfx, 'return ccm::ilogb(x);')))
        o.append(pair('nexttoward' + sfx, [T, L], 'ccm::nexttoward%s(x, y)' % sfx, 'ccm::nexttoward(x, y)', T))
        o.append(W('frexp' + sfx, [T], 'int a = 0, b = 0; %s r = ccm::frexp%s(x, &a), q = ccm::frexp(x, &b); return ccv_same<%s>(r, q) && a == b;' % (T, sfx, T), T, 'ccm::frexp%s(x, static_cast<int *>(nullptr))' % sfx, (T, 'return ccm::frexp%s(x, (int *)o);' % sfx, 'return ccm::frexp(x, (int *)o);')))
        o.append(W('modf' + sfx, [T], '%s a = 0, b = 0; %s r = ccm::modf%s(x, &a), q = ccm::modf(x, &b); return ccv_same<%s>(r, q) && ccv_same<%s>(a, b);' % (T, T, sfx, T, T), ab=(T, 'return ccm::modf%s(x, (%s *)o);' % (sfx, T), 'return ccm::modf(x, (%s *)o);' % T)))
        o.append(W('remquo' + sfx, [T, T], 'int a = 0, b = 0; %s r = ccm::remquo%s(x, y, &a), q = ccm::remquo(x, y, &b); return ccv_same<%s>(r, q) && a == b;' % (T, sfx, T), ab=(T, 'return ccm::remquo%s(x, y, (int *)o);' % sfx, 'return ccm::remquo(x, y, (int *)o);')))
        o.append(pair('fabs_abs' + sfx, [T], 'ccm::abs(x)', 'ccm::fabs(x)', T))
    o.append(pair('tgamma', [D], 'ccm::tgamma(x)', 'ccm::gamma(x)', D))
    o.append(pair('fabs_abs', [D], 'ccm::abs(x)', 'ccm::fabs(x)', D))
    for T in (S, D, L):
        o.append(W('frexpref_' + SH(T), [T], 'int a = 0, b = 0; %s r = ccm::frexp(x, a), q = ccm::frexp(x, &b); return ccv_same<%s>(r, q) && a == b;' % (T, T), ab=(T, 'return ccm::frexp(x, *(int *)o);', 'return ccm::frexp(x, (int *)o);')))
        o.append(W('scalblong_' + SH(T), [T, 'long'], 'return ccv_same<%s>(ccm::scalbn(x, y), ccm::scalbln(x, y));' % T, ab=(T, 'return ccm::scalbn(x, y);', 'return ccm::scalbln(x, y);')))
        for fn in ('max', 'min'): o.append(pair('f%s_%s_%s' % (fn, fn, SH(T)), [T, T], 'ccm::f%s(x, y)' % fn, 'ccm::%s(x, y)' % fn, T))
    # ---- integers
    for t in INTS:
        for fn in UN:
            if fn in ('cbrt', 'logb', 'nextup', 'nextdown'): continue  # no integer overload
            o.append(pair('%s_%s' % (fn, SH(t)), [t], 'ccm::%s(x)' % fn, 'ccm::%s(%s)' % (fn, cast(D, 'x')), D))
        o.append(pair('tgamma_%s' % SH(t), [t], 'ccm::tgamma(x)', 'ccm::gamma(%s)' % cast(D, 'x'), D))
        for fn in ('isnan', 'isinf', 'isfinite', 'isnormal', 'signbit'):
            if t == 'bool' and fn == 'x': continue
            o.append(W('%s_%s' % (fn, SH(t)), [t], 'return (int)ccm::%s(x) == (int)ccm::%s(%s);' % (fn, fn, cast(D, 'x')), ab=('int', 'return (int)ccm::%s(x);' % fn, 'return (int)ccm::%s(%s);' % (fn, cast(D, 'x')))))
        for fn, E in (('ldexp', 'int'), ('scalbn', 'int'), ('scalbln', 'long')):
            o.append(pair('%s_%s' % (fn, SH(t)), [t, E], 'ccm::%s(x, y)' % fn, 'ccm::%s(%s, y)' % (fn, cast(D, 'x')), D))
        o.append(pair('nexttoward_%s' % SH(t), [t, L], 'ccm::nexttoward(x, y)', 'ccm::nexttoward(%s, y)' % cast(D, 'x'), D))
    PAIRS = [('int', 'int'), (S, D), (D, S), (D, 'int'), ('int', D), ('int', S), (S, 'int'), (S, L), (L, S), (D, L), (L, 'int'), ('int', L), ('long', 'unsigned char'), ('long', S), (S, 'long'), ('unsigned', 'unsigned'), ('unsigned long', D), ('long', 'long'), ('unsigned', 'int'), ('bool', 'bool'), ('long long', 'long')]
    ONLY = {'fdim': [('int', 'int'), (S, D), (D, S), (S, L), (L, S), (D, L), ('unsigned', 'unsigned'), ('long', 'long')], 'copysign': [('int', 'int'), ('unsigned', 'unsigned'), ('long', 'long')], 'remainder': [('int', 'int'), ('unsigned', 'unsigned'), ('long', 'long')], 'hypot': [], 'atan2': []}
    for fn in BI:
        for a, b in ONLY.get(fn, PAIRS):
            P = prom(a, b)
            o.append(pair('%s_%s_%s' % (fn, SH(a), SH(b)), [a, b], 'ccm::%s(x, y)' % fn, 'ccm::%s(%s, %s)' % (fn, cast(P, 'x'), cast(P, 'y')), P))
    for a, b in PAIRS:
        P = prom(a, b)
        o.append(W('remquo_%s_%s' % (SH(a), SH(b)), [a, b], 'int p = 0, q = 0; auto r = ccm::remquo(x, y, &p); %s s = ccm::remquo(%s, %s, &q); return ccv_same<%s>(r, s) && p == q;' % (P, cast(P, 'x'), cast(P, 'y'), P), P, 'ccm::remquo(x, y, static_cast<int *>(nullptr))', (P, 'return ccm::remquo(x, y, (int *)o);', 'return ccm::remquo(%s, %s, (int *)o);' % (cast(P, 'x'), cast(P, 'y')))))
        for fn in CMP:
            e2 = 'ccm::%s(%s, %s)' % (fn, cast(P, 'x'), cast(P, 'y'))
            o.append(W('%s_%s_%s' % (fn, SH(a), SH(b)), [a, b], 'return (int)ccm::%s(x, y) == (int)%s;' % (fn, e2), ab=('int', 'return (int)ccm::%s(x, y);' % fn, 'return (int)%s;' % e2)))
        C = common(a, b)
        if C:
            for fn in ('max', 'min'):
                o.append(pair('%s_%s_%s' % (fn, SH(a), SH(b)), [a, b], 'ccm::%s(x, y)' % fn, 'ccm::%s(%s, %s)' % (fn, cast(C, 'x'), cast(C, 'y')), C))
    for a, b, c in (('int', 'int', 'int'), (S, D, S), (D, S, S), (S, S, D), ('int', D, S), (S, 'int', S), ('long', S, 'long'), ('int', 'long', 'int'), (S, L, 'int'), (D, D, 'int'), (S, S, 'int'), ('long', 'long', 'long'), ('unsigned', 'unsigned', 'unsigned')):
        P = prom(a, b, c)
        o.append(pair('fma_%s_%s_%s' % (SH(a), SH(b), SH(c)), [a, b, c], 'ccm::fma(x, y, z)', 'ccm::fma(%s, %s, %s)' % (cast(P, 'x'), cast(P, 'y'), cast(P, 'z')), P))
        C = common(a, b, c)
        if C: o.append(pair('lerp_%s_%s_%s' % (SH(a), SH(b), SH(c)), [a, b, c], 'ccm::lerp(x, y, z)', 'ccm::lerp(%s, %s, %s)' % (cast(C, 'x'), cast(C, 'y'), cast(C, 'z')), C))
    return o


def pts(t, n):
    """points where a narrower or wider computation shows: halfway and extreme integers, full significands of every format, edges"""
    if t in INTS:
        w, sg = INTS[t]
        m = (1 << w) - 1
        v = [0, 1, 2, 3, 5, 7, 10, 100, 171]
        v += [-1, -2, -3, -7] if sg else []
        for k in (23, 24, 25, 31, 52, 53, 62, 63): v += [(1 << k) + 1, (1 << k) - 1, (1 << k) + (1 << max(0, k - 24)) + 1]
        if sg: v += [-(1 << (w - 1)), (1 << (w - 1)) - 1, -(1 << 24) - 1, -(1 << 53) - 1]
        else: v += [m, m >> 1]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, m)
        if t == 'bool': v = [0, 1]
        r = []
        for x in v:
            if lo <= x <= hi and (x & m) not in r: r.append(x & m)
        return r
    f = F[FC[t]]
    r = [0, f.sign, f.inf, f.sign | f.inf, f.enc(1), f.enc(-1), f.enc(Fraction(1, 2)), f.enc(2), f.enc(-2), f.enc(Fraction(1, 3)), f.enc(Fraction(-7, 10)), f.enc(Fraction(22, 7)), f.enc(Fraction(-5, 2)), f.enc(Fraction(31, 10)), f.enc(10), f.enc(Fraction(1001, 10)), f.enc(2**24 + 1), f.enc(2**53 + 1), f.enc(-2**63 - 1), f.enc(Fraction(10)**30), f.enc(Fraction(10)**-30), f.minnorm, f.maxb, 1, f.sign | 1, f.maxsub, f.inf | (1 << (f.p - 2)), f.enc(Fraction(6, 5) + Fraction(1, 1 << 70)), f.prv(f.enc(1)), f.nxt(f.enc(1)), f.prv(f.enc(4))]
    if t == L: r += [f.enc(Fraction(10)**400), f.enc(-Fraction(10)**400), f.enc(Fraction(10)**-400), f.enc(1 + Fraction(1, 1 << 60)), f.enc(Fraction(10)**60)]
    out = []
    for x in r:
        if x not in out: out.append(x)
    return out[:n] if n else out


def full(t):
    if t in INTS: return [[0, (1 << INTS[t][0]) - 1]]
    return F[FC[t]].all()


def queries(ws):
    r = []
    for w in ws:
        fn = 'w_' + w.name
        E = [ret([[1, 1]])]
        r.append(Q(w.name + '(all)', fn, [full(t) for t in w.params], E, budget=4))
        if len(w.params) == 1: A = [(p,) for p in pts(w.params[0], 0)]
        elif len(w.params) == 2:
            p, q = pts(w.params[0], 0), pts(w.params[1], 0)
            if w.params[1] in ('int', 'long') and w.name.split('_')[0].rstrip('fl') in ('ldexp', 'sca', 'scalbn', 'scalb', 'scalbln', 'scalblong', 'dexp'): q = [v & ((1 << INTS[w.params[1]][0]) - 1) for v in (0, 1, -1, 5, -5, 100, -100, 127, 128, -126, -149, 1023, -1074, 16383, -16445, 40000, -40000, 2**31 - 1, -2**31)] + ([2**31, 2**32 + 1, 2**62, 2**64 - 2**32 - 1] if w.params[1] == 'long' else [])
            if TIER != 'thorough': A = [(x, y) for i, x in enumerate(p) for j, y in enumerate(q) if (i * 7 + j * 3) % 11 == 0 or (i < 4 and j < 4)]
            else: A = [(x, y) for x in p for y in q]
        else:
            p, q, s = (pts(t, 0) for t in w.params)
            A = [(x, y, z) for i, x in enumerate(p) for j, y in enumerate(q) for k, z in enumerate(s) if (i * 7 + j * 3 + k * 5) % 61 == 0 or (i < 3 and j < 3)]
        for k, a in enumerate(A): r.append(Q('%s(%s)' % (w.name, ','.join('%x' % v for v in a)), fn, [[[v, v]] for v in a], E))
    return r


HEAD = '#include <ccmath/ccmath.hpp>\n' + SAME


def build(im, ws, bad):
    """compile; a wrapper line the compiler rejects is a violation of its own"""
    ws = list(ws)
    for _ in range(4):
        src = HEAD + '\n'.join(w.src for w in ws) + '\n'
        n0 = HEAD.count('\n')
        try: return compile_image(im, src, extra=('-fno-math-errno', '-ferror-limit=0')), ws
        except CheckError as e:
            rest = []
            full_ = getattr(e, 'full', str(e))
            lines = {int(m) for m in re.findall(r'%s-[0-9a-f]+\.cpp:(\d+):\d+:' % im, full_)}
            msgs = [(int(k), m) for k, m in re.findall(r'\.cpp:(\d+):\d+: (?:error|note): (.*)', full_)]
            drop = {w.name for k, w in enumerate(ws) if n0 + k + 1 in lines}
            if not drop: raise
            for w in ws:
                if w.name in drop: bad.setdefault(w.name, (im, w.src, [m for k, m in msgs if k - n0 - 1 < len(ws) and ws[k - n0 - 1] is w]))
                else: rest.append(w)
            ws = rest
    raise CheckError('driver of %s does not compile' % im)



def bodies(ll, pre):
    """normalised text of every function of the optimised module whose name starts with one of pre"""
    s = open(ll).read()
    r = {}
    for m in re.finditer(r'^define ([^\n]*?)@([ab])_(\w+)\(([^\n]*)\{\n(.*?)^\}', s, re.M | re.S):
        body = '\n'.join(re.sub(r'(, !\w+ !\d+)+|, !srcloc.*| #\d+|;.*', '', l).rstrip() for l in m.group(5).split('\n'))
        head = m.group(1).replace('local_unnamed_addr', '').split() + re.sub(r' #\d+.*', '', m.group(4)).replace(' local_unnamed_addr', '').split()
        r[m.group(2), m.group(3)] = (tuple(head), body)
    return r


def proven(im, ws):
    """names whose two calls the optimiser compiles to the same code, or whose comparison it folds to true: equal for every argument"""
    src = HEAD + '\n'.join('extern "C" ' + t % p for w in ws for p, t in zip('ab', w.ab)) + '\n' + '\n'.join(w.src for w in ws) + '\n'
    ll = compile_image(im, src, extra=('-g0', '-fno-math-errno'), opt='-O2')
    B = bodies(ll, 'ab')
    r = {w.name for w in ws if ('a', w.name) in B and B.get(('a', w.name)) == B.get(('b', w.name))}
    s = open(ll).read()
    for m in re.finditer(r'^define [^\n]*@w_(\w+)\([^\n]*\{\n\s*ret i32 1\n\}', s, re.M): r.add(m.group(1))
    return r


def run():
    ck = Check('P19', 'Two overloads of one function are compared inside one wrapper: the engine must prove the results identical, or at least not refute it at the points where a narrower or wider computation shows; the result type is a static_assert on the wrapper.')
    ws = wrappers()
    names = [w.name for w in ws]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:5]
    engine_path()
    bad = {}
    imgs = ['rt', 'ce', 'gcc', 'gccce', 'det'] if TIER != 'thorough' else ['rt', 'ce', 'gcc', 'gccce', 'det', 'gccdet']
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {im: ex.submit(build, im, ws, bad) for im in imgs}
        got = {im: f.result() for im, f in futs.items()}
        pr = {im: ex.submit(proven, im, ok) for im, (ll, ok) in got.items()}
        pr = {im: f.result() for im, f in pr.items()}
    for n, (im, src, err) in bad.items():
        ck.obl += 1
        ck.violation('compile:' + n, n, 'the overload is rejected by the compiler or has another result type: %s | %s' % (src[:300], ' / '.join(err)[:400]))
    for im, (ll, ok) in got.items():
        ck.ok(len(pr[im]), 'proved identical by the optimiser on ' + im)
        left = [w for w in ok if w.name not in pr[im]]
        ck.notes.append('%s: %d of %d pairs proved identical for every argument; the rest at points: %s' % (im, len(pr[im]), len(ok), ' '.join(w.name for w in left)))
        qs = queries(left)
        if not qs: continue
        ck.add(im, run_queries(ll, qs, im), qs)
        ck.ok(len(ok), 'result types')
    for n in ck.notes: print('  ' + n[:2000]) if os.environ.get('P19_NOTES') else None
    return ck.finish(notes=ck.notes, overload_pairs=len(ws), images={i: IMAGE_TEXT[i] for i in imgs})


if __name__ == '__main__': main(run)
