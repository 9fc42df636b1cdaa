"""P16 usable in constant expressions: reachability on the constant-evaluation images, and compile witnesses evaluated by both compilers' constant evaluators."""
from effects import *
import random
FIMGS = ['ce', 'gccce']
# builtins gcc folds in constant expressions
FOLD = set(x + s for x in 'acos asin atan atan2 cbrt ceil copysign cos exp exp2 expm1 fabs fdim floor fma fmax fmin fmod frexp hypot ilogb ldexp lgamma log log10 log1p log2 logb modf nearbyint nextafter nexttoward pow remainder remquo rint round scalbln scalbn sin sqrt tan tgamma trunc'.split() for s in ('', 'f', 'l'))
THROW = {'_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt21__glibcxx_assert_failPKciS0_S0_', 'abort', '_ZSt9terminatev', '__clang_call_terminate'}
OKX = {'memcpy', 'memset', 'memmove', 'memcmp', 'strlen', '__divti3', '__udivti3', '__umodti3', '__modti3', '__muloti4'}


def lit(c, x):
    """an exact literal of the format value"""
    f = F[c]
    b = f.enc(x)
    v = f.frac(b)
    if v == 0: return '-0.0' + {'f': 'f', 'd': '', 'l': 'L'}[c] if b & f.sign else '0.0' + {'f': 'f', 'd': '', 'l': 'L'}[c]
    s = '-' if v < 0 else ''
    v = abs(v)
    e = 0
    n, d = v.numerator, v.denominator
    k = d.bit_length() - 1
    z = (n & -n).bit_length() - 1
    n >>= z
    k -= z
    return '%s0x%xp%d%s' % (s, n, -k, {'f': 'f', 'd': '', 'l': 'L'}[c])


MPF = {'exp': mpmath.exp, 'exp2': lambda x: mpf(2) ** x, 'expm1': mpmath.expm1, 'log': mpmath.log, 'log10': mpmath.log10, 'log1p': lambda x: mpmath.log(1 + x), 'log2': lambda x: mpmath.log(x) / mpmath.log(2), 'sqrt': mpmath.sqrt, 'cbrt': lambda x: mpmath.sign(x) * mpmath.cbrt(abs(x)), 'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'asin': mpmath.asin, 'acos': mpmath.acos, 'atan': mpmath.atan, 'gamma': mpmath.gamma, 'lgamma': mpmath.loggamma}


def args(c, rnd, n):
    """ordinary finite values: short and full significands over the whole exponent range"""
    f = F[c]
    r = [Fraction(x) for x in (0, 1, -1, 2, -2, 3, -3, 5, 7, 10, 17, 100, -100, 170, -170)] + [Fraction(x) for x in (.5, -.5, .25, 1.5, -1.5, 2.5, -2.5, .1, -.1, .3, .7, .75, .999, 1.001, 33.25, -33.25, 88.5, -87.25, 700.5, -700.5, 1e-3, 1e-5, -1e-5, 1e-10, 1e10, -1e10, 123456.789, 1e-30, 1e30)]
    for i in range(n):
        e = rnd.choice((rnd.randint(-6, 6), rnd.randint(-40, 40), rnd.randint(f.emin, f.emax)))
        v = Fraction(rnd.getrandbits(f.p) | 1 << (f.p - 1), 1 << (f.p - 1)) * Fraction(2) ** e
        r.append(v if rnd.random() < .5 else -v)
    return r


def ordinary(c, y):
    f = F[c]
    if not isinstance(y, mpf) or not mpmath.isfinite(y): return False
    a = abs(y)
    return a == 0 or mpf(2) ** (f.emin + 1) <= a <= f.dec(f.maxb)


def witnesses(c):
    rnd = random.Random(20260101)
    n = 400 if TIER == 'thorough' else 70
    f = F[c]
    A = args(c, rnd, n)
    o = []
    T = f.name
    add = lambda e: o.append(e)
    M = lambda v: mpf(v.numerator) / v.denominator
    for fn in UN:
        for v in A:
            v = f.frac(f.enc(v))
            x = M(v)
            if fn in MPF:
                if fn in ('sin', 'cos', 'tan') and abs(x) > 1e300: continue
                if fn in ('gamma', 'lgamma') and (x <= 0 and x == mpmath.floor(x) or abs(x) > 1e300): continue
                if fn.startswith('exp') and abs(x) > 2 * f.emax: continue
                if fn == 'gamma' and (x > 1760 or x < -1760 or (c == 'l' and not -170 < x < 170)): continue
                if fn in ('gamma', 'lgamma') and c == 'l' and abs(x) < mpf(10) ** -300: continue
                if fn == 'lgamma' and c == 'l' and abs(x) > 1e100: continue
                if fn in ('asin', 'acos') and abs(x) > 1: continue
                if fn.startswith('log') and (x <= -1 if fn == 'log1p' else x <= 0): continue
                try: y = MPF[fn](x) if fn != 'lgamma' else mpmath.re(mpmath.loggamma(x))
                except (ValueError, ZeroDivisionError, OverflowError): continue
                if not ordinary(c, y): continue
            elif fn in ('logb', 'nextup', 'nextdown') and x == 0: continue
            add('ccm::%s(%s)' % (fn, lit(c, v)))
    for fn in CLS:
        for v in A:
            if fn == 'ilogb' and v == 0: continue
            add('ccm::%s(%s)' % (fn, lit(c, v)))
    P = [(A[i], A[j]) for i, j in ((rnd.randrange(len(A)), rnd.randrange(len(A))) for _ in range(3 * n))] + [(Fraction(a), Fraction(b)) for a in (2, .5, 1.5, 10, 7) for b in (0, 1, -1, 2, 3, .5, -2.5, 10, 30)] + [(Fraction(a), Fraction(b)) for a in (-2, -.5, -3) for b in (0, 1, -1, 2, 3, 10, 30, -7)]
    for fn in BI + CMP:
        for a, b in P:
            a, b = f.frac(f.enc(a)), f.frac(f.enc(b))
            x, y = M(a), M(b)
            if fn in ('fmod', 'remainder') and y == 0: continue
            if fn in ('fmod', 'remainder') and x and abs(mpmath.log(abs(x) / abs(y), 2)) > 2000: continue
            if fn == 'pow':
                if x == 0 or (x < 0 and y != mpmath.floor(y)) or abs(y * mpmath.log(abs(x), 2)) > f.emax - 2: continue
            if fn == 'hypot' and not ordinary(c, mpmath.hypot(x, y)): continue
            if fn == 'nextafter' and x == 0: continue
            if fn == 'fdim' and not ordinary(c, x - y): continue
            if fn == 'atan2' and (x == 0 or y == 0 or not ordinary(c, x / y) or not ordinary(c, mpmath.atan2(x, y))): continue
            add('ccm::%s(%s, %s)' % (fn, lit(c, a), lit(c, b)))
    for _ in range(2 * n):
        a, b, d = (f.frac(f.enc(rnd.choice(A))) for _ in range(3))
        x, y, z = M(a), M(b), M(d)
        if ordinary(c, x * y) and ordinary(c, x * y + z): add('ccm::fma(%s, %s, %s)' % (lit(c, a), lit(c, b), lit(c, d)))
        t = Fraction(rnd.randint(0, 64), 64)
        if ordinary(c, x - y) and all(abs(v) < 1e30 for v in (x, y)): add('ccm::lerp(%s, %s, %s)' % (lit(c, a), lit(c, b), lit(c, t)))
    for v in A:
        if v == 0: continue
        v = f.frac(f.enc(v))
        for e in (0, 1, -1, rnd.randint(-30, 30), rnd.randint(f.emin, f.emax)):
            if not ordinary(c, mpmath.ldexp(M(v), e)): continue
            for fn in ('ldexp', 'scalbn', 'scalbln'): add('ccm::%s(%s, %d)' % (fn, lit(c, v), e))
        add('[]{int e=0; auto r=ccm::frexp(%s,&e); return r;}()' % lit(c, v))
        add('[]{%s e=0; auto r=ccm::modf(%s,&e); return r;}()' % (T, lit(c, v)))
    for a, b in P:
        if b and abs(mpmath.log(abs(M(a) or 1) / abs(M(b)), 2)) < 30: add('[]{int e=0; auto r=ccm::remquo(%s,%s,&e); return r;}()' % (lit(c, a), lit(c, b)))
    return o


def extremes(c):
    """infinities, zeros, the ends of the range: poles, overflow and underflow (invalid operations and NaN operands left out)"""
    f = F[c]
    s = {'f': 'f', 'd': '', 'l': 'L'}[c]
    L = 'std::numeric_limits<%s>::' % f.name
    inf, mx, mn, nm = L + 'infinity()', L + 'max()', L + 'denorm_min()', L + 'min()'
    V = [inf, '-' + inf, mx, '-' + mx, mn, '-' + mn, nm, '-' + nm, '0.0' + s, '-0.0' + s, '1.0' + s, '-1.0' + s, '2.5' + s, '-2.5' + s, '-2.0' + s]
    big = {inf, '-' + inf, mx, '-' + mx}
    neg = {v for v in V if v[0] == '-'} - {'-0.0' + s}
    zero = {'0.0' + s, '-0.0' + s}
    unit = {mn, nm, '-' + mn, '-' + nm, *zero, '1.0' + s, '-1.0' + s}
    o = []
    for fn in UN:
        for v in V:
            if fn in ('asin', 'acos') and v not in unit: continue
            if fn in ('sin', 'cos', 'tan') and (v in big if c == 'l' else v in (inf, '-' + inf)): continue
            if fn in ('log', 'log2', 'log10', 'sqrt') and v in neg: continue
            if fn == 'log1p' and v in (neg - {'-' + mn, '-' + nm, '-1.0' + s}): continue
            if fn == 'gamma' and (v in (neg - {'-2.5' + s, '-' + mn, '-' + nm}) or c == 'l' and v in (mn, nm, mx, '-' + mn, '-' + nm)): continue
            if fn == 'lgamma' and c == 'l' and v in (mn, nm, mx, '-' + mn, '-' + nm, '-' + mx): continue
            o.append('ccm::%s(%s)' % (fn, v))
    for fn in CLS:
        for v in V: o.append('ccm::%s(%s)' % (fn, v))
    for fn in BI + CMP:
        for a in V:
            for b in V:
                if fn in ('fmod', 'remainder') and (a in (inf, '-' + inf) or b in zero): continue
                if fn == 'pow' and a in neg and b in {'2.5' + s, '-2.5' + s, mn, '-' + mn, nm, '-' + nm}: continue
                if fn == 'fdim' and a == b and inf in a: continue
                o.append('ccm::%s(%s, %s)' % (fn, a, b))
    for v in V:
        for e in (0, 1, -1, 40000, -40000, 100, -100, 2147483647, -2147483647):
            for fn in ('ldexp', 'scalbn', 'scalbln'): o.append('ccm::%s(%s, %d)' % (fn, v, e))
        o.append('[]{int e=0; auto r=ccm::frexp(%s,&e); return r;}()' % v)
        o.append('[]{%s e=0; auto r=ccm::modf(%s,&e); return r;}()' % (f.name, v))
        for b in V:
            if v not in (inf, '-' + inf) and b not in zero: o.append('[]{int e=0; auto r=ccm::remquo(%s,%s,&e); return r;}()' % (v, b))
            if not (v in zero and inf in b or b in zero and inf in v): o.append('ccm::fma(%s,%s,1.0%s)' % (v, b, s))
    return o


def compile_wit(comp, c, ws, part=0):
    w = work()
    src = os.path.join(w, 'wit%d-%s-%s.cpp' % (part, comp, c))
    lines = ['#include <ccmath/ccmath.hpp>'] + ['constexpr auto v%d = %s;' % (i, e) for i, e in enumerate(ws)]
    open(src, 'w').write('\n'.join(lines) + '\n')
    std_ = '-std=c++17'
    if comp == 'clang': cmd = ['clang++', std_, '-fsyntax-only', '-w', '-ferror-limit=0', '-fconstexpr-steps=100000000', '-fno-color-diagnostics', '-I', INC, src]
    else: cmd = ['g++', std_, '-fsyntax-only', '-w', '-fmax-errors=0', '-fconstexpr-ops-limit=2000000000', '-fconstexpr-loop-limit=10000000', '-I', INC, src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    bad = {}
    if r.returncode:
        cur = None
        for l in r.stderr.split('\n'):
            m = re.match(r'.*wit\d+-\w+-\w\.cpp:(\d+):', l)
            if m and ('error:' in l or 'required from' in l or 'in ‘constexpr’ expansion' in l or 'expansion of' in l): cur = int(m.group(1)) - 2
            if m and 'error:' in l: bad.setdefault(cur, []).append(l.split('error:')[1].strip())
            elif cur is not None and cur >= 0: bad.setdefault(cur, []).append(l.strip()) if ('include/ccmath' in l or 'error:' in l) else None
        bad = {k: v for k, v in bad.items() if k is not None and k >= 0}
        if not bad: raise CheckError('%s witnesses fail to compile outside a witness: %s' % (comp, r.stderr[:1500]))
    return bad


def run():
    ck = Check('P16', 'On the constant-evaluation path no public function reaches a function without a body (other than builtins the compiler folds), inline assembly, errno, the floating-point environment or mutable storage; and both compilers\' constant evaluators accept every witness expression with ordinary finite arguments and result (a rejected expression names the offending construct).')
    with cf.ThreadPoolExecutor(JOBS) as ex:
        X = {('gcc', c): witnesses(c) for c in FS}
        X.update({('clang', c): X['gcc', c] + [x for x in extremes(c) if x not in set(X['gcc', c])] for c in FS})
        N = {'clang': 6, 'gcc': 2}
        fut = {(comp, c, k): ex.submit(compile_wit, comp, c, X[comp, c][k::N[comp]], k) for comp in ('clang', 'gcc') for c in FS for k in range(N[comp])}
        fa = facts_all(FIMGS)
        bad = {k: v.result() for k, v in fut.items()}
    for im, F_ in fa.items():
        seen = {}
        for e in F_.entries:
            for k in F_.reach(e): seen.setdefault(k, e)
        for k, e in seen.items():
            v = F_.f[k]
            if v['decl']:
                if k in THROW or k in OKX or (im == 'gccce' and k in FOLD): ck.ok(1, im + ' external'); continue
                for u in F_.users(k): ck.violation('%s:call:%s:%s' % (im, k, u), F_.path(u, k), '[%s] %s reaches %s, which is not usable in a constant expression' % (IMAGE_TEXT[im], u, k))
                continue
            for a in v['asm']: ck.violation('%s:asm:%s' % (im, k), a[2], '[%s] inline assembly on the constant-evaluation path of %s' % (IMAGE_TEXT[im], e))
            for l in v['indirect']: ck.undecided('%s indirect call %s' % (im, l))
            for kind, roots, l, *_ in v['mem']:
                b = [r for r in roots if r.split(':')[0] in ('global', 'tls') or r.startswith(('via:global', 'via:tls', 'ret:__errno'))]
                if b: ck.violation('%s:mem:%s' % (im, b[0]), l, '[%s] %s accesses mutable storage %s' % (IMAGE_TEXT[im], v['dem'], b[0]))
                else: ck.ok(1, im + ' memory accesses')
    for (comp, c, k), b in bad.items():
        ws = X[comp, c][k::N[comp]]
        ck.ok(len(ws) - len(b), '%s witnesses %s' % (comp, F[c].name))
        for i, msg in sorted(b.items()):
            fn = re.search(r'ccm::(\w+)', ws[i]).group(1)
            at = [re.search(r'(include/ccmath\S+?:\d+)', m) for m in msg]
            at = [m.group(1) for m in at if m]
            ck.violation('%s:%s_%s:%s' % (comp, fn, c, re.sub(r'\s', '', ws[i])), at[0] if at else 'ccm::' + fn, '%s rejects `constexpr auto v = %s;`: %s' % (comp, ws[i], ' | '.join(msg)[:500]))
    return ck.finish(witnesses={'%s %s' % k: len(v) for k, v in X.items()}, images={i: IMAGE_TEXT[i] for i in FIMGS})


if __name__ == '__main__': main(run)
