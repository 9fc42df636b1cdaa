"""P17 deterministic configuration: same arithmetic on every target. Call-graph closure plus comparison of the IR generated for different instruction sets."""
from effects import *
IMGS = ['det', 'gccdet']
# platform functions whose result ISO C / IEEE 754 fixes bit for bit
EXACT = set(x + s for x in 'ceil copysign fabs fdim floor fma fmax fmin fmod frexp ilogb ldexp llrint llround logb lrint lround modf nearbyint nextafter nexttoward remainder remquo rint round scalbln scalbn sqrt trunc'.split() for s in ('', 'f', 'l'))
ENV = {'fegetround', 'feraiseexcept', 'fetestexcept', '__errno_location', 'memcpy', 'memset', 'memmove', 'memcmp', 'abort', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__clang_call_terminate', '_ZSt9terminatev', '__divti3', '__udivti3', '__umodti3', '__modti3'}
EXINT = re.compile(r'llvm\.(fabs|copysign|sqrt|fma|floor|ceil|trunc|rint|nearbyint|round|roundeven|minnum|maxnum|minimum|maximum|ldexp|frexp|is\.fpclass|canonicalize|lround|llround|lrint|llrint)\.')
INEXINT = re.compile(r'llvm\.(sin|cos|tan|exp|exp2|exp10|log|log2|log10|pow|powi|fmuladd|sincos)\.')
TARGETS = {'fma+avx2': ('-mfma', '-mavx2'), 'skylake-avx512': ('-march=skylake-avx512',), 'sse4.1': ('-msse4.1',)}


def bodies(ll):
    """normalised text of every function body"""
    r, cur, name = {}, None, None
    for l in open(ll):
        if l.startswith('@') and not l.startswith(('@llvm', '@.str')):
            n = l.split(' = ')[0]
            r[n] = re.sub(r'(, )?!\w+ !\d+|, comdat', '', l)
        elif l.startswith('define '):
            name = re.search(r'@"?([^"(]+)"?\(', l).group(1)
            cur = [re.sub(r' (comdat|#\d+|!dbg !\d+|align \d+)', '', l[l.index('@'):])]
        elif l.startswith('}') and cur is not None: r[name] = ''.join(cur); cur = None
        elif cur is not None:
            if 'llvm.dbg' in l: continue
            cur.append(re.sub(r'(, )?!(dbg|srcloc|llvm\.loop|tbaa|tbaa\.struct|nosanitize) !\d+|,? ?#\d+(?=\s|,|$)', '', l))
    return r


def run():
    ck = Check('P17', 'With CCM_CONFIG_DETERMINISTIC every public function reaches only the library\'s own kernels, exactly specified platform functions and correctly rounded operations; no fast-math flag, contraction or reassociation; float and double functions (and pow of long double) do no 80-bit arithmetic; the code generated from every function is the same whatever instruction set is enabled.')
    drv = full_driver()
    engine_path()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        base = {im: ex.submit(compile_image, im, drv) for im in IMGS}
        alt = {(im, t): ex.submit(compile_image, im, drv, (), 'c++17', fl) for im in IMGS for t, fl in TARGETS.items()}
        base = {k: v.result() for k, v in base.items()}
        alt = {k: v.result() for k, v in alt.items()}
        fa = facts_all(IMGS)
    nb = 0
    for im, F_ in fa.items():
        seen = {}
        for e in F_.entries:
            for k in F_.reach(e): seen.setdefault(k, e)
        for k, e in seen.items():
            v = F_.f[k]
            if v['decl']:
                if k in EXACT or k in ENV: ck.ok(1, im + ' external'); continue
                for u in F_.users(k): ck.violation('%s:call:%s:%s' % (im, k, u), F_.path(u, k), '[%s] %s reaches the platform function %s, whose result is not fixed by a standard' % (IMAGE_TEXT[im], u, k))
                continue
            for a in v['fmf']: ck.violation('%s:fmf:%s' % (im, k), a[1], '[%s] fast-math flags "%s" on %s in %s' % (IMAGE_TEXT[im], a[0].strip(), a[2], v['dem']))
            for c, l, ar in v['calls']:
                if INEXINT.match(c): ck.violation('%s:%s:%s' % (im, c, k), l, '[%s] %s uses %s, whose result depends on the target' % (IMAGE_TEXT[im], v['dem'], c))
                else: ck.ok(1, im + ' call sites')
            for a in v['asm']:
                if a[0].strip(): ck.violation('%s:asm:%s' % (im, k), a[2], '[%s] inline assembly "%s"' % (IMAGE_TEXT[im], a[0]))
        for e in F_.entries:
            if (e.endswith('_l') and e != 'w_pow_l') or e == 'w_nexttoward_f' or e == 'w_nexttoward_d': continue
            bad = [(k, x) for k in F_.reach(e) for x in F_.f[k].get('x87', [])]
            if bad: ck.violation('%s:x87:%s' % (im, e), bad[0][1][1], '[%s] %s performs 80-bit arithmetic (%s): %s' % (IMAGE_TEXT[im], e, bad[0][1][0], F_.path(e, bad[0][0])))
            else: ck.ok(1, im + ' 80-bit freedom')
        b0 = bodies(base[im])
        nb += len(b0)
        for t in TARGETS:
            b1 = bodies(alt[im, t])
            for n in sorted(set(b0) | set(b1)):
                if b0.get(n) == b1.get(n): ck.ok(1, im + ' ' + t); continue
                at = n
                if n in F_.f: at = '%s (%s)' % (F_.f[n].get('at', n), F_.f[n]['dem'])
                if n not in seen and not n.startswith('@'): continue
                us = F_.users(n)[:3] if n in F_.f else []
                ck.violation('%s:%s:%s' % (im, t, n), at, '[%s] the code of %s differs between the baseline instruction set and %s (used by %s): results can differ between machines' % (IMAGE_TEXT[im], n, t, us))
    return ck.finish(functions=nb, targets=list(TARGETS), images={i: IMAGE_TEXT[i] for i in IMGS})


if __name__ == '__main__': main(run)
