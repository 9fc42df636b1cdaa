"""P15 calls share no mutable state: effect analysis over the call graph of every entry point."""
from effects import *
# Platform functions whose only effects are their result, errno and the floating-point flags (ISO C, thread-safe in glibc)
LIBM = set(x + s for x in 'acos asin atan atan2 cbrt ceil copysign cos exp exp2 expm1 fabs fdim floor fma fmax fmin fmod frexp hypot ilogb ldexp llrint llround log log10 log1p log2 logb lrint lround modf nearbyint nextafter nexttoward pow remainder remquo rint round scalbln scalbn sin sqrt tan tgamma trunc'.split() for s in ('', 'f', 'l'))
IMPURE = {'lgamma': 'writes the global signgam', 'lgammaf': 'writes the global signgam', 'lgammal': 'writes the global signgam'}
ENV = {'fegetround', 'feraiseexcept', 'fetestexcept', 'fegetenv', '__errno_location', 'memcpy', 'memset', 'memmove', 'memcmp', 'strlen', 'bcmp',
       '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt20__throw_length_errorPKc', '_ZSt16__throw_bad_castv', 'abort', '__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__clang_call_terminate', '_ZSt9terminatev', '_ZSt27__throw_bad_optional_accessv',
       'fesetround', 'feclearexcept', 'fesetenv', 'feholdexcept', 'feupdateenv', 'fesetexceptflag', 'fegetexceptflag', 'fesetexcept', 'feenableexcept', 'fedisableexcept', 'fegetexcept',
       'strtod', 'strtof', 'strtold', 'nan', 'nanf', 'nanl', '__addtf3', '__multf3', '__subtf3', '__divtf3', '__divti3', '__udivti3', '__umodti3', '__modti3', '__muloti4'}
IMGS = ['rt', 'ce', 'gcc', 'gccce', 'det', 'gccdet', 'gccnb']


def run():
    ck = Check('P15', 'No function reachable from the public API reads or writes a mutable global or thread-local object, runs a dynamic initialiser or a guarded local static, uses atomics, locks, allocation or I/O, contains inline assembly with an effect, or calls a platform function outside the pure math / environment list; stores go only to locals, caller-supplied out-pointers and errno.')
    nfn = ncall = nmem = 0
    for im, F_ in facts_all(IMGS).items():
        seen = {}
        for e in F_.entries:
            for k in F_.reach(e): seen.setdefault(k, e)
        bad = lambda key, where, what, k: ck.violation('%s:%s' % (im, key), where, '[%s] %s; reached by %s' % (IMAGE_TEXT[im], what, F_.path(seen[k], k)))
        for c in F_.ctors:
            if 'ios_base' not in c and 'ccm' in c: ck.violation('%s:ctor:%s' % (im, c), c, 'a dynamic initialiser runs before main')
        ck.ok(1, im + ' initialisers')
        for k, l in F_.errno_read:
            if k in seen: bad('errno:' + F_.f[k]['dem'].split('(')[0], l, 'the errno left by an earlier call influences the computation', k)
        ck.ok(1, im + ' errno reads')
        for k in seen:
            v = F_.f[k]
            nfn += 1
            if v['decl']:
                ncall += 1
                if k in IMPURE:
                    for e in F_.users(k): ck.violation('%s:call:%s:%s' % (im, k, e), F_.path(e, k), '[%s] calls the platform function %s, which %s: two threads calling it race' % (IMAGE_TEXT[im], k, IMPURE[k]))
                elif k not in LIBM and k not in ENV: bad('call:%s' % k, F_.path(seen[k], k), 'calls the external function %s (%s), whose effects are not limited to its result, errno and the floating-point flags' % (k, v['dem']), k)
                else: ck.ok(1, im)
                continue
            for a in v['asm']:
                if a[0].strip(): bad('asm:' + v['dem'], a[2], 'inline assembly "%s"' % a[0], k)
                else: ck.ok(1, im)
            for l in v['atomic']: bad('atomic:' + v['dem'], l, 'atomic memory access or fence (shared state)', k)
            for kind, roots, l, vol, *_ in v['mem']:
                nmem += 1
                ok = True
                for r in roots:
                    q, _, nm = r.partition(':')
                    if q == 'via': q, _, nm = nm.partition(':')
                    if q in ('local', 'arg', 'const', 'null') or (q == 'ret' and nm.startswith('__errno_location')): continue
                    if q == 'ret' or q == 'unknown': ck.undecided('%s: %s through a pointer of unknown origin (%s)' % (im, l, r)); ok = False; continue
                    bad('%s:%s' % (kind, nm), l, '%s the mutable %s object %s' % ('writes' if kind == 'w' else 'reads', 'thread-local' if q == 'tls' else 'global', F_.g.get(nm, {}).get('dem', nm)), k)
                    ok = False
                if ok: ck.ok(1, im)
            for c, l, ar in v['calls']:
                if c.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                    for r in ar[0] if isinstance(ar[0], list) else []:
                        if r.startswith(('global', 'tls', 'via:global', 'via:tls')): bad('memcpy:' + r, l, 'writes the mutable global object ' + r, k)
        ck.notes.append(im)
    return ck.finish(functions_analysed=nfn, external_functions=ncall, memory_accesses=nmem, images={i: IMAGE_TEXT[i] for i in IMGS})


if __name__ == '__main__': main(run)
