"""P20 every public header stands on its own, headers can be combined in any order, included in many translation units, and never change what a call means."""
from lib import *
import concurrent.futures as cf
import p26, itertools

CONFIG = {
    'clang17': ['clang++', '-std=c++17'], 'gcc17': ['g++', '-std=c++17'], 'clang20': ['clang++', '-std=c++20'], 'gcc20': ['g++', '-std=c++20'],
    'clang23': ['clang++', '-std=c++23'], 'gcc23': ['g++', '-std=c++23'],
    'clang17det': ['clang++', '-std=c++17', '-DCCM_CONFIG_DETERMINISTIC'], 'gcc17det': ['g++', '-std=c++17', '-DCCM_CONFIG_DETERMINISTIC'],
    'clang17lean': ['clang++', '-std=c++17', '-fno-exceptions', '-fno-rtti', '-DCCM_CONFIG_DISABLE_ERRNO'], 'gcc17lean': ['g++', '-std=c++17', '-fno-exceptions', '-fno-rtti', '-DCCM_CONFIG_DISABLE_ERRNO'],
    'clang17simd': ['clang++', '-std=c++17', '-DCCM_CONFIG_USE_RT_SIMD', '-mavx2', '-mfma'], 'gcc17simd': ['g++', '-std=c++17', '-DCCM_CONFIG_USE_RT_SIMD', '-mavx2', '-mfma'],
}
EACH = ['clang17', 'gcc17', 'clang23'] if TIER == 'quick' else list(CONFIG)
SUF = {'f': 'f', 'd': '', 'l': 'l'}


def headers():
    r = ['ccmath/ccmath.hpp']
    for d in ('math', 'ext'):
        for root, dirs, files in os.walk(os.path.join(INC, 'ccmath', d)):
            dirs[:] = [x for x in dirs if x != 'impl' and x != 'internal']
            r += [os.path.relpath(os.path.join(root, f), INC) for f in files if f.endswith('.hpp')]
    return sorted(r)


def syntax(job):
    label, cfg, text = job
    r = subprocess.run(CONFIG[cfg] + ['-w', '-I', INC, '-fsyntax-only', '-x', 'c++', '-'], input=text, capture_output=True, text=True)
    if r.returncode == 0: return None
    m = [l for l in r.stderr.splitlines() if 'error:' in l]
    if not m: raise CheckError('%s: compiler failed: %s' % (label, r.stderr[-400:]))
    return m[0]


def emit(job):
    name, text, flags = job
    src = os.path.join(work(), name + '.cpp')
    out = src[:-4] + '.ll'
    open(src, 'w').write(text)
    r = subprocess.run(['clang++', '-std=c++17', '-O0', '-fno-exceptions', '-w', '-I', INC, '-include', os.path.join(work(), 'pre.hpp'), *flags, '-S', '-emit-llvm', src, '-o', out], capture_output=True, text=True)
    if r.returncode: return name, None, [l for l in r.stderr.splitlines() if 'error:' in l][:1]
    t = open(out).read()
    os.unlink(out)
    return name, t, None


def parse(t):
    """functions and constants of a module as text that does not depend on the numbering of attributes and private constants"""
    consts = {}
    def norm(s):
        s = re.sub(r'#\d+|, !srcloc !\d+|, !llvm\.loop !\d+|![\w.]+ !\d+', '', s)
        s = re.sub(r'%("?)((?:class|struct|union)\.[^"\s,()*{}]*?)\.\d+("?)(?=[\s,()*{}])', r'%\1\2\3', s)
        return s
    fns, glob = {}, {}
    for m in re.finditer(r'^(@\S+) = (.*)$', t, re.M):
        n, body = m.group(1), m.group(2)
        if ' private ' in ' ' + body or re.match(r'internal ', body): consts[n] = norm(re.sub(r', (comdat|align \d+).*', '', body))
        else: glob[n] = body
    def sub(s):
        def r(m):
            n = m.group(0)
            return '@{%s}' % hashlib.sha1(consts[n].encode()).hexdigest()[:12] if n in consts else n
        return re.sub(r'@[\w.$]+|@"[^"]+"', r, s)
    for n in list(consts): consts[n] = re.sub(r'@[\w.$]+', lambda m: '@{c}' if m.group(0) in consts else m.group(0), consts[n])
    for m in re.finditer(r'^define ([^@\n]*)(@[\w.$]+|@"[^"]+")(\([^\n]*)\{\n(.*?)^\}', t, re.M | re.S):
        fns[m.group(2)[1:].strip('"')] = (m.group(1), sub(norm(m.group(3) + m.group(4))))
    return fns, glob


def nice(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.splitlines()
    return dict(zip(names, r))


def run():
    ck = Check('P20', 'Each public header, and every combination tried, compiles on its own; no header defines a function or variable with a strong definition; the code of every function is the same whichever headers were included before it.')
    H = headers()
    pre = os.path.join(work(), 'pre.hpp')
    if not os.path.exists(pre): open(pre, 'w').write(PRELUDE)
    inc = lambda hs: ''.join('#include <%s>\n' % h for h in hs)
    jobs = [('%s alone, twice' % h, c, inc([h, h])) for c in EACH for h in H]
    for c in CONFIG:
        jobs += [('all headers', c, inc(H)), ('all headers, reversed', c, inc(H[::-1])), ('umbrella after all', c, inc(H[::-1] + [H[0]]))]
        jobs += [('standard headers first', c, '#include <cmath>\n#include <complex>\n#include <cfenv>\n#include <limits>\n' + inc(H)), ('standard headers last', c, inc(H) + '#include <cmath>\n#include <complex>\n#include <cfenv>\n#include <limits>\n')]
    rng = __import__('random').Random(int(os.environ.get('VERIF_SEED', '1')))
    for k in range(12 if TIER == 'quick' else 150):
        hs = rng.sample(H, len(H))
        jobs.append(('headers in random order %d (%s first)' % (k, hs[0]), 'clang17', inc(hs)))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (label, cfg, _), e in zip(jobs, ex.map(syntax, jobs)):
            if e is None: ck.ok(group='compiles')
            else: ck.violation('compile:%s:%s' % (label, cfg), e.split(' error:')[0].replace(INC + '/', ''), '%s [%s] does not compile: %s' % (label, ' '.join(CONFIG[cfg]), e.replace(INC + '/', '')))
    # ---- the same calls, seen through different sets of headers
    names = UN + BI + TE + CLS + CMP + ['ldexp', 'scalbn', 'scalbln', 'frexp', 'modf', 'remquo', 'nexttoward']
    where = {os.path.basename(h)[:-4]: h for h in H if h.startswith('ccmath/math')}
    def wraps(fn):
        o = [wrap(fn, c) for c in FS]
        if fn not in CLS + CMP and fn not in ('gamma', 'fmin', 'lerp'): o += [wrap(fn, c, 'w_%s_%ssfx' % (fn, c), 'ccm::' + fn + SUF[c]) for c in 'fl']
        if fn in UN and fn not in ('cbrt', 'logb'): o.append('extern "C" auto w_%s_i(int x){return ccm::%s(x);}' % (fn, fn))
        return o
    alias = {'scalbln': 'scalbn', 'fabs': 'fabs', 'abs': 'fabs', 'fmin': 'min', 'fmax': 'max', 'tgamma': 'gamma'}
    full = '\n'.join('\n'.join(wraps(fn)) for fn in names) + '\n'
    ext = '\n'.join(l for l in p26.src().splitlines() if not l.startswith('#include'))
    VAR = {'clang': [], 'gcc branches': ['-DFAKE_GCC'], 'deterministic': ['-DCCM_CONFIG_DETERMINISTIC']}
    jobs2 = []
    for v, fl in VAR.items():
        tag = v.split()[0]
        jobs2 += [(tag + '-fwd', inc(H) + full + ext, fl), (tag + '-rev', inc(H[::-1]) + full + ext, fl)]
        if tag != 'gcc': jobs2 += [(tag + '-std', '#include <cmath>\n#include <cfenv>\n#include <complex>\n' + inc(H) + full + ext, fl)]
        for k in range(2 if TIER == 'quick' else 12): jobs2.append(('%s-rnd%d' % (tag, k), inc(rng.sample(H, len(H))) + full + ext, fl))
        for fn in names:
            h = where.get(fn) or where.get(alias.get(fn, ''))
            if h: jobs2.append(('%s-one-%s' % (tag, fn), inc([h]) + '\n'.join(wraps(fn)), fl))
    nfn = 0
    with cf.ThreadPoolExecutor(JOBS) as ex: mods = list(ex.map(emit, jobs2))
    base = {}
    for (name, t, err), (_, text, _) in zip(mods, jobs2):
        tag, kind = name.split('-', 1)
        if t is None:
            ck.violation('compile:%s' % name, err[0].split(' error:')[0].replace(INC + '/', '') if err else name, 'calls through %s do not compile: %s' % (name, (err or ['?'])[0].replace(INC + '/', '')))
            continue
        fns, glob = parse(t)
        bad = []
        local = {n for n, (l, _) in fns.items() if re.match(r'internal\b', l)}
        for n, (l, b) in fns.items():
            if n.startswith('w_') or n.startswith('__cxx') or n.startswith('_GLOBAL__'): continue
            if n in local: continue
            if re.search(r'\b(linkonce_odr|weak_odr|linkonce|weak|available_externally)\b', l):
                ck.ok(group='linkage')
            else: bad.append((n, 'is defined without inline in a header: two translation units define it twice'))
        for g, b in glob.items():
            if g.startswith('@llvm.') or re.match(r'(external|linkonce|weak|private|internal|available_externally|appending)', b): continue
            bad.append((g[1:], 'is a variable with a strong definition in a header'))
        if bad:
            nm = nice([b[0] for b in bad])
            for n, why in bad: ck.violation('linkage:%s' % n, nm[n], '%s %s [%s]' % (nm[n], why, name))
        if kind == 'fwd': base[tag] = fns; continue
        b0 = base.get(tag)
        if b0 is None: continue
        diff = [n for n, (l, b) in fns.items() if n in b0 and b0[n][1] != b and not n.startswith('_GLOBAL__') and not n.startswith('__cxx')]
        nfn += len(fns)
        same = sum(1 for n in fns if n in b0) - len(diff)
        ck.ok(same, group='same code:' + tag)
        if diff:
            nm = nice(diff)
            for n in diff[:40]:
                a, b = b0[n][1].splitlines(), fns[n][1].splitlines()
                x = next(((p, q) for p, q in itertools.zip_longest(a, b) if p != q), ('', ''))
                ck.violation('meaning:%s:%s' % (tag, n), nm[n], '%s compiles to different code with all headers and with %s: "%s" against "%s"' % (nm[n], kind, (x[0] or '').strip()[:160], (x[1] or '').strip()[:160]))
    return ck.finish(headers=len(H), configurations=list(CONFIG), translation_units=len(jobs) + len(jobs2), functions_compared=nfn)


if __name__ == '__main__': main(run)
