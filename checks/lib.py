"""Shared machinery of the checks: module images of /repo, query building, verdicts, evidence."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from fractions import Fraction
sys.path[:0] = [p for p in ['/opt/veriftools/pyvenv/lib/python3.12/site-packages'] if p not in sys.path]
import mpmath
from mpmath import mp, mpf
mp.prec = 400

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CCM_REPO', '/repo')
INC = os.path.join(REPO, 'include')
BUILD = os.path.join(VERIF, 'build')
JOBS = os.cpu_count() or 4
TIER = os.environ.get('VERIF_TIER', 'quick')
T0 = time.time()


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- formats
class Fmt:
    def __init__(s, c, name, w, p, emax):
        s.c, s.name, s.w, s.p, s.emax = c, name, w, p, emax
        s.emin = 1 - emax
        s.qmin = s.emin - (p - 1)
        s.sign = 1 << (w - 1)
        s.inf = {'f': 0x7f800000, 'd': 0x7ff0000000000000, 'l': 0x7fff8000000000000000}[c]
        s.maxb = {'f': 0x7f7fffff, 'd': 0x7fefffffffffffff, 'l': 0x7ffeffffffffffffffff}[c]
        s.minnorm = {'f': 0x00800000, 'd': 1 << 52, 'l': (1 << 64) | (1 << 63)}[c]
        s.maxsub = {'f': 0x007fffff, 'd': (1 << 52) - 1, 'l': (1 << 63) - 1}[c]
        s.one = s.enc(1)
        s.full = (1 << w) - 1

    def enc(s, x, mode='n'):
        """bits of x rounded: n nearest-even, d toward -inf, u toward +inf, z toward zero, a away from zero"""
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            if isinstance(x, float) and (x != x or x in (float('inf'), -float('inf'))):
                return s.inf | (s.sign if x < 0 else 0)
            x = Fraction(x)
        elif isinstance(x, mpf):
            if mpmath.isinf(x):
                return s.inf | (s.sign if x < 0 else 0)
            sg, man, ex, _ = x._mpf_
            x = Fraction((-1) ** sg * int(man)) * (Fraction(2) ** ex)
        neg = x < 0
        m = -x if neg else x
        if mode == 'd': mode = 'a' if neg else 'z'
        elif mode == 'u': mode = 'z' if neg else 'a'
        if m == 0: return 0
        e = m.numerator.bit_length() - m.denominator.bit_length()
        while Fraction(2) ** e > m: e -= 1
        while Fraction(2) ** (e + 1) <= m: e += 1
        q = max(e, s.emin) - (s.p - 1)
        t = m / (Fraction(2) ** q)
        n = t.numerator // t.denominator
        r = t - n
        if r:
            if mode == 'a': n += 1
            elif mode == 'n' and (r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1)): n += 1
        if n == 1 << s.p: n >>= 1; q += 1
        if q > s.emax - (s.p - 1):
            b = s.maxb if mode == 'z' else s.inf
        elif s.c == 'l':
            E = q - s.qmin + (1 if n >> 63 else 0)
            b = (E << 64) | n
        else:
            b = n + ((q - s.qmin) << (s.p - 1)) if n >> (s.p - 1) else n
        return b | (s.sign if neg else 0)

    def dec(s, b):
        neg = b & s.sign
        m = b & (s.sign - 1)
        if m == s.inf: v = mpf('inf')
        elif m > s.inf: return mpf('nan')
        elif s.c == 'l':
            E, n = m >> 64, m & ((1 << 64) - 1)
            v = mpmath.ldexp(mpf(n), max(E, 1) - 1 + s.qmin)
        else:
            E, n = m >> (s.p - 1), m & ((1 << (s.p - 1)) - 1)
            if E: n |= 1 << (s.p - 1)
            v = mpmath.ldexp(mpf(n), max(E, 1) - 1 + s.qmin)
        return -v if neg else v

    def frac(s, b):
        v = s.dec(b)
        sg, man, ex, _ = v._mpf_
        return Fraction((-1) ** sg * int(man)) * (Fraction(2) ** ex)

    def edges(s):
        """encodings at the edges of every class and some ordinary ones, both signs (NaN excluded)"""
        m = [0, 1, 2, s.prv(s.maxsub), s.maxsub, s.enc(Fraction(2) ** s.emin)]
        m += [s.nxt(m[-1]), s.prv(s.one), s.one, s.nxt(s.one), s.enc(Fraction(3, 2)), s.enc(Fraction(2) ** (s.p - 1)), s.prv(s.maxb), s.maxb, s.inf]
        return m + [v | s.sign for v in m]

    def nxt(s, b, n=1):  # next magnitude
        if s.c == 'l':
            for _ in range(n):
                b += 1
                if b == 1 << 63: b |= 1 << 64
                if (b >> 64) and not (b >> 63) & 1: b |= 1 << 63
            return b
        return b + n

    def prv(s, b, n=1):
        if s.c == 'l':
            for _ in range(n):
                b -= 1
                if b >> 64 and not (b >> 63) & 1:
                    b = (((b >> 64)) << 64) | ((1 << 64) - 1) if False else ((b >> 64 << 64) - (1 << 64)) | ((1 << 64) - 1)
                    if not b >> 64: b &= (1 << 63) - 1
            return b
        return b - n

    # bit-interval helpers ------------------------------------------------
    def nan(s): return [[s.inf + 1, s.sign - 1], [s.sign + s.inf + 1, s.full]]
    def zeros(s): return [[0, 0], [s.sign, s.sign]]
    def infs(s): return [[s.inf, s.inf], [s.sign | s.inf] * 2]
    def pinf(s): return [[s.inf, s.inf]]
    def ninf(s): return [[s.sign | s.inf] * 2]
    def pz(s): return [[0, 0]]
    def nz(s): return [[s.sign, s.sign]]
    def pfin(s): return [[1, s.maxb]]
    def nfin(s): return [[s.sign | 1, s.sign | s.maxb]]
    def fin(s): return [[0, s.maxb], [s.sign, s.sign | s.maxb]]
    def nonnan(s): return [[0, s.inf], [s.sign, s.sign | s.inf]]
    def pos(s): return [[1, s.inf]]
    def neg(s): return [[s.sign | 1, s.sign | s.inf]]
    def psub(s): return [[1, s.maxsub]]
    def pnorm(s): return [[s.minnorm, s.maxb]]
    def all(s): return [[0, s.full]]

    def rng(s, lo, hi, zs='both'):
        """bit intervals of all values v with lo <= v <= hi (inputs rounded inward); zs: which zeros count"""
        r = []
        lo = mpf(lo) if not isinstance(lo, (Fraction, mpf)) else lo
        hi = mpf(hi) if not isinstance(hi, (Fraction, mpf)) else hi
        if hi > 0:
            l = s.enc(lo, 'u') if lo > 0 else 1
            h = s.enc(hi, 'd')
            if l <= h and not h & s.sign: r.append([l, h])
        if lo < 0:
            l = s.enc(hi, 'd') if hi < 0 else s.sign | 1
            h = s.enc(lo, 'u')
            if h & s.sign and l <= h: r.append([l, h])
        if lo <= 0 <= hi:
            if zs in ('both', 'p'): r.append([0, 0])
            if zs in ('both', 'n'): r.append([s.sign, s.sign])
        return r

    def out(s, lo, hi, zs='both'):
        """as rng, but rounded outward: every value that a result within [lo,hi] may round to"""
        r = []
        if hi > 0:
            l = s.enc(lo, 'd') if lo > 0 else 1
            if l == 0: l = 1
            r.append([l, s.enc(hi, 'u')])
            if lo > 0 and s.enc(lo, 'd') == 0: r.append([0, 0])
        if lo < 0:
            l = s.enc(hi, 'u') if hi < 0 else s.sign | 1
            if l in (0, s.sign): l = s.sign | 1
            r.append([l, s.enc(lo, 'd')])
            if hi < 0 and s.enc(hi, 'u') in (0, s.sign): r.append([s.sign, s.sign])
        if lo <= 0 <= hi:
            if zs in ('both', 'p'): r.append([0, 0])
            if zs in ('both', 'n'): r.append([s.sign, s.sign])
        return r

    def neg_of(s, ivs):
        return [[a ^ s.sign, b ^ s.sign] for a, b in ivs]


F = {'f': Fmt('f', 'float', 32, 24, 127), 'd': Fmt('d', 'double', 64, 53, 1023), 'l': Fmt('l', 'long double', 80, 64, 16383)}
FS = 'fdl'

# ---------------------------------------------------------------- engine and images
PRELUDE = '''#pragma once
#include <type_traits>
#include <limits>
#include <array>
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <cfloat>
#include <cfenv>
#include <cerrno>
#include <optional>
#include <tuple>
#include <utility>
#include <algorithm>
#include <string>
#include <string_view>
#include <vector>
#include <memory>
#include <functional>
#include <iterator>
#include <numeric>
#include <bitset>
#include <initializer_list>
#include <ratio>
#include <cassert>
#include <iostream>
#ifdef FAKE_GCC
#undef __clang__
#undef __clang_major__
#undef __clang_minor__
#undef __clang_patchlevel__
#undef __GNUC__
#undef __GNUC_MINOR__
#undef __GNUC_PATCHLEVEL__
#define __GNUC__ 13
#define __GNUC_MINOR__ 3
#define __GNUC_PATCHLEVEL__ 0
#endif
'''
IMAGES = {
    'rt': [],
    'ce': ['-D__builtin_is_constant_evaluated()=true'],
    'gcc': ['-DFAKE_GCC'],
    'gccce': ['-DFAKE_GCC', '-D__builtin_is_constant_evaluated()=true'],
    'det': ['-DCCM_CONFIG_DETERMINISTIC', '-ffp-contract=off'],
    'gccdet': ['-DFAKE_GCC', '-DCCM_CONFIG_DETERMINISTIC', '-ffp-contract=off'],
    'gccnb': ['-DFAKE_GCC', '-DCCM_CONFIG_TEST_DISABLE_RUNTIME_BUILTIN_POW'],
}
IMAGE_TEXT = {
    'rt': 'run-time path as built by clang', 'ce': 'constant-evaluation path as built by clang (the generic kernels)',
    'gcc': 'run-time path as built by gcc (compiler-detection macros of gcc 13)', 'gccce': 'constant-evaluation path as built by gcc',
    'det': 'deterministic configuration, run-time path, clang', 'gccdet': 'deterministic configuration, run-time path, gcc branches',
    'gccnb': 'gcc run-time path with the run-time builtin of pow disabled (the nobuiltin build)'}
_work = None


def work():
    global _work
    if _work is None:
        os.makedirs(BUILD, exist_ok=True)
        _work = tempfile.mkdtemp(prefix='work-', dir=BUILD)
        import atexit
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def engine():
    subprocess.check_call([os.path.join(VERIF, 'engine', 'build.sh')], stdout=subprocess.DEVNULL)
    return os.path.join(BUILD, 'absint')


def compile_image(name, driver, san=(), std='c++17', extra=(), opt='-O1'):
    w = work()
    pre = os.path.join(w, 'pre.hpp')
    if not os.path.exists(pre): open(pre, 'w').write(PRELUDE)
    tag = name + '-' + hashlib.sha1((driver + repr(san) + repr(extra) + std + opt).encode()).hexdigest()[:10]
    src = os.path.join(w, tag + '.cpp')
    out = os.path.join(w, tag + '.ll')
    open(src, 'w').write(driver)
    cmd = ['clang++', '-std=' + std, opt, '-gline-tables-only', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-w', '-I', INC, '-include', pre, *IMAGES[name], *extra, '-S', '-emit-llvm', src, '-o', out]
    if opt == '-O1': cmd[3:3] = ['-Xclang', '-disable-llvm-passes']
    if san: cmd[3:3] = ['-fsanitize=' + ','.join(san), '-fsanitize-trap=all']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        e = CheckError('image %s does not compile:\n%s' % (name, r.stderr[:3000]))
        e.full = r.stderr
        raise e
    return out


def hexiv(ivs): return [[hex(a), hex(b)] for a, b in ivs]


class Q(dict):
    """one obligation"""
    def __init__(s, id, fn, args, expect=(), **kw):
        super().__init__(id=id, fn=fn, args=[a if isinstance(a, dict) else {'iv': hexiv(a)} for a in args], expect=[dict(e, **({'in': hexiv(e['in'])} if 'in' in e else {})) for e in expect], **kw)


def ret(ivs, out='ret'): return {'out': out, 'in': ivs}


def run_queries(ll, qs, tag='q'):
    w = work()
    qf = os.path.join(w, os.path.basename(ll) + '.' + tag + '.jsonl')
    of = qf + '.out'
    with open(qf, 'w') as f:
        for q in qs: f.write(json.dumps(q) + '\n')
    r = subprocess.run([engine_path(), ll, qf, of, str(JOBS)], capture_output=True, text=True)
    if r.returncode: raise CheckError('engine failed: ' + r.stderr[:2000])
    res = {}
    for l in open(of):
        j = json.loads(l)
        res[j['id']] = j
    miss = [q['id'] for q in qs if q['id'] not in res]
    if miss: raise CheckError('no verdict for %s' % miss[:5])
    err = [r for r in res.values() if r['verdict'] == 'error']
    if err: raise CheckError('query error: %s' % err[:3])
    return res


_ep = None


def engine_path():
    global _ep
    if _ep is None: _ep = engine()
    return _ep


def run_matrix(driver, plan, san=(), extra=()):
    """plan: {image: [Q]} -> {image: {id: result}}; images are compiled in parallel"""
    engine_path()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {im: ex.submit(compile_image, im, driver(im) if callable(driver) else driver, san, 'c++17', extra) for im in plan}
        lls = {im: f.result() for im, f in futs.items()}
    return {im: run_queries(lls[im], plan[im], im) for im in plan}


# ---------------------------------------------------------------- driver of public wrappers
UN = "fabs exp exp2 expm1 log log10 log1p log2 sqrt cbrt sin cos tan asin acos atan ceil floor trunc round rint nearbyint logb gamma lgamma nextup nextdown".split()
BI = "fdim fmod remainder pow hypot atan2 copysign nextafter fmin fmax".split()
TE = "fma lerp".split()
CLS = "isnan isinf isfinite isnormal signbit fpclassify ilogb".split()
CMP = "isgreater isgreaterequal isless islessequal islessgreater isunordered".split()


def wrap(fn, c, name=None, call=None):
    T = F[c].name
    n = name or 'w_%s_%s' % (fn, c)
    call = call or 'ccm::' + fn
    if fn in UN: return 'extern "C" %s %s(%s x){return %s(x);}' % (T, n, T, call)
    if fn in BI: return 'extern "C" %s %s(%s x,%s y){return %s(x,y);}' % (T, n, T, T, call)
    if fn in TE or fn == 'hypot3': return 'extern "C" %s %s(%s x,%s y,%s z){return %s(x,y,z);}' % (T, n, T, T, T, 'ccm::hypot' if fn == 'hypot3' else call)
    if fn in CLS: return 'extern "C" int %s(%s x){return (int)%s(x);}' % (n, T, call)
    if fn in CMP: return 'extern "C" int %s(%s x,%s y){return (int)%s(x,y);}' % (n, T, T, call)
    if fn in ('ldexp', 'scalbn'): return 'extern "C" %s %s(%s x,int e){return %s(x,e);}' % (T, n, T, call)
    if fn == 'scalbln': return 'extern "C" %s %s(%s x,long e){return %s(x,e);}' % (T, n, T, call)
    if fn == 'frexp': return 'extern "C" %s %s(%s x,int*e){return %s(x,e);}' % (T, n, T, call)
    if fn == 'modf': return 'extern "C" %s %s(%s x,%s*e){return %s(x,e);}' % (T, n, T, T, call)
    if fn == 'remquo': return 'extern "C" %s %s(%s x,%s y,int*e){return %s(x,y,e);}' % (T, n, T, T, call)
    if fn == 'nexttoward': return 'extern "C" %s %s(%s x,long double y){return %s(x,y);}' % (T, n, T, call)
    raise KeyError(fn)


def driver(fns, cs=FS, more=''):
    o = ['#include <ccmath/ccmath.hpp>', more]
    for f in fns:
        for c in cs: o.append(wrap(f, c))
    return '\n'.join(o) + '\n'


# ---------------------------------------------------------------- reporting
def known_findings(prop):
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    return r


class Check:
    def __init__(s, prop, rule):
        s.prop, s.rule = prop, rule
        s.viol, s.proven, s.und, s.notes, s.cov = [], 0, [], [], {}
        s.obl = 0
        s.samples = []
        s.by = {}

    def violation(s, key, where, what): s.viol.append((key, where, what))

    def ok(s, n=1, group=None):
        s.obl += n
        s.proven += n
        if group: s.by[group] = s.by.get(group, 0) + n

    def undecided(s, what):
        s.obl += 1
        s.und.append(what)

    def add(s, image, res, qs):
        qd = {q['id']: q for q in qs}
        for i, r in res.items():
            s.by[image] = s.by.get(image, 0) + 1
            if r['verdict'] == 'proven': s.proven += 1; s.obl += 1
            elif r['verdict'] == 'violated':
                s.obl += 1
                tr = r.get('trace') or []
                key = '%s:%s' % (image, i)
                s.violation(key, (r.get('site') or r['fn']), '%s [%s]: argument box %s gives %s; allowed: %s; path: %s' % (i, IMAGE_TEXT.get(image, image), r.get('witness'), r.get('why'), json.dumps(qd[i]['expect'])[:400], ' -> '.join(tr[-14:])))
            else:
                s.obl += 1
                u = r.get('undecided_boxes') or [{}]
                s.und.append('%s [%s] proven %d boxes, %d undecided, e.g. %s' % (i, image, r['proven'], r['undecided'], json.dumps(u[0])[:300]))

    def finish(s, level='other', explanation='', **cov):
        kf = known_findings(s.prop)
        new, hit = [], {}
        for v in s.viol:
            k = [d for p, d in kf if re.fullmatch(p, v[0])]
            if k: hit[k[0]] = hit.get(k[0], 0) + 1
            else: new.append(v)
        for d in hit: print('KNOWN-FINDING: property=%s %s' % (s.prop, d))
        if s.obl == 0: raise CheckError('no obligation was generated')
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rep = os.path.join(VERIF, 'evidence', s.prop + '.replay.txt')
        if os.path.exists(rep): os.remove(rep)
        cv = {'explanation': explanation or s.rule, 'rule': s.rule, 'obligations': s.obl, 'discharged': s.proven, 'undecided': len(s.und), 'undecided_examples': s.und[:400], 'violations': len(new), 'known_findings': sorted(hit), 'by_image': s.by}
        cv.update(cov)
        ev = {'property': s.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cv, 'wall_s': round(time.time() - T0, 2)}
        json.dump(ev, open(os.path.join(VERIF, 'evidence', s.prop + '.json'), 'w'), indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d known) in %.1fs' % (s.prop, s.obl, s.proven, len(s.und), len(s.viol), len(s.viol) - len(new), time.time() - T0))
        if new:
            with open(rep, 'w') as f:
                for k, w, t in new: f.write('%s\n  at %s\n  %s\n' % (k, w, t))
            for k, w, t in new[:12]: print('  %s at %s: %s' % (k, w, t[:1500]))
            print('VIOLATION property=%s replay=%s' % (s.prop, rep))
            return 1
        return 0


def std(prop, rule, qs, imgs, fns, more='', skip=None, san=(), extra=(), drv=None, **cov):
    """the usual check: the same obligations on every image; skip(image, query) drops inapplicable pairs"""
    ck = Check(prop, rule)
    ids = [q['id'] for q in qs]
    dup = {i for i in ids if ids.count(i) > 1} if len(ids) < 3000 else ()
    if dup: raise CheckError('duplicate obligations %s' % list(dup)[:5])
    plan = {im: [q for q in qs if not (skip and skip(im, q))] for im in imgs}
    plan = {im: p for im, p in plan.items() if p}
    res = run_matrix(drv or driver(fns, FS, more), plan, san, extra)
    for im in plan: ck.add(im, res[im], plan[im])
    return ck.finish(functions=sorted({q['fn'] for q in qs}), images={i: IMAGE_TEXT[i] for i in plan}, **cov)


def main(fn):
    try:
        rc = fn()
    except CheckError as e:
        print('CHECK ERROR: %s' % e)
        rc = 3
    sys.exit(rc)
