"""Effect facts of the public API per image: reachability over the call graph after constant branches are folded."""
from lib import *
EXTDRV = '#include <ccmath/ccmath.hpp>\n' + ''.join('#include <ccmath/ext/%s>\n' % h for h in sorted(os.listdir(os.path.join(INC, 'ccmath', 'ext'))) if h.endswith('.hpp'))


def ext_driver():
    o = []
    T = {'f': 'float', 'd': 'double', 'l': 'long double'}
    for c, t in T.items():
        E = lambda n, ar, call: o.append('extern "C" auto w_%s_%s(%s){return %s;}' % (n, c, ','.join('%s a%d' % (t, i) for i in range(ar)), call + '(' + ','.join('a%d' % i for i in range(ar)) + ')'))
        for n, ar in (('approximately', 3), ('clamp', 3), ('cubic', 5), ('degrees', 1), ('delta_angle', 2), ('fract', 1), ('inverse_lerp', 3), ('lerp_angle', 3), ('lerp_smooth', 4), ('mix', 3), ('move_towards', 3), ('move_towards_angle', 3), ('normalize', 3), ('ping_pong', 2), ('radians', 1), ('rcp', 1), ('remap', 5), ('repeat', 2), ('saturate', 1), ('sign', 1), ('smoothstep', 3), ('step', 2), ('unlerp', 3)):
            if n == 'cubic': continue
            E('ext_' + n, ar, 'ccm::ext::' + n)
        for n, ar in (('delta_angle', 2), ('inverse_lerp', 3), ('lerp_angle', 3), ('move_towards_angle', 3), ('normalize', 3), ('remap', 5), ('repeat', 2), ('unlerp', 3)): E('exts_' + n, ar, 'ccm::ext::safe::' + n)
    for c, t in (('i', 'int'), ('j', 'long'), ('u', 'unsigned'), ('U', 'unsigned long'), ('s', 'short'), ('c', 'unsigned short')):
        o.append('extern "C" %s w_abs_diff_%s(%s a,%s b){return ccm::ext::abs_diff(a,b);}' % (t, c, t, t))
        o.append('extern "C" %s w_ceil_div_%s(%s a,%s b){return ccm::ext::ceil_div(a,b);}' % (t, c, t, t))
        o.append('extern "C" %s w_ceil_divs_%s(%s a,%s b){return ccm::ext::safe::ceil_div(a,b);}' % (t, c, t, t))
        o.append('extern "C" bool w_ispow2_%s(%s a){return ccm::ext::is_power_of_two(a);}' % (c, t))
        o.append('extern "C" bool w_ispow2s_%s(%s a){return ccm::ext::safe::is_power_of_two(a);}' % (c, t))
        o.append('extern "C" %s w_align_up_%s(%s a){return ccm::ext::align_up<%s,16>(a);} extern "C" %s w_align_down_%s(%s a){return ccm::ext::align_down<%s,16>(a);}' % (t, c, t, t, t, c, t, t))
        o.append('extern "C" %s w_sgn_%s(%s a){return ccm::ext::sign(a);}' % (t, c, t))
    return '\n'.join(o) + '\n'


ALLF = UN + BI + TE + CLS + CMP + ['hypot3', 'ldexp', 'scalbn', 'scalbln', 'frexp', 'modf', 'remquo', 'nexttoward']


def int_driver():
    """the overloads for integers and mixed arguments"""
    o = []
    for n, t in (('i', 'int'), ('j', 'long'), ('u', 'unsigned char')):
        for fn in UN:
            if fn in ('nextup', 'nextdown', 'cbrt', 'logb'): continue
            o.append('extern "C" auto w_%s_%s(%s x){return ccm::%s(x);}' % (fn, n, t, fn))
        for fn in ('pow', 'fmod', 'fdim', 'remainder'):
            o.append('extern "C" auto w_%s_%s(%s x,%s y){return ccm::%s(x,y);}' % (fn, n, t, t, fn))
    for fn in ('pow', 'fmod', 'fdim'):
        o.append('extern "C" auto w_%s_fd(float x,double y){return ccm::%s(x,y);}' % (fn, fn))
    for fn in ('pow', 'fmod'):
        o.append('extern "C" auto w_%s_di(double x,int y){return ccm::%s(x,y);}' % (fn, fn))
    return '\n'.join(o) + '\n'


_drv = None


def full_driver():
    global _drv
    if _drv is None: _drv = EXTDRV + driver(ALLF) + ext_driver() + int_driver()
    return _drv


def facts_of(image, drv=None, extra=()):
    engine_path()
    ll = compile_image(image, drv or full_driver(), extra=extra)
    out = ll + '.facts.json'
    r = subprocess.run([os.path.join(BUILD, 'facts'), ll, out, 'w_'], capture_output=True, text=True)
    if r.returncode: raise CheckError('facts failed on %s: %s' % (image, r.stderr[:500]))
    return Facts(image, json.load(open(out)))


def facts_all(images, extra=()):
    engine_path()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = {im: ex.submit(facts_of, im, None, extra) for im in images}
        return {im: f.result() for im, f in fs.items()}


class Facts:
    def __init__(s, image, j):
        s.image, s.f, s.g, s.ctors = image, j['functions'], j['globals'], j['ctors']
        s.sinks, s.env, s.env_entries = j['sinks'], j['env'], j['envEntries']
        s.errno_read = j['errnoRead']
        s.entries = sorted(k for k in s.f if k.startswith('w_'))
        taken = {a[0] for v in s.f.values() for a in v['fnaddr']}
        s.succ = {k: {c[0] for c in v['calls'] if c[0] in s.f} | {a[0] for a in v['fnaddr']} | (taken if v['indirect'] else set()) for k, v in s.f.items()}
        s._r = {}

    def reach(s, e):
        if e not in s._r:
            par = {e: None}
            st = [e]
            while st:
                k = st.pop()
                for c in sorted(s.succ.get(k, ())):
                    if c in s.f and c not in par: par[c] = k; st.append(c)
            s._r[e] = par
        return s._r[e]

    def path(s, e, k):
        r, p = s.reach(e), []
        while k: p.append(s.f[k].get('dem', k).split('(')[0] if k in s.f else k); k = r[k]
        return ' -> '.join(reversed(p))[-900:]

    def users(s, k):
        """entries that reach function k"""
        return [e for e in s.entries if k in s.reach(e)]
