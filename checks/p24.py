"""P24 every named constant and every table row holds the value it stands for, to the last bit it stores."""
from lib import *
import concurrent.futures as cf, math, struct

mp.prec = 400
PI, LN2 = mp.pi, mp.log(2)
NUM = {'e': lambda: mp.e, 'log2e': lambda: 1 / mp.log(2), 'log10e': lambda: 1 / mp.log(10), 'pi': lambda: +mp.pi, 'inv_pi': lambda: 1 / mp.pi, 'inv_sqrtpi': lambda: 1 / mp.sqrt(mp.pi), 'ln2': lambda: mp.log(2),
       'ln10': lambda: mp.log(10), 'sqrt2': lambda: mp.sqrt(2), 'sqrt3': lambda: mp.sqrt(3), 'inv_sqrt3': lambda: 1 / mp.sqrt(3), 'egamma': lambda: +mp.euler, 'phi': lambda: mp.phi + 0}
K = 'ccm::support::constants::'
PL = 'ccm::gen::impl::internal::impl::powl_ld80_tables::'
PF = 'ccm::gen::impl::internal::impl::'
SD = 'ccm::internal::sincos_double_data::'
SF = 'ccm::internal::sincos_float_data::'
R7 = lambda k: mpf(math.ceil(Fraction(2**8 - 1) / (1 + Fraction(k, 128)))) / 256
def nearint(x): return int(mp.floor(x + mpf(1) / 2))
R14 = lambda k: mpf(nearint(mpf(2)**16 / (1 + mpf(k) / 2**14))) / 2**16


def ulp(x, p=53):
    if x == 0: return mpf(2)**-1000
    return mpf(2) ** (mp.floor(mp.log(abs(x), 2)) - (p - 1))


class T:
    """one table: `fields` C++ expressions per row (i is the row), `row(i, v)` the list of (value, target, tolerance)"""
    def __init__(s, name, n, fields, row, ty='double', files=''): s.name, s.n, s.fields, s.row, s.ty = name, n, fields, row, ty


def exact(f, p=53, half=True): return lambda i, v: [(v[0], f(i), ulp(f(i), p) * (mpf('0.5000001') if half else mpf(1.0001)))]
def parts(f, p=53): return lambda i, v: [(mp.fsum(v), f(i), max(ulp(v[0], p), ulp(f(i), 53 * len(v)) if False else 0) * mpf('0.51') + (mpf(2)**-170 if v[0] == 0 else 0))]


def bits(u): return mpf(struct.unpack('<d', struct.pack('<Q', int(u) & (2**64 - 1)))[0])


def tables():
    g = lambda nm: nm + '[i]'
    dd = lambda nm: [nm + '[i].lo', nm + '[i].hi']
    td = lambda nm: [nm + '[i].lo', nm + '[i].mid', nm + '[i].hi']
    r = []
    for c, Tn in (('f', 'float'), ('d', 'double'), ('l', 'long double')):
        for n, f in NUM.items(): r.append(T('numbers::%s_v<%s>' % (n, Tn), 1, ['ccm::numbers::%s_v<%s>' % (n, Tn)], exact(lambda i, f=f: f(), F[c].p), Tn))
    for n, f in NUM.items(): r.append(T('numbers::' + n, 1, ['ccm::numbers::' + n], exact(lambda i, f=f: f())))
    r += [
        T('R', 128, [g(K + 'R')], lambda i, v: [(v[0], R7(i) if i else mpf(1), 0)], 'float'),
        T('RD', 128, [g(K + 'RD')], lambda i, v: [(v[0], R7(i) if i else mpf(1), 0)]),
        T('CD', 128, [g(K + 'CD'), g(K + 'RD')], lambda i, v: [(v[0], v[1] * (1 + mpf(i) / 128) - 1, 0)]),
        T('LOG_R', 128, [g(K + 'LOG_R'), g(K + 'RD')], lambda i, v: [(v[0], -mp.log(v[1]), ulp(v[0]))] if i < 127 else []),
        T('LOG2_R', 128, [g(K + 'LOG2_R'), g(K + 'RD')], lambda i, v: [(v[0], -mp.log(v[1], 2), ulp(v[0]))] if i < 127 else []),
        T('LOG_R_DD', 128, dd(K + 'LOG_R_DD') + [g(K + 'RD')], lambda i, v: [(v[0] + v[1], -mp.log(v[2]), ulp(v[0]))] if i < 127 else []),
        T('S2', 193, [g(K + 'S2')], lambda i, v: [(v[0], 2**16 * (R14(i - 64) - 1), 0)], 'int'),
        T('R2', 193, [g(K + 'R2')], lambda i, v: [(v[0], R14(i - 64), 0)]),
        T('S3', 161, [g(K + 'S3')], lambda i, v: [(v[0], nearint(mpf(2)**21 / (1 + mpf(i - 80) / 2**21)) - 2**21, 0)], 'int'),
        T('S4', 130, [g(K + 'S4')], lambda i, v: [(v[0], nearint(mpf(2)**28 / (1 + mpf(i - 65) / 2**28)) - 2**28, 0)], 'int'),
        T('EXP_M1', 195, [g(K + 'EXP_M1')], exact(lambda i: mp.exp(i - 104))),
        T('EXP_M2', 128, [g(K + 'EXP_M2')], exact(lambda i: mp.exp(mpf(i) / 128))),
        T('EXP2_MID1', 64, td(K + 'EXP2_MID1'), parts(lambda i: mpf(2) ** (mpf(i) / 64))),
        T('EXP2_MID2', 64, td(K + 'EXP2_MID2'), parts(lambda i: mpf(2) ** (mpf(i) / 4096))),
        T('LOG_2_HI+LO', 1, [K + 'LOG_2_LO', K + 'LOG_2_HI'], lambda i, v: [(v[0] + v[1], LN2, mpf(2)**-97)]),
        T('LOG2_R_TD', 128, td(PF + 'LOG2_R_TD') + [g(K + 'RD')], lambda i, v: [(v[0] + v[1] + v[2], -mp.log(v[3], 2), ulp(v[0]))] if 0 < i < 127 else []),
        T('LOG2_R2_DD', 193, dd(PF + 'LOG2_R2_DD'), lambda i, v: [(v[0] + v[1], -mp.log(R14(i - 64), 2), ulp(v[0]))]),
        T('powl RD', 128, [g(PL + 'RD'), g(K + 'RD')], lambda i, v: [(v[0], v[1], 0)], 'long double'),
        T('powl CD', 128, [g(PL + 'CD'), g(PL + 'RD')], lambda i, v: [(v[0], v[1] * (1 + mpf(i) / 128) - 1, 0)], 'long double'),
        T('powl EXP2', 64, [g(PL + 'EXP2_MID'), g(PL + 'EXP2_HI')], lambda i, v: [(v[0] + v[1], mpf(2) ** (mpf(i) / 64), mpf(2)**-105)], 'long double'),
        T('powl LOG2_R', 128, [g(PL + 'LOG2_R_LO'), g(PL + 'LOG2_R_MID'), g(PL + 'LOG2_R_HI'), g(PL + 'RD')], lambda i, v: [(v[0] + v[1] + v[2], -mp.log(v[3], 2), ulp(v[0]))] if i < 127 else [], 'long double'),
        T('sincos SIN_K_PI_OVER_8', 16, [g(SD + 'SIN_K_PI_OVER_8')], exact(lambda i: mp.sin(i * PI / 8) if i % 8 else mpf(0))),
        T('sincos float SIN_K_PI_OVER_8', 16, [g(SF + 'SIN_K_PI_OVER_8')], lambda i, v: [(v[0], mp.sin(i * PI / 8) if i % 8 else mpf(0), mpf(2)**-23)], 'float'),
        T('sincos MPI', 1, [SD + 'MPI[0]', SD + 'MPI[1]', SD + 'MPI[2]'], lambda i, v: [(mp.fsum(v), -PI / 8, mpf(2)**-115)]),
        T('sincos float MPI', 1, [SF + 'MPI[0]', SF + 'MPI[1]', SF + 'MPI[2]'], lambda i, v: [(mp.fsum(v), -PI / 8, mpf(2)**-60)], 'float'),
        T('sincos 8/pi', 1, [SD + 'ONE_OVER_PI'], exact(lambda i: 8 / PI)),
        T('sincos float 8/pi', 1, [SF + 'ONE_OVER_PI'], exact(lambda i: 8 / PI, 24, False), 'float'),
        T('payne-hanek pi/8', 1, ['ccm::internal::impl::sincos_ph::PI_OVER_8_HI', 'ccm::internal::impl::sincos_ph::PI_OVER_8_LO'], lambda i, v: [(mp.fsum(v), PI / 8, mpf(2)**-108)]),
        T('inverse trig pi', 1, ['ccm::internal::inv_trig_data::k_pi'], exact(lambda i: +PI)),
        T('inverse trig pi/2', 1, ['ccm::internal::inv_trig_data::k_pi_over_2'], exact(lambda i: PI / 2)),
        T('log1p ln2 float', 1, ['ccm::internal::impl::log1p_ln2_hi_f', 'ccm::internal::impl::log1p_ln2_lo_f'], lambda i, v: [(mp.fsum(v), LN2, mpf(2)**-45)], 'float'),
    ]
    D, S = 'ccm::internal::', 'static_cast<double>'
    for k, lg in (('log', mp.log), ('log2', lambda x: mp.log(x, 2))):
        for Tn, n, tol in (('float', 16, 2.0**-50), ('double', 128 if k == 'log' else 64, 2.0**-62)):
            nm = D + '%s_data<%s>' % (k, Tn)
            # row: an approximate reciprocal and the logarithm of the number it is the reciprocal of
            r.append(T('%s tab' % nm, n, [nm + '::tab[i].invc', nm + '::tab[i].logc'], lambda i, v, lg=lg, tol=tol: [(v[1], -lg(v[0]), mpf(tol))]))
        n = 128 if k == 'log' else 64
        nm = D + '%s_data<double>' % k
        r.append(T('%s tab2' % nm, n, [nm + '::tab[i].invc', nm + '::tab2[i].chi', nm + '::tab2[i].clo', nm + '::tab[i].logc'], lambda i, v, lg=lg: [(v[1] + v[2], 1 / v[0], mpf(2)**-52 / v[0]), (v[3], lg(v[1] + v[2]), mpf(2)**-62)]))
    r += [
        T('log ln2', 1, [D + 'log_data<double>{}.ln2hi', D + 'log_data<double>{}.ln2lo'], lambda i, v: [(mp.fsum(v), LN2, mpf(2)**-97)]),
        T('log float ln2', 1, [D + 'log_data<float>{}.ln2'], exact(lambda i: LN2)),
        T('log2 1/ln2', 1, [D + 'log2_data<double>{}.invln2hi', D + 'log2_data<double>{}.invln2lo'], lambda i, v: [(mp.fsum(v), 1 / LN2, mpf(2)**-80)]),
        T('exp float tab', 32, [D + 'exp_data<float>{}.tab[i]'], lambda i, v: [(bits(int(v[0]) + (i << 47)), mpf(2) ** (mpf(i) / 32), ulp(mpf(1)) * mpf('0.51'))], 'std::uint64_t'),
        T('exp2 float tab', 32, [D + 'exp2_data<float>{}.tab[i]'], lambda i, v: [(bits(int(v[0]) + (i << 47)), mpf(2) ** (mpf(i) / 32), ulp(mpf(1)) * mpf('0.51'))], 'std::uint64_t'),
        T('exp double tab', 128, [D + 'exp_data<double>{}.tab[2*i]', D + 'exp_data<double>{}.tab[2*i+1]'], lambda i, v: [(bits(int(v[1]) + (i << 45)) * (1 + bits(v[0])), mpf(2) ** (mpf(i) / 128), mpf(2)**-100)], 'std::uint64_t'),
        T('exp2 double tab', 128, [D + 'exp2_data<double>{}.tab[2*i]', D + 'exp2_data<double>{}.tab[2*i+1]'], lambda i, v: [(bits(int(v[1]) + (i << 45)) * (1 + bits(v[0])), mpf(2) ** (mpf(i) / 128), mpf(2)**-100)], 'std::uint64_t'),
        T('exp ln2/N', 1, [D + 'exp_data<double>{}.negln2hiN', D + 'exp_data<double>{}.negln2loN'], lambda i, v: [(mp.fsum(v), -LN2 / 128, mpf(2)**-98)]),
        T('exp N/ln2', 1, [D + 'exp_data<double>{}.invln2N'], exact(lambda i: 128 / LN2)),
        T('exp float N/ln2', 1, [D + 'exp_data<float>{}.invln2_scaled'], exact(lambda i: 32 / LN2)),
        T('gamma base', 1, [D + 'impl::data::k_gamma_base'], lambda i, v: [(v[0], mpf('2.875'), 0)]),
        T('FRAC_8_OVER_PI', 32, [D + 'impl::sincos_ph::FRAC_8_OVER_PI[i]'], None, 'std::uint64_t'),
    ]
    # polynomials, as functions: coefficients, variable range, function, error (absolute, on the stated expression)
    def poly(name, n, expr, f, lo, hi, err, ty='double'): r.append(T(name, 1, [expr % k for k in range(n)], ('poly', f, lo, hi, err), ty))
    def nz(f, z):  # value at 0 by the limit
        return lambda x: z if x == 0 else f(x)
    poly('sin polynomial', 6, SD + 'SIN_POLY[%d]', nz(lambda t: mp.sin(mp.sqrt(t)) / mp.sqrt(t), mpf(1)), 0, (PI / 16) ** 2, mpf(2)**mpf('-61.8'))
    poly('cos polynomial', 6, SD + 'COS_POLY[%d]', lambda t: mp.cos(mp.sqrt(t)), 0, (PI / 16) ** 2, mpf(2)**mpf('-66.7'))
    poly('LOG_COEFFS', 6, K + 'LOG_COEFFS[%d]', nz(lambda x: (mp.log(1 + x) - x) / x**2, mpf(-0.5)), -mpf(2)**-8, mpf(2)**-7, mpf(2)**mpf('-52.1'))
    poly('asin polynomial', 12, D + 'inv_trig_data::k_asin_coeffs[%d]', nz(lambda t: (mp.asin(mp.sqrt(t)) / mp.sqrt(t) - 1) / t, mpf(1) / 6), 0, mpf(1) / 4, mpf(2)**-46)
    poly('gamma polynomial', 8, D + 'impl::data::k_gamma_coeffs[%d]', lambda d: mp.gamma(d + mpf('2.875')), -mpf(0.5), mpf(0.5), mpf(2)**mpf('-23.1'))
    poly('pow log2 polynomial', 7, PF + 'POW_LOG2_COEFFS[%d]', nz(lambda x: mp.log(1 + x, 2) / x, 1 / LN2), -mpf(2)**-8, mpf(2)**-7, mpf(2)**mpf('-55.1'))
    poly('pow exp2 polynomial', 6, PF + 'POW_EXP2_COEFFS[%d]', lambda x: mpf(2)**(x / 64), -mpf(0.5), mpf(0.5), mpf(2)**mpf('-58.9'))
    poly('powl log2 polynomial', 8, PL + 'POW_LOG2_COEFFS[%d]', nz(lambda x: mp.log(1 + x, 2) / x, 1 / LN2), -mpf(2)**-8, mpf(2)**-7, mpf(2)**mpf('-64.6'), 'long double')
    poly('powl exp2 polynomial', 7, PL + 'POW_EXP2_COEFFS[%d]', lambda x: mpf(2)**(x / 64), -mpf(0.5), mpf(0.5), mpf(2)**mpf('-70.6'), 'long double')
    L1 = D + 'impl::log1p_'
    # log(1+f) = f - f*f/2 + s*(f*f/2 + R(s*s)), s = f/(2+f)
    lg = nz(lambda z: (mp.log((1 + mp.sqrt(z)) / (1 - mp.sqrt(z))) - 2 * mp.sqrt(z)) / mp.sqrt(z) / z, mpf(2) / 3)
    r.append(T('log1p polynomial', 1, [L1 + 'lg%d_d' % k for k in range(1, 8)], ('poly', lg, mpf(0), mpf('0.1716') ** 2, mpf(2)**mpf('-60.7'), lambda z: z * mp.sqrt(z)), 'double'))
    r.append(T('log1p float polynomial', 1, [L1 + 'lg%d_f' % k for k in range(1, 5)], ('poly', lg, mpf(0), mpf('0.1716') ** 2, mpf(2)**mpf('-36.5'), lambda z: z * mp.sqrt(z)), 'float'))
    r.append(T('pow dd log2 polynomial', 1, [PF + 'POW_DD_LOG2P_COEFFS[%d].%s' % (k, h) for k in range(6) for h in ('hi', 'lo')], ('poly2', nz(lambda x: mp.log(1 + x, 2) / x, 1 / LN2), -mpf(float.fromhex('0x1.3ffcp-15')), mpf(float.fromhex('0x1.3e3dp-15')), mpf(2)**mpf('-95.1')), 'double'))
    r.append(T('pow dd exp2 polynomial', 1, [PF + 'POW_DD_EXP2_COEFFS[%d].%s' % (k, h) for k in range(10) for h in ('hi', 'lo')], ('poly2', lambda x: mpf(2)**(x / 64), -mpf(0.5), mpf(0.5), mpf(2)**mpf('-105.5')), 'double'))
    def wpoly(name, exprs, f, lo, hi, err, w, ty='double'): r.append(T(name, 1, exprs, ('poly', f, mpf(lo), mpf(hi), mpf(err), w), ty))
    fh = lambda x: mpf(float.fromhex(x))
    xx = lambda x: x * x
    lx = lambda b: nz(lambda x: (mp.log(1 + x) / b - x / b) / x**2, -mpf(1) / 2 / b)
    idx = lambda nm, n: [nm + '[%d]' % k for k in range(n)]
    wpoly('log double polynomial', idx(D + 'log_data<double>{}.poly', 5), lx(1), -fh('0x1.fp-9'), fh('0x1.fp-9'), fh('0x1.89p-65'), xx)
    wpoly('log double polynomial near 1', idx(D + 'log_data<double>{}.poly1', 11), lx(1), -fh('0x1p-4'), fh('0x1.09p-4'), fh('0x1.c1p-63'), lambda x: x * x / abs(mp.log(1 + x)) if x else 0)
    wpoly('log2 double polynomial', idx(D + 'log2_data<double>{}.poly', 6), lx(LN2), -fh('0x1.f45p-8'), fh('0x1.f45p-8'), fh('0x1.68p-66'), xx)
    wpoly('log2 double polynomial near 1', idx(D + 'log2_data<double>{}.poly1', 10), lx(LN2), -fh('0x1.5b51p-5'), fh('0x1.6ab2p-5'), fh('0x1.3p-63'), lambda x: x * x * LN2 / abs(mp.log(1 + x)) if x else 0)
    wpoly('log float polynomial', [D + 'log_data<float>{}.poly[%d]' % k for k in (2, 1, 0)], lx(1), -mpf(2)**-5 * mpf('0.96'), mpf(2)**-5, mpf(2)**-28, xx)
    wpoly('log2 float polynomial', [D + 'log2_data<float>{}.poly[%d]' % k for k in (3, 2, 1, 0)], nz(lambda x: mp.log(1 + x, 2) / x, 1 / LN2), -mpf(2)**-5 * mpf('0.96'), mpf(2)**-5, mpf(2)**-28, abs)
    wpoly('exp double polynomial', idx(D + 'exp_data<double>{}.poly', 4), nz(lambda x: (mp.exp(x) - 1 - x) / x**2, mpf(1) / 2), -LN2 / 256, LN2 / 256, mpf('1.556') * mpf(2)**-66, xx)
    wpoly('exp2 double polynomial', idx(D + 'exp2_data<double>{}.poly', 5), nz(lambda x: (mpf(2)**x - 1) / x, LN2), -mpf(1) / 256, mpf(1) / 256, mpf('1.22') * mpf(2)**-65, abs)
    wpoly('exp float polynomial', [D + 'exp_data<float>{}.poly_scaled[%d]' % k for k in (2, 1, 0)], nz(lambda x: (mpf(2)**(x / 32) - 1) / x, LN2 / 32), -mpf(1) / 2, mpf(1) / 2, mpf(2)**-33, abs)
    wpoly('exp2 float polynomial', [D + 'exp2_data<float>{}.poly[%d]' % k for k in (2, 1, 0)], nz(lambda x: (mpf(2)**x - 1) / x, LN2), -mpf(1) / 64, mpf(1) / 64, mpf(2)**-33, abs)
    return r


TOK = re.compile(r'\b(double|float|x86_fp80|i64|i32) (0xK[0-9A-F]{20}|0x[0-9A-F]{16}|-?[0-9][0-9.eE+-]*)')


def val(t, s):
    if s.startswith('0xK'):
        u = int(s[3:], 16)
        sg, e, m = u >> 79, (u >> 64) & 0x7fff, u & (2**64 - 1)
        return (-1) ** sg * mpf(m) * mpf(2) ** ((e or 1) - 16383 - 63)
    if s.startswith('0x'): return bits(int(s, 16))
    if t in ('i64', 'i32'): return mpf(int(s)) if t == 'i32' else mpf(int(s) & (2**64 - 1))
    return mpf(float(s))


def fetch(job):
    k, t = job
    src = os.path.join(work(), 't%d.cpp' % k)
    inc = '#include <ccmath/ccmath.hpp>\n#include <ccmath/math/numbers.hpp>\n#include <cstdint>\n'
    rows = ',\n'.join(', '.join('static_cast<%s>(%s)' % (t.ty, f.replace('[i]', '[%d]' % i).replace('[2*i]', '[%d]' % (2 * i)).replace('[2*i+1]', '[%d]' % (2 * i + 1))) for f in t.fields) for i in range(t.n))
    open(src, 'w').write(inc + 'extern "C" { extern const %s ck_table[]; constexpr %s ck_table[] = { %s }; }\n' % (t.ty, t.ty, rows))
    r = subprocess.run(['clang++', '-std=c++17', '-O0', '-w', '-fconstexpr-steps=100000000', '-I', INC, '-S', '-emit-llvm', src, '-o', '-'], capture_output=True, text=True)
    if r.returncode: return None
    l = [x for x in r.stdout.splitlines() if x.startswith('@ck_table')]
    if not l: return None
    if 'zeroinitializer' in l[0]: return [mpf(0)] * (t.n * len(t.fields))
    v = [val(a, b) for a, b in TOK.findall(l[0].split('constant', 1)[1])]
    return v if len(v) == t.n * len(t.fields) else None


def run():
    ck = Check('P24', 'Every named constant is the nearest representable value; every row of every table agrees with the function it tabulates to the last bit stored; every polynomial approximates its function to the stated error.')
    ts = tables()
    missing = []
    with cf.ThreadPoolExecutor(JOBS) as ex: got = list(ex.map(fetch, enumerate(ts)))
    for t, v in zip(ts, got):
        if v is None:
            missing.append(t.name)
            ck.undecided('%s: no such table in this tree; not analysed' % t.name)
            continue
        m = len(t.fields)
        if t.name == 'FRAC_8_OVER_PI':
            mp.prec = 2300
            x = 8 / mp.pi - 2
            for i in range(t.n):
                x = x * mpf(2)**64
                w = int(mp.floor(x))
                x -= w
                if int(v[i]) == w or (i == t.n - 1 and int(v[i]) == w + 1): ck.ok(group='rows')
                else: ck.violation('%s:%d' % (t.name, i), t.name, 'word %d is %#x, the bits of 8/pi are %#x' % (i, int(v[i]), w))
            mp.prec = 400
            continue
        if isinstance(t.row, tuple):
            kind, f, lo, hi, err = t.row[:5]
            wt = t.row[5] if len(t.row) > 5 else lambda x: 1
            if kind == 'poly2': v = [v[j] + v[j + 1] for j in range(0, len(v), 2)]
            bad = None
            for j in range(129):
                x = lo + (hi - lo) * j / 128
                d = abs(mp.polyval(v[::-1], x) - f(x)) * wt(x)
                if d > err and (bad is None or d > bad[1]): bad = (x, d)
            if bad: ck.violation(t.name, t.name, 'polynomial is off by 2^%s at %s; allowed 2^%s' % (mp.nstr(mp.log(bad[1], 2), 5), mp.nstr(bad[0], 6), mp.nstr(mp.log(err, 2), 5)))
            else: ck.ok(group='polynomials')
            continue
        for i in range(t.n):
            for a, b, tol in t.row(i, v[i * m:(i + 1) * m]):
                if abs(a - b) <= tol: ck.ok(group='rows')
                else: ck.violation('%s:%d' % (t.name, i), '%s, row %d' % (t.name, i), 'row %d holds %s, expected %s: off by 2^%s, allowed 2^%s' % (i, mp.nstr(mpf(a), 25), mp.nstr(mpf(b), 25), mp.nstr(mp.log(abs(a - b), 2), 5), mp.nstr(mp.log(tol, 2), 5) if tol else '-inf'))
    return ck.finish(tables=len(ts) - len(missing), not_found=missing)


if __name__ == '__main__': main(run)
