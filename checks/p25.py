"""P25 the wide integers, bit helpers and double-double sums under the kernels are exact."""
from lib import *
import random
IMGS = ['rt', 'ce', 'gcc', 'gccce'] if TIER != 'quick' else ['rt', 'ce', 'gcc']
# name: (type, word bits, words, signed)
TY = {'u128': ('UInt<128>', 64, 2, 0), 'u192': ('UInt<192>', 64, 3, 0), 'u256': ('UInt<256>', 64, 4, 0), 'u96': ('UInt<96>', 32, 3, 0), 'i128': ('Int<128>', 64, 2, 1), 'i256': ('Int<256>', 64, 4, 1)}
NI = {'u8': ('std::uint8_t', 8, 0), 'u16': ('std::uint16_t', 16, 0), 'u32': ('std::uint32_t', 32, 0), 'u64': ('std::uint64_t', 64, 0), 'ull': ('unsigned long long', 64, 0), 'i8': ('std::int8_t', 8, 1), 'i32': ('std::int32_t', 32, 1), 'i64': ('std::int64_t', 64, 1)}
DRV = ['#include <ccmath/ccmath.hpp>', '#include <ccmath/internal/types/big_int.hpp>', '#include <ccmath/internal/types/double_double.hpp>', '#include <ccmath/internal/support/bits.hpp>', 'using namespace ccm::types; namespace cs=ccm::support;']
OPS = []  # (fn, [(width, is word of big operand)], number of out words, word bits, function)


def W(n): return 'std::uint%d_t' % n


def big(v, nm): T, w, n, s = TY[v]; return ','.join('%s %s%d' % (W(w), nm, i) for i in range(n)), '%s %s(std::array<%s,%d>{%s});' % (T, nm, W(w), n, ','.join('%s%d' % (nm, i) for i in range(n)))


def fnout(w, n): return ','.join('%s*o%d' % (W(w), i) for i in range(n)), ''.join('*o%d=r_.val[%d];' % (i, i) for i in range(n))


def sgn(v, bits, s): v &= (1 << bits) - 1; return v - (1 << bits) if s and v >> (bits - 1) else v


def tdiv(a, b): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q


def bl(x): return x.bit_length()


def define():
    for v, (T, w, n, s) in TY.items():
        N = w * n
        M = (1 << N) - 1
        pa, da = big(v, 'a')
        pb, db = big(v, 'b')
        po, wo = fnout(w, n)
        S = lambda x, N=N, s=s: sgn(x, N, s)
        t = lambda name, params, decl, body, outp, outw: DRV.append('extern "C" void w_%s_%s(%s){%s %s r_=%s; %s}' % (v, name, ','.join(params + [outp]), decl, 'auto', body, outw))
        # (name, expression, value)
        for name, e, f in (('add', 'a+b', lambda a, b: a + b), ('sub', 'a-b', lambda a, b: a - b), ('mul', 'a*b', lambda a, b: a * b), ('and', 'a&b', lambda a, b: a & b), ('or', 'a|b', lambda a, b: a | b), ('xor', 'a^b', lambda a, b: a ^ b),
                           ('addm', 'a+%s(b)' % T, lambda a, b: a + b), ('subm', 'a-%s(b)' % T, lambda a, b: a - b), ('addeq', '(a+=b)', lambda a, b: a + b), ('subeq', '(a-=b)', lambda a, b: a - b), ('muleq', '(a*=b)', lambda a, b: a * b)):
            t(name, [pa, pb], da + db, e, po, wo)
            OPS.append(('%s_%s' % (v, name), 'bin', v, n, w, lambda a, b, f=f, M=M: f(a, b) & M))
        for name, e, f in (('div', 'a/b', lambda a, b: tdiv(a, b)), ('mod', 'a%b', lambda a, b: a - b * tdiv(a, b)), ('diveq', '(a/=b)', lambda a, b: tdiv(a, b)), ('divr', '*a.div(b)', lambda a, b: a - b * tdiv(a, b))):
            t(name, [pa, pb], da + db, e, po, wo)
            OPS.append(('%s_%s' % (v, name), 'div', v, n, w, lambda a, b, f=f, M=M, S=S: f(S(a), S(b)) & M))
        for name, e, f in (('not', '~a', lambda a: ~a), ('neg', '-a', lambda a: -a), ('inc', '++a', lambda a: a + 1), ('dec', '--a', lambda a: a - 1), ('pinc', '(a++,a)', lambda a: a + 1), ('pdec', '(a--,a)', lambda a: a - 1), ('postinc', 'a++', lambda a: a), ('postdec', 'a--', lambda a: a)):
            t(name, [pa], da, e, po, wo)
            OPS.append(('%s_%s' % (v, name), 'un', v, n, w, lambda a, f=f, M=M: f(a) & M))
        for name, e, f in (('shl', 'a<<s', lambda a, k: a << k), ('shr', 'a>>s', lambda a, k: a >> k), ('shleq', '(a<<=s)', lambda a, k: a << k), ('shreq', '(a>>=s)', lambda a, k: a >> k), ('setbit', '(a.set_bit(s),a)', lambda a, k: a | 1 << k)):
            t(name, [pa, 'std::size_t s'], da, e, po, wo)
            OPS.append(('%s_%s' % (v, name), 'sh', v, n, w, lambda a, k, f=f, M=M, S=S: f(S(a), k) & M))
        DRV.append('extern "C" int w_%s_cmp(%s,%s){%s%s return (a==b)|(a!=b)<<1|(a<b)<<2|(a<=b)<<3|(a>b)<<4|(a>=b)<<5;}' % (v, pa, pb, da, db))
        OPS.append(('%s_cmp' % v, 'binr', v, 0, 32, lambda a, b, S=S: (lambda x, y: (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5)(S(a), S(b))))
        DRV.append('extern "C" int w_%s_pred(%s){%s return (int)a.is_zero()|(int)static_cast<bool>(a)<<1|(int)a.is_neg()<<2;}' % (v, pa, da))
        OPS.append(('%s_pred' % v, 'unr', v, 0, 32, lambda a, S=S: (a == 0) | (a != 0) << 1 | (S(a) < 0) << 2))
        DRV.append('extern "C" int w_%s_getbit(%s,std::size_t s){%s return a.get_bit(s);}' % (v, pa, da))
        OPS.append(('%s_getbit' % v, 'shr', v, 0, 32, lambda a, k: a >> k & 1))
        for k, (I, iw, isg) in NI.items():
            DRV.append('extern "C" %s w_%s_to_%s(%s){%s return static_cast<%s>(a);}' % (I, v, k, pa, da, I))
            OPS.append(('%s_to_%s' % (v, k), 'unr', v, 0, iw, lambda a, iw=iw: a & ((1 << iw) - 1)))
            DRV.append('extern "C" void w_%s_of_%s(%s x,%s){%s r_(x);%s}' % (v, k, I, po, T, wo))
            OPS.append(('%s_of_%s' % (v, k), 'of', (iw, isg), n, w, lambda x, iw=iw, isg=isg, M=M: sgn(x, iw, isg) & M))
        bits = [('popcount', lambda a: bin(a).count('1')), ('has_single_bit', lambda a: int(bin(a).count('1') == 1)), ('countr_zero', lambda a, N=N: N if a == 0 else bl(a & -a) - 1), ('countl_zero', lambda a, N=N: N - bl(a)),
                ('countl_one', lambda a, N=N, M=M: N - bl(~a & M)), ('countr_one', lambda a, N=N, M=M: bl(~a & (a + 1)) - 1 if a != M else N), ('count_zeros', lambda a, N=N: N - bin(a).count('1')),
                ('first_leading_zero', lambda a, N=N, M=M: 0 if a == M else N - bl(~a & M) + 1), ('first_leading_one', lambda a, N=N: 0 if a == 0 else N - bl(a) + 1), ('first_trailing_zero', lambda a, M=M: 0 if a == M else bl(~a & (a + 1))), ('first_trailing_one', lambda a: bl(a & -a))]
        if not s: bits.append(('bit_width', bl))
        for name, f in bits:
            if s: continue
            DRV.append('extern "C" int w_%s_%s(%s){%s return (int)cs::%s(a);}' % (v, name, pa, da, name))
            OPS.append(('%s_%s' % (v, name), 'unr', v, 0, 32, f))
        if not s:
            for name, sg in (('rotl', 1), ('rotr', -1)):
                t(name, [pa, 'int s'], da, 'cs::%s(a,s)' % name, po, wo)
                OPS.append(('%s_%s' % (v, name), 'rot', v, n, w, lambda a, k, N=N, M=M, sg=sg: (a << (k * sg % N) | a >> (N - k * sg % N)) & M))
            po2, wo2 = fnout(w, 2 * n)
            t('fulmul', [pa, pb], da + db, 'a.ful_mul(b)', po2, wo2)
            OPS.append(('%s_fulmul' % v, 'bin', v, 2 * n, w, lambda a, b: a * b))
            for name, f in (('add_overflow', lambda a, b, N=N: a + b >> N), ('sub_overflow', lambda a, b: int(a < b))):
                DRV.append('extern "C" %s w_%s_%s(%s,%s){%s%s return a.%s(b);}' % (W(w), v, name, pa, pb, da, db, name))
                OPS.append(('%s_%s' % (v, name), 'binr', v, 0, w, f))
            DRV.append('extern "C" %s w_%s_wmul(%s,%s x,%s){%s auto c=a.mul(x); auto r_=a; %s return c;}' % (W(w), v, pa, W(w), po, da, wo))
            OPS.append(('%s_wmul' % v, 'word', v, n, w, lambda a, x, N=N, M=M: (a * x & M, a * x >> N)))
            t('pown', [pa, 'std::uint64_t s'], da, '(a.pow_n(s),a)', po, wo)
            OPS.append(('%s_pown' % v, 'pow', v, n, w, lambda a, k, M=M: pow(a, k, M + 1)))
            h = w // 2
            for nm, e in (('dq', '(a.div_uint_half_times_pow_2(x,s),a)'), ('dr', '*a.div_uint_half_times_pow_2(x,s)')):
                t(nm, [pa, 'std::uint%d_t x' % h, 'std::size_t s'], da, e, po, wo)
                OPS.append(('%s_%s' % (v, nm), 'half', v, n, w, (lambda a, x, k: a // (x << k)) if nm == 'dq' else (lambda a, x, k: a % (x << k))))
            for k in sorted({1, 2, w // 2, w - 1, w, w + 1, N // 2, N - w, N - 1, N}):
                for nm, val in (('mask_trailing_ones', (1 << k) - 1), ('mask_leading_ones', M ^ ((1 << (N - k)) - 1)), ('mask_trailing_zeros', M ^ ((1 << k) - 1)), ('mask_leading_zeros', (1 << (N - k)) - 1)):
                    if k == N and 'zeros' in nm: continue
                    if nm == 'mask_leading_ones' and (N - k) % w + k % w != w and k % w: continue
                    t('%s_%d' % (nm, k), [], '', 'cs::%s<%s,%d>()' % (nm, T, k), po, wo)
                    OPS.append(('%s_%s_%d' % (v, nm, k), 'const', v, n, w, val))
        for nm, val in (('min', 1 << (N - 1) if s else 0), ('max', M >> 1 if s else M), ('one', 1), ('zero', 0), ('all_ones', M)):
            t(nm, [], '', '%s::%s()' % (T, nm), po, wo)
            OPS.append(('%s_%s' % (v, nm), 'const', v, n, w, val))
            if nm in ('min', 'max'):
                t('lim' + nm, [], '', 'std::numeric_limits<%s>::%s()' % (T, nm), po, wo)
                OPS.append(('%s_lim%s' % (v, nm), 'const', v, n, w, val))
        if not s:  # the truncated product of the upper halves
            t('qmulhi', [pa, pb], da + db, 'a.quick_mul_hi(b)', po, wo)
            OPS.append(('%s_qmulhi' % v, 'quick', v, n, w, lambda a, b, N=N: a * b >> N))
        for v2, (T2, w2, n2, s2) in TY.items():
            if v2 == v or (s and not s2 and n2 * w2 > N): continue
            po2, wo2 = fnout(w2, n2)
            DRV.append('extern "C" void w_%s_as_%s(%s,%s){%s %s r_(a);%s}' % (v, v2, pa, po2, da, T2, wo2))
            OPS.append(('%s_as_%s' % (v, v2), 'un', v, n2, w2, lambda a, M2=(1 << n2 * w2) - 1, S=S: S(a) & M2))
    # helpers on the built-in unsigned types
    for k, (I, iw, isg) in NI.items():
        if isg: continue
        M = (1 << iw) - 1
        for name, f in (('popcount', lambda a: bin(a).count('1')), ('countr_zero', lambda a, N=iw: N if a == 0 else bl(a & -a) - 1), ('countl_zero', lambda a, N=iw: N - bl(a)), ('countl_one', lambda a, N=iw, M=M: N - bl(~a & M)), ('countr_one', lambda a, N=iw, M=M: bl(~a & (a + 1)) - 1 if a != M else N), ('bit_width', bl), ('has_single_bit', lambda a: int(bin(a).count('1') == 1))):
            DRV.append('extern "C" int w_%s_%s(%s a){return (int)cs::%s<%s>(a);}' % (k, name, I, name, I))
            OPS.append(('%s_%s' % (k, name), 'nat', iw, 0, 32, f))
        DRV.append('extern "C" %s w_%s_bit_ceil(%s a){return cs::bit_ceil<%s>(a);}' % (I, k, I, I))
        OPS.append(('%s_bit_ceil' % k, 'ceil', iw, 0, iw, lambda a: 1 if a < 2 else 1 << bl(a - 1)))
        for name, sg in (('rotl', 1), ('rotr', -1)):
            DRV.append('extern "C" %s w_%s_%s(%s a,int s){return cs::%s<%s>(a,s);}' % (I, k, name, I, name, I))
            OPS.append(('%s_%s' % (k, name), 'natrot', iw, 0, iw, lambda a, c, N=iw, M=M, sg=sg: (a << (c * sg % N) | a >> (N - c * sg % N)) & M))


def words(v, w, n): return [[[v >> (i * w) & ((1 << w) - 1)] * 2] for i in range(n)]


def qs():
    r = []
    rnd = random.Random(25)
    seen = {}

    def q(fn, args, ex):
        seen[fn] = seen.get(fn, 0) + 1
        r.append(Q('%s#%d' % (fn, seen[fn]), 'w_' + fn, args, ex))
    vals = {}
    for v, (T, w, n, s) in TY.items():
        N = w * n
        M = (1 << N) - 1
        a = {0, 1, 2, 3, 10, M, M - 1, M >> 1, (M >> 1) + 1, (M >> 1) + 2, M ^ (M >> 1), 0x5555 << (N - 16), (1 << w) - 1, 1 << w, (1 << w) + 1, M ^ ((1 << w) - 1), (1 << (N - w)) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, 1 << (w // 2), (1 << (w // 2)) - 1, M - (1 << w) + 1, 1 << (N - w), (1 << (N - w)) + 1, M - (1 << (N - w))}
        for i in range(n): a |= {((1 << w) - 1) << (i * w), 1 << (i * w + w // 2), 1 << (i * w + w - 1)}
        while len(a) < 52:
            x = 0
            for i in range(n): x |= rnd.choice([0, 1, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), rnd.getrandbits(w), rnd.getrandbits(w), rnd.getrandbits(w // 2), (1 << w) - 1 - rnd.getrandbits(w // 2)]) << (i * w)
            a.add(x & M)
        vals[v] = sorted(a)
    P = {'ptr': 8}
    for fn, kind, v, no, w, f in OPS:
        outs = lambda val, first: [ret([[val >> (i * w) & ((1 << w) - 1)] * 2], 'mem%d' % (first + i)) for i in range(no)]
        if kind == 'const': q(fn, [P] * no, outs(f, 0)); continue
        if kind in ('nat', 'ceil', 'natrot'):
            N = v
            M = (1 << N) - 1
            A = list(range(256)) if N == 8 else sorted({0, 1, 2, 3, M, M - 1, M >> 1, (M >> 1) + 1} | {1 << i for i in range(N)} | {(1 << i) - 1 for i in range(N)} | {M ^ ((1 << i) - 1) for i in range(N)} | {M ^ (1 << i) for i in range(N)} | {rnd.getrandbits(N) for _ in range(60)})
            for a in A:
                if kind == 'ceil' and a > 1 << (N - 1): continue
                if kind == 'natrot':
                    for k in (0, 1, 2, 3, N // 2, N - 1, N, N + 1, 2 * N + 3, -1, -2, -(N // 2), -N + 1, -N, -N - 1, 1000, -1000): q(fn, [[[a, a]], [[k & 0xffffffff] * 2]], [ret([[f(a, k)] * 2])])
                else: q(fn, [[[a, a]]], [ret([[f(a)] * 2])])
            continue
        if kind == 'of':
            iw, isg = v
            M = (1 << iw) - 1
            for x in sorted({0, 1, 2, M, M - 1, M >> 1, (M >> 1) + 1, 0x5a & M} | {1 << i for i in range(iw)} | {M ^ (1 << i) for i in range(iw)}): q(fn, [[[x, x]]] + [P] * no, outs(f(x), 1))
            continue
        T, wi, n, s = TY[v]
        N = wi * n
        A = vals[v]
        if kind in ('bin', 'binr', 'div', 'quick'):
            for i, a in enumerate(A):
                for j, b in enumerate(A):
                    if kind == 'div' and (b == 0 or (s and b == (1 << N) - 1 and a == 1 << (N - 1)) or (i + 2 * j) % 3): continue
                    if kind != 'binr' and (i * 7 + j) % (1 if fn.endswith(('_add', '_sub', '_mul', '_fulmul')) else 3): continue
                    args = words(a, wi, n) + words(b, wi, n)
                    if kind == 'binr': q(fn, args, [ret([[f(a, b)] * 2])]); continue
                    if kind == 'quick':
                        e = f(a, b)
                        lo = max(0, e - n + 1)
                        if lo >> wi == e >> wi: q(fn, args + [P] * no, [ret([[lo & ((1 << wi) - 1), e & ((1 << wi) - 1)]], 'mem%d' % (2 * n))] + outs(e, 2 * n)[1:])
                        continue
                    q(fn, args + [P] * no, outs(f(a, b), 2 * n))
        elif kind in ('un', 'unr'):
            for a in A + [1 << i for i in range(N)] + [(1 << N) - 1 >> i for i in range(1, N)] + [((1 << N) - 1) ^ (1 << i) for i in range(N)]:
                if kind == 'unr': q(fn, words(a, wi, n), [ret([[f(a)] * 2])])
                else: q(fn, words(a, wi, n) + [P] * no, outs(f(a), n))
        elif kind in ('sh', 'shr', 'rot'):
            for i, a in enumerate(A):
                ks = set(range(i % 3, N, 3 if i > 6 else 1)) | {0, 1, wi - 1, wi, wi + 1, N - wi, N - 1, N // 2}
                if kind == 'rot': ks = {k * g for k in ks for g in (1, -1)} | {N, -N, N + 5, -N - 5}
                for k in sorted(k for k in ks if kind == 'rot' or k < N):
                    args = words(a, wi, n) + [[[k & (0xffffffff if kind == 'rot' else (1 << 64) - 1)] * 2]]
                    if kind == 'shr': q(fn, args, [ret([[f(a, k)] * 2])])
                    else: q(fn, args + [P] * no, outs(f(a, k), n + 1))
        elif kind == 'word':
            for a in A:
                for x in (0, 1, 3, (1 << wi) - 1, 1 << (wi - 1), rnd.getrandbits(wi), rnd.getrandbits(wi)):
                    e, c = f(a, x)
                    q(fn, words(a, wi, n) + [[[x, x]]] + [P] * no, outs(e, n + 1) + [ret([[c, c]])])
        elif kind == 'pow':
            for a in A[::2]:
                for k in (0, 1, 2, 3, 5, 8, 13, 31, 64, 100): q(fn, words(a, wi, n) + [[[k, k]]] + [P] * no, outs(f(a, k), n + 1))
        elif kind == 'half':
            H = (1 << wi // 2) - 1
            for i, a in enumerate(A):
                for x in (1, 2, 3, 10, H, H - 1, (H >> 1) + 1, rnd.getrandbits(wi // 2) | 1):
                    for k in sorted({0, 1, wi // 2 - 1, wi // 2, wi // 2 + 1, wi - 1, wi, wi + 1, N - wi, N - wi // 2, N - 1, N, (7 * i) % N}):
                        if k > N: continue
                        q(fn, words(a, wi, n) + [[[x, x]], [[k, k]]] + [P] * no, outs(f(a, x, k), n + 2))
    return r


def boxes():
    """blocks of operands: identities that hold for every value"""
    r = []
    P = {'ptr': 8}
    for v, (T, w, n, s) in TY.items():
        top = [[0, (1 << w) - 1]]
        z = [[0, 0]]
        A = [top] * n
        Z = [z] * n
        O = [P] * n
        same = [{'out': 'mem%d' % (2 * n + i), 'aff': [[i, 0]]} for i in range(n)]
        for op in ('add', 'sub', 'or', 'xor', 'addm', 'subm', 'addeq', 'subeq'): r.append(Q('%s_%s(x,0)' % (v, op), 'w_%s_%s' % (v, op), A + Z + O, same))
        r.append(Q('%s_and(x,0)' % v, 'w_%s_and' % v, A + Z + O, [ret(z, 'mem%d' % (2 * n + i)) for i in range(n)]))
        r.append(Q('%s_and(x,-1)' % v, 'w_%s_and' % v, A + [[[(1 << w) - 1] * 2]] * n + O, same))
        for op in ('shl', 'shr', 'shleq', 'shreq'):
            r.append(Q('%s_%s(x,0)' % (v, op), 'w_%s_%s' % (v, op), A + [z] + O, [{'out': 'mem%d' % (n + 1 + i), 'aff': [[i, 0]]} for i in range(n)]))
            for k in range(1, n):
                e = []
                for i in range(n):
                    j = i - k if 'shl' in op else i + k
                    if 0 <= j < n: e.append({'out': 'mem%d' % (n + 1 + i), 'aff': [[j, 0]]})
                    elif 'shl' in op or not s: e.append(ret(z, 'mem%d' % (n + 1 + i)))
                r.append(Q('%s_%s(x,%d words)' % (v, op, k), 'w_%s_%s' % (v, op), A + [[[k * w, k * w]]] + O, e))
        for v2, (T2, w2, n2, s2) in TY.items():
            if v2 == v or w2 != w or (s and not s2 and n2 > n): continue
            r.append(Q('%s_as_%s(x)' % (v, v2), 'w_%s_as_%s' % (v, v2), A + [P] * n2, [{'out': 'mem%d' % (n + i), 'aff': [[i, 0]]} for i in range(min(n, n2))] + ([ret(z, 'mem%d' % (n + i)) for i in range(n, n2)] if not s else [])))
    return r


def doubles():
    """error-free sums and products: r.hi is the rounded result and r.hi + r.lo is exact"""
    DRV.append('extern "C" void w_dd_add(double a,double b,double*h,double*l){auto r=exact_add(a,b);*h=r.hi;*l=r.lo;}')
    DRV.append('extern "C" void w_dd_mul(double a,double b,double*h,double*l){auto r=exact_mult(a,b);*h=r.hi;*l=r.lo;}')
    DRV.append('extern "C" void w_dd_split(double a,double*h,double*l){auto r=split(a);*h=r.hi;*l=r.lo;}')
    DRV.append('extern "C" double w_dd_fma(double a,double b,double c){return exact_fma(a,b,c);}')
    f = F['d']
    rnd = random.Random(7)
    r = []
    P = {'ptr': 8}

    def near(x): return f.frac(f.enc(x)) if x else Fraction(0)

    def pt(x): return [[f.enc(x)] * 2] if x else f.zeros() if False else [[0, 0]]
    zz = lambda x: [[f.enc(x)] * 2] if x else f.zeros()

    def num(lo, hi): return Fraction(rnd.getrandbits(52) | 1 << 52) * Fraction(2) ** (rnd.randrange(lo, hi) - 52) * rnd.choice((1, -1))
    for k in range(400):
        a, b = num(-60, 60), num(-60, 60)
        if k % 4 == 1: b = num(-2, 2); a = num(-2, 2)
        if k % 4 == 2: a = Fraction(rnd.randrange(1, 1 << 20)); b = Fraction(rnd.randrange(1, 1 << 30), 1 << 20)
        if abs(a) < abs(b): a, b = b, a
        h = near(a + b)
        r.append(Q('exact_add#%d' % k, 'w_dd_add', [pt(a), pt(b), P, P], [ret(zz(h), 'mem2'), ret(zz(a + b - h), 'mem3')]))
        h = near(a * b)
        r.append(Q('exact_mult#%d' % k, 'w_dd_mul', [pt(a), pt(b), P, P], [ret(zz(h), 'mem2'), ret(zz(a * b - h), 'mem3')]))
        c = num(-80, 80) if k % 3 else -near(a * b)
        r.append(Q('exact_fma#%d' % k, 'w_dd_fma', [pt(a), pt(b), pt(c)], [ret(zz(near(a * b + c)))]))
        m = abs(a)
        r.append(Q('split#%d' % k, 'w_dd_split', [pt(m), P, P], [{'out': 'mem1', 'in': f.rng(m * (1 - Fraction(1, 2 ** 26)), m * (1 + Fraction(1, 2 ** 26)))}]))
    return r


def run():
    define()
    Qs = qs() + boxes() + doubles()
    return std('P25', 'Every operation of BigInt (128 to 256 bits, 32- and 64-bit words, signed and unsigned), of the bit helpers and of the error-free double sums is evaluated abstractly on operands with every carry and sign pattern, and on blocks of all operands for the identities; the result must be the exact integer modulo 2^N (the exactly rounded value and its exact remainder for the sums).', Qs, IMGS, [], skip=(lambda im, q: im == 'gcc' and '#' in q['id'] and int(q['id'].split('#')[1]) % 5) if TIER == 'quick' else None, drv='\n'.join(DRV) + '\n')


if __name__ == '__main__': main(run)
