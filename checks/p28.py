"""P28 nan(tag) is a quiet, positive NaN for every tag, and carries a numeric tag as its payload."""
from lib import *
import random
IMGS = ['rt', 'ce', 'gcc', 'gccce', 'det', 'gccdet']
N = 18
DRV = '#include <ccmath/ccmath.hpp>\n' + '\n'.join('extern "C" %s w_nan_%s(%s){const char s[]={%s,0};return ccm::nan%s(s);}' % (
    T, c, ','.join('char c%d' % i for i in range(N)), ','.join('c%d' % i for i in range(N)), x) for T, c, x in (('float', 'f', 'f'), ('double', 'd', ''), ('long double', 'l', 'l')))


def qs():
    r = []
    rnd = random.Random(28)
    for c in FS:
        f = F[c]
        quiet = f.inf | 1 << (f.p - 2)
        pay = f.p - 2

        def tag(s, ex, **k):
            b = [ord(x) for x in s] + [0] * (N - len(s))
            r.append(Q('nan_%s("%s")' % (c, s), 'w_nan_%s' % c, [[[v, v]] for v in b], [ret(ex)], **k))
        tag('', [[quiet, quiet]])
        lim = min(1 << pay, 10 ** 7 if c == 'f' else 10 ** 14)
        nums = {0, 1, 7, 9, 10, 15, 16, 99, 255, 256, 1000, 4095, 65535, 65536, lim - 1, lim // 2} | {rnd.randrange(lim) for _ in range(24)} | {10 ** k for k in range(15) if 10 ** k < lim} | {2 ** k for k in range(pay) if 2 ** k < lim}
        nums = sorted(x for x in nums if x < lim)
        for v in nums:
            tag(str(v), [[quiet | v] * 2])
            h = '%x' % v
            if len(h) < (7 if c == 'f' else 15):
                tag('0x' + h, [[quiet | v] * 2])
                tag('0X' + h.upper() + '', [[quiet | v] * 2]) if any(x.isalpha() for x in h) else 0
        for s in ('x', 'abc', '-1', '+1', '12a', 'a12', ' 1', '1 ', '1.5', '0b1', '1e3', 'inf', 'nan'): tag(s, [[quiet, quiet]])
        # longer than the payload: still quiet, still positive, still a NaN
        anyq = [[quiet, f.sign - 1]]
        for s in ('9' * 9, '9' * 16, '9' * 17, '1' + '0' * 16, '0x' + 'f' * 8, '0x' + 'f' * 9, '0x' + 'f' * 15, '0x' + 'f' * 16, '0x8000000000000000', '0x7fffffffffffffff', '0x80000000', '0x7fffffff', '4294967295', '18446744073709551'): tag(s, anyq)
        for k in range(10): tag('0x' + ''.join(rnd.choice('0123456789abcdefABCDEF') for _ in range(rnd.randrange(6, 17))), anyq)
        # tags of unknown characters: decimal digits, hexadecimal digits, anything
        for n in (1, 2, 3, 4, 6):
            D = [[48, 57]]
            r.append(Q('nan_%s(%d decimal digits)' % (c, n), 'w_nan_%s' % c, [D] * n + [[[0, 0]]] * (N - n), [ret([[quiet, quiet + 10 ** n - 1]])], budget=200))
            H = [[48, 57], [97, 102], [65, 70]]
            r.append(Q('nan_%s(%d hex digits)' % (c, n), 'w_nan_%s' % c, [[[48, 48]], [[120, 120]]] + [H] * n + [[[0, 0]]] * (N - n - 2), [ret(anyq if n == 6 and c == 'f' else [[quiet, quiet + 16 ** n - 1]])], budget=200))
            r.append(Q('nan_%s(%d characters)' % (c, n), 'w_nan_%s' % c, [[[1, 255]]] * n + [[[0, 0]]] * (N - n), [ret(anyq)], budget=200))
        for n in (1, 3):
            r.append(Q('nan_%s(%d non-digits)' % (c, n), 'w_nan_%s' % c, [[[1, 47], [58, 255]]] * n + [[[0, 0]]] * (N - n), [ret([[quiet, quiet]])], budget=200))
    return list({q["id"]: q for q in reversed(r)}.values())


def run():
    return std('P28', 'For nanf, nan and nanl in every build image the abstract result over constant and unknown tag characters must be a quiet NaN with a clear sign bit; a decimal or 0x numeral that fits the payload must be the payload, and a tag that is no numeral must give the plain quiet NaN.', qs(), IMGS, [], drv=DRV)


if __name__ == '__main__': main(run)
