"""P07 classification predicates are exact on every bit pattern."""
from lib import *
import math
K = {'NAN': 0, 'INFINITE': 1, 'ZERO': 2, 'SUBNORMAL': 3, 'NORMAL': 4}  # glibc FP_*


def qs():
    r = []
    B0, B1 = [[0, 0]], [[1, 1]]
    for c in FS:
        f = F[c]
        cl = {'NAN': [[f.inf + 1, f.sign - 1]], 'INFINITE': f.pinf(), 'ZERO': f.pz(), 'SUBNORMAL': f.psub(), 'NORMAL': f.pnorm()}
        for k, iv in cl.items():
            for sg in (0, 1):
                lo, hi = iv[0]
                edge = sorted({lo, f.nxt(lo), f.prv(hi), hi}) if hi > lo else []
                for iv in ([iv] + [[[v, v]] for v in edge if lo <= v <= hi]):
                  box = f.neg_of(iv) if sg else iv
                  t = lambda fn, ok: r.append(Q('%s_%s(%s%s%s)' % (fn, c, '-' if sg else '+', k, ' %x' % iv[0][0] if iv[0][0] == iv[0][1] else ''), 'w_%s_%s' % (fn, c), [box], [ret(ok)]))
                  t('isnan', B1 if k == 'NAN' else B0)
                  t('isinf', B1 if k == 'INFINITE' else B0)
                  t('isfinite', B1 if k in ('ZERO', 'SUBNORMAL', 'NORMAL') else B0)
                  t('isnormal', B1 if k == 'NORMAL' else B0)
                  t('signbit', B1 if sg else B0)
                  t('fpclassify', [[K[k], K[k]]])
    return r


def run():
    return std('P07', 'On each of the ten class/sign partitions of the encoding (NaN, inf, zero, subnormal, normal; both signs) the abstract result of each predicate must be the one value of the definition.', qs(), ['ce', 'rt', 'gcc', 'gccce', 'det', 'gccdet'], ['isnan', 'isinf', 'isfinite', 'isnormal', 'signbit', 'fpclassify'])


if __name__ == '__main__': main(run)
