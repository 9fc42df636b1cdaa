"""P08 comparison predicates."""
from lib import *
LT, EQ, GT, UN_ = 1, 2, 3, 0
T = {'isgreater': (GT,), 'isgreaterequal': (GT, EQ), 'isless': (LT,), 'islessequal': (LT, EQ), 'islessgreater': (LT, GT), 'isunordered': (UN_,)}


def qs():
    r = []
    for c in FS:
        f = F[c]
        X, N, A = f.nonnan(), f.nan(), f.all()
        for fn, tr in T.items():
            w = 'w_%s_%s' % (fn, c)
            for rel, nm in ((LT, 'x<y'), (EQ, 'x==y'), (GT, 'x>y')):
                r.append(Q('%s_%s(%s)' % (fn, c, nm), w, [X, X], [ret([[1, 1]] if rel in tr else [[0, 0]])], rel=rel))
            v = [[1, 1]] if UN_ in tr else [[0, 0]]
            r.append(Q('%s_%s(+0,-0)' % (fn, c), w, [f.zeros(), f.zeros()], [ret([[1, 1]] if EQ in tr else [[0, 0]])]))
            r.append(Q('%s_%s(nan,y)' % (fn, c), w, [N, A], [ret(v)]))
            r.append(Q('%s_%s(x,nan)' % (fn, c), w, [A, N], [ret(v)]))
        key = lambda v: (-(v & ~f.sign) if v & f.sign else v)
        for x in f.edges():  # every order type again at the edges, where an argument must be told from its neighbour
            for y in f.edges():
                o = EQ if key(x) == key(y) else LT if key(x) < key(y) else GT
                for fn, tr in T.items():
                    v = 1 if o in tr else 0
                    r.append(Q('%s_%s(%x,%x)' % (fn, c, x, y), 'w_%s_%s' % (fn, c), [[[x, x]], [[y, y]]], [ret([[v, v]])]))
    return r


def run():
    return std('P08', 'Operands are used only through comparisons, so the finite set of order types (x<y, x==y, x>y, signed zeros, unordered) covers all inputs; each must give the truth value of the predicate.', qs(), ['ce', 'rt', 'gcc', 'gccce', 'det', 'gccdet'], list(T))


if __name__ == '__main__': main(run)
