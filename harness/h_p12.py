"""Moving primed entries off the diagonal of shifted set-valued tableaux (and the column insertion behind it)."""
from insertion import InsertionAlgorithm
from tableaux import Tableau
from ref import ite, ind
from h_p11 import dbl, semistandard

BOUNDS = ('shifted set-valued tableaux of shape (1), (2), (3), (2,1), (3,1) (thorough (4), (3,2), (4,1), (3,2,1)) with up to 6 entries in all (up to 5 for shapes of '
          'four boxes; thorough one more), entries arbitrary nonzero integers, every arrangement of box sizes; '
          'and shapes of up to 10 boxes with entries bounded by 2 to 4 (see DEEP)')
OUTSIDE = 'larger shapes and more entries'


def cells(shape):
    return [(i + 1, i + j + 1) for i in range(len(shape)) for j in range(shape[i])]


def sizes(k, total):
    """box sizes >= 1 with the given total"""
    ans = [()] if total >= k else []
    for left in range(k, 0, -1):
        ans = [t + (a,) for t in ans for a in ([total - sum(t)] if left == 1 else range(1, total - sum(t) - left + 2))]
    return ans if k or not total else []


def tableau(sx, shape, total, top=None):
    """a semistandard shifted set-valued tableau, diagonal primes allowed, entries in a box in increasing order"""
    bs = cells(shape)
    sz = sx.choose('sizes', sizes(len(bs), total))
    ent = {}
    for b, k in zip(bs, sz):
        ent[b] = [sx.int('t%d%d%d' % (b[0], b[1], a), None if top is None else -top, top) for a in range(k)]
        for v in ent[b]:
            sx.assume(v != 0)
        for a in range(k - 1):
            sx.assume(ent[b][a] < ent[b][a + 1])
    for (i, j), v in ent.items():
        for b, row in (((i, j + 1), True), ((i + 1, j), False)):
            if b in ent:
                for x in v:
                    for y in ent[b]:
                        same = (x > 0) if row else (x < 0)
                        sx.assume((dbl(x) < dbl(y)) | ((x == y) & same))
    return Tableau({b: tuple(v) for b, v in ent.items()}), ent


def absolutes(t):
    return [ite(x > 0, x, -x) for _, _, v in t for x in v]


def count(xs, y):
    return sum([ind(x == y) for x in xs])


def unprime(sx, shape, total, top=None):
    t, ent = tableau(sx, shape, total, top)
    u = InsertionAlgorithm.unprime_diagonal(t)
    sx.check(all(t.boxes[b] == tuple(ent[b]) for b in ent) and len(t.boxes) == len(ent), 'the argument is not changed')
    nu = u.shape()
    sx.check(len(nu) == len(shape) and all(a <= b <= a + 1 for a, b in zip(shape, nu)), 'every row grows by at most one box')
    sx.check(set(u.boxes) == set(cells(nu)), 'a shifted shape')
    sx.check(semistandard(u, True), 'the result is semistandard')
    x, y = absolutes(t), absolutes(u)
    sx.check(len(x) == len(y) and all(count(x, a) == count(y, a) for a in x), 'the weight is kept')
    for i in range(1, len(nu) + 1):
        v = u.boxes[i, i]
        neg = [ite(a < 0, -a, 0) for a in v]
        sx.check((sum([ind(a < 0) for a in v]) <= 1), 'at most one prime in a diagonal box')
        for a in v:
            for b in v:
                sx.check(not ((a < 0) & (b > 0)) or (-a > b), 'a prime left beside other diagonal entries is the largest')
    sx.check(InsertionAlgorithm.unprime_diagonal(u) == u, 'a second application changes nothing')
    clean = True
    for i in range(1, len(shape) + 1):
        v = ent[i, i]
        for a in v:
            clean = clean & (a > 0)
    sx.check(not clean or (u == t), 'nothing happens without diagonal primes')


# larger shapes over few letters: shape, entries beyond one a box, largest letter
DEEP = [((4,), 1, 3), ((3, 2), 0, 3), ((3, 2), 1, 2), ((4, 1), 1, 2), ((3, 2, 1), 0, 3), ((4, 2), 0, 3), ((3, 2, 1), 1, 3), ((4, 2), 1, 2), ((4, 3, 1), 0, 3),
        ((4, 3, 2), 0, 3), ((5, 2), 1, 2), ((3, 2), 2, 2), ((4, 3, 2, 1), 0, 4)]
DEEPER = [((4, 2), 1, 3), ((3, 2, 1), 2, 3), ((4, 3, 1), 1, 3), ((3, 2), 2, 3), ((5, 4, 2), 0, 3), ((4, 3, 2, 1), 1, 4)]


def jobs(tier):
    out = []
    big = tier != 'quick'
    for shape, tot in [((1,), 5), ((2,), 5), ((3,), 5), ((2, 1), 6), ((3, 1), 5)] + ([((4,), 6), ((3, 2), 6), ((4, 1), 6), ((3, 2, 1), 7)] if big else []):
        for n in range(sum(shape), tot + 1 + (big and sum(shape) < 5)):
            out.append({'f': 'unprime', 'args': [list(shape), n]})
    for shape, extra, top in DEEP + (DEEPER if big else []):
        out.append({'f': 'unprime', 'args': [list(shape), sum(shape) + extra, top]})
    return out
