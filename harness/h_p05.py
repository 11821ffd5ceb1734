"""Partitions: corners, strips and the enumerations of partitions and compositions."""
import itertools
from partitions import Partition
from ref import ite, part, nth, padded, is_part, is_strict_part, trimmed, members

BOUNDS = ('corner operations: up to 5 parts, parts all integers (up to 5 where a set of boxes is built); enumerations: sizes up to 8, '
          'up to 4 parts with parts up to 5; the compared candidate is a tuple of arbitrary integers; every enumeration for one of 8 (thorough 11) shapes of up to 9 boxes after any enumeration '
          'for any of 11 shapes')
OUTSIDE = 'longer partitions, larger sizes'


def box_removed(mu, row):
    return Partition.trim(tuple(mu[:row - 1]) + (mu[row - 1] - 1,) + tuple(mu[row:]))


def plain_trim(x):
    x = tuple(x)
    while len(x) and x[-1] == 0:
        x = x[:-1]
    return x


def dec(mu, rows):
    return plain_trim(tuple(a - (1 if i + 1 in rows else 0) for i, a in enumerate(mu)))


def inner(sx, n, strict):
    mu = part(sx, 'm', n, strict=strict)
    row = sx.pick('row', 1, n)
    nxt = mu[row] if row < n else 0
    gap = mu[row - 1] - nxt
    if strict:
        ok = (gap > 1) or (row == n)
        got = Partition.remove_shifted_inner_corner(mu, row)
        if ok:
            sx.check(got == dec(mu, [row]), 'removing a removable box')
        else:
            sx.check(got is None, 'a box that is not removable')
    else:
        ok = gap > 0
        if ok:
            sx.check(Partition.remove_inner_corner(mu, row) == dec(mu, [row]), 'removing a removable box')
        else:
            sx.check(sx.raises(Exception, lambda: Partition.remove_inner_corner(mu, row)), 'a box that is not removable')


def inners(sx, n, strict):
    mu = part(sx, 'm', n, strict=strict)
    f = Partition.remove_shifted_inner_corners if strict else Partition.remove_inner_corners
    got = list(f(mu))
    rows = []
    for r in range(1, n + 1):
        nxt = mu[r] if r < n else 0
        if (mu[r - 1] - nxt > 1 or r == n) if strict else (mu[r - 1] > nxt):
            rows.append(r)
    want = [dec(mu, s) for k in range(len(rows) + 1) for s in itertools.combinations(rows, k)]
    sx.check(len(got) == len(want), 'one result for each set of removable boxes')
    for w in want:
        sx.check(any(g == w for g in got), 'each set of removable boxes is removed')


def shifted_corners(sx, n, top):
    mu = part(sx, 'm', n, strict=True, top=top)
    d = sx.pick('d', 0, top + 1)
    got = Partition.find_shifted_inner_corner(mu, d)
    # inner corner: a last box (i, i + d) of the diagonal whose right and lower neighbours are missing
    want = None
    for r in range(1, n + 1):
        end = mu[r - 1] - 1
        nxt = mu[r] if r < n else 0
        if (end == d) and ((mu[r - 1] - nxt > 1) or r == n):
            want = r
    sx.check(got == want, 'removable box on a diagonal')
    out = Partition.find_shifted_outer_corner(mu, d)
    want = None
    for r in range(1, n + 2):
        a = mu[r - 1] if r <= n else 0
        if (a == d) and (r == 1 or mu[r - 2] > a + 1):
            want = r
    sx.check(out == want, 'addable box on a diagonal')


def addcol(sx, n, top, shift):
    mu = part(sx, 'm', n, strict=shift, top=top)
    col = sx.pick('col', 1, top + 2)
    rows = [i for i in range(1, n + 1) if ((i <= col and col <= mu[i - 1] + i - 1) if shift else (col <= mu[i - 1]))]
    row = max(rows) + 1 if rows else 1
    cur = nth(mu, row)
    first = row if shift else 1
    ok = (row <= n + 1) and (col == first + cur)
    if ok:
        got = Partition.add_box_to_column(mu, col, shift)
        k = sx.int('k', 1, n + 2)
        sx.check(nth(got, k) == nth(mu, k) + (1 if k == row else 0), 'a box is added at the foot of the column')
        sx.check(trimmed(got) and type(got) == tuple, 'trimmed')
    else:
        sx.check(sx.raises(AssertionError, lambda: Partition.add_box_to_column(mu, col, shift)), 'a column that cannot take a box')


def decrement(sx, n):
    mu = part(sx, 'm', n, strict=True)
    got = Partition.decrement_strict(mu)
    r = 1
    while r < n and mu[r] == mu[r - 1] - 1:
        r += 1
    # the run of consecutive parts at the start loses one box in each row
    sx.check(got == dec(mu, list(range(1, r + 1))), 'the leading run of consecutive parts drops by one')
    one = Partition.decrement_one(mu)
    sx.check(one == dec(mu, [r]), 'the first removable box is removed')


# ---------------------------------------------------------------- enumerations

def generate(sx, n, strict, even):
    maxpart = sx.pick('mp', 0, n + 1)
    maxrow = sx.pick('mr', 0, n + 1)
    # n + 1 stands for "no bound"
    kw = {}
    if maxpart <= n:
        kw['max_part'] = maxpart
    if maxrow <= n:
        kw['max_row'] = maxrow
    L = n if n else 1
    x = [sx.int('x%d' % i) for i in range(L)]
    pred = (is_strict_part(x) if strict else is_part(x)) and sum(x) == n and all(a <= maxpart for a in x) and \
        sum(1 if a > 0 else 0 for a in x) <= maxrow and all((not even) or a % 2 == 0 for a in x)
    got = list(Partition.generate(n, strict=strict, even_parts=even, **kw))
    members(sx, got, x, pred, 'partitions of n')
    again = list(Partition.generate(n, strict=strict, even_parts=even, **kw))
    sx.check(got == again, 'the same on a second call')


def generate_history(sx, n):
    """a previous differently-bounded enumeration does not leak into this one"""
    p1, r1 = sx.pick('p1', 1, n + 1), sx.pick('r1', 1, n + 1)
    p2, r2 = sx.pick('p2', 1, n + 1), sx.pick('r2', 1, n + 1)
    s1, s2 = sx.choose('s1', [False, True]), sx.choose('s2', [False, True])
    list(Partition.generate(n, max_part=p1, max_row=r1, strict=s1))
    got = list(Partition.generate(n, max_part=p2, max_row=r2, strict=s2))
    x = [sx.int('x%d' % i) for i in range(n)]
    pred = (is_strict_part(x) if s2 else is_part(x)) and sum(x) == n and all(a <= p2 for a in x) and \
        sum(1 if a > 0 else 0 for a in x) <= r2
    members(sx, got, x, pred, 'partitions of n after another enumeration')


def everything(sx, n, strict):
    x = [sx.int('x%d' % i) for i in range(max(n, 1))]
    pred = (is_strict_part(x) if strict else is_part(x)) and sum(x) <= n
    members(sx, list(Partition.all(n, strict=strict)), x, pred, 'partitions of size at most n')


def subpartitions(sx, n, top, strict, m):
    mu = part(sx, 'm', n, strict=strict, top=top)
    nu = part(sx, 'v', m, strict=strict)
    for k in range(m):
        sx.assume(nu[k] <= mu[k])
    got = list(Partition.subpartitions(mu, nu, strict))
    x = [sx.int('x%d' % i) for i in range(n)]
    pred = (is_strict_part(x) if strict else is_part(x)) and all((nth(nu, i + 1) <= x[i]) and (x[i] <= mu[i]) for i in range(n))
    members(sx, got, x, pred, 'partitions between nu and mu')
    if not m:
        members(sx, list(Partition.subpartitions(list(mu), (), strict)), x, pred, 'subpartitions of a list')


def successors(sx, n, strict):
    mu = part(sx, 'm', n, strict=strict)
    got = list(Partition.successors(mu, strict))
    x = [sx.int('x%d' % i) for i in range(n)]
    pred = (is_strict_part(x) if strict else is_part(x)) and all((x[i] == mu[i]) or (x[i] == mu[i] + 1) for i in range(n))
    members(sx, got, x, pred, 'partitions with at most one more box in each row')


def compositions(sx, n):
    got = Partition.compositions(n)
    L = max(n, 1)
    x = [sx.int('x%d' % i) for i in range(L)]
    live = all((x[i] > 0) or (x[i] == 0 and x[i + 1] == 0) for i in range(L - 1)) and x[L - 1] >= 0 and sum(x) == n
    members(sx, got, x, live, 'compositions of n')
    peak = all((x[i] >= 2) or (x[i + 1] == 0) for i in range(L - 1))
    members(sx, Partition.peak_compositions(n), x, live and peak, 'peak compositions of n')


def ribbons_below(sx, n, top):
    mu = part(sx, 'm', n, strict=True, top=top)
    x = [sx.int('x%d' % i) for i in range(n)]
    pred = is_strict_part(x) and all((nth(mu, i + 2) <= x[i]) and (x[i] <= mu[i]) for i in range(n))
    members(sx, list(Partition.shifted_ribbon_complements(mu)), x, pred, 'mu minus a shifted ribbon')
    first = list(Partition.decompose_shifted_shape_by_rims(mu))
    members(sx, first, x, pred, 'mu minus a rim')
    vs = is_strict_part(x) and all((mu[i] - 1 <= x[i]) and (x[i] <= mu[i]) for i in range(n))
    members(sx, list(Partition.decompose_shifted_shape_by_vertical_strips(mu)), x, vs, 'mu minus a vertical strip')
    sx.check(list(Partition.decompose_shifted_shape_by_rims(mu)) == first, 'the same on a second call')


def ribbon_pairs(sx, n):
    got = list(Partition.shifted_ribbons(n))
    L = max(n, 1)
    x = [sx.int('x%d' % i) for i in range(L)]
    y = [sx.int('y%d' % i) for i in range(L)]
    pred = is_strict_part(x) and is_strict_part(y) and x[0] == n and \
        all((nth(x, i + 2) <= y[i]) and (y[i] <= x[i]) for i in range(L))
    members(sx, [padded(a, L) + padded(b, L) for a, b in got], x + y, pred, 'pairs of shapes differing by a shifted ribbon', False)


def rims(sx, n, top, bound):
    mu = part(sx, 'm', n, strict=True, top=top)
    got = list(Partition.rims(mu, bound))
    x = [sx.int('x%d' % i) for i in range(n + 1)]
    # outer shapes lam containing mu with no two boxes of lam/mu on a common diagonal step
    pred = is_strict_part(x) and x[0] <= nth(mu, 1) + bound and \
        all((x[i] >= nth(mu, i + 1)) for i in range(n + 1)) and all(x[i + 1] <= nth(mu, i + 1) for i in range(n))
    lams = []
    for r in got:
        boxes = sorted(r)
        sx.check(list(r) == boxes, 'sorted boxes')
        lam = [nth(mu, i + 1) for i in range(n + 1)]
        for i, j in boxes:
            sx.check(j == i + lam[i - 1], 'boxes extend the rows of mu')
            lam[i - 1] += 1
        lams.append(tuple(lam))
    for i in range(len(lams)):
        for j in range(i):
            sx.check(lams[i] != lams[j], 'no repetition')
    sx.check(any(all(a == b for a, b in zip(p, x)) for p in lams) == pred, 'every rim is listed')


POOL = [(), (1,), (2,), (2, 1), (3,), (3, 1), (3, 2), (3, 2, 1), (4, 2), (5, 3, 1), (4, 3)]


def runs(op, mu):
    if op == 'rims':
        return [list(Partition.rims(mu, b)) for b in (0, 1, 2)]
    if op == 'by rims':
        return [list(Partition.decompose_shifted_shape_by_rims(mu))]
    if op == 'by strips':
        return [list(Partition.decompose_shifted_shape_by_vertical_strips(mu))]
    if op == 'ribbons':
        return [list(Partition.shifted_ribbon_complements(mu))]
    if op == 'sub':
        return [list(Partition.subpartitions(mu, (), strict=True)), list(Partition.subpartitions(mu, (), strict=False))]
    if op == 'up':
        return [list(Partition.successors(mu, True)), list(Partition.successors(mu, False))]
    if op == 'corners':
        return [list(Partition.remove_shifted_inner_corners(mu)), list(Partition.remove_inner_corners(mu))]
    if op == 'generate':
        n = sum(mu)
        return [list(Partition.generate(n, strict=True)), list(Partition.generate(n)), list(Partition.generate(n, max_part=len(mu) + 1)),
                list(Partition.generate(n, max_row=len(mu))), list(Partition.generate(n, even_parts=True)), list(Partition.compositions(n))]


OPS = ['rims', 'by rims', 'by strips', 'ribbons', 'sub', 'up', 'corners', 'generate']


def after(sx, op, big):
    """every enumeration for one shape after any enumeration for any shape"""
    first = sx.choose('first', [(o, m) for o in OPS for m in POOL])
    runs(*first)
    mu = sx.choose('mu', POOL if big else POOL[1:9])
    got = runs(op, mu)
    n = len(mu) + 1
    x = [sx.int('x%d' % i) for i in range(max(n, sum(mu)) if op == 'generate' else n)]
    low = all([a >= 0 for a in x])
    st = low & all([(x[i] > x[i + 1]) | ((x[i] == 0) & (x[i + 1] == 0)) for i in range(len(x) - 1)])
    pl = low & all([x[i] >= x[i + 1] for i in range(len(x) - 1)])
    at = [nth(mu, i + 1) for i in range(n + 1)]

    def box(lo, hi):
        return all([(lo[i] <= x[i]) & (x[i] <= hi[i]) for i in range(n)])
    zero = [0] * n
    if op == 'rims':
        for b in (0, 1, 2):
            up = [at[0] + b] + at[:n - 1]
            shapes = [tuple(at[i] + sum(1 for r, _ in rim if r == i + 1) for i in range(n)) for rim in got[b]]
            for rim, lam in zip(got[b], shapes):
                sx.check(sorted(rim) == list(rim) == [(i + 1, i + 1 + k) for i in range(n) for k in range(at[i], lam[i])], 'boxes of the rim')
            members(sx, shapes, x, st & box(at, up), 'rims', False)
    elif op in ('by rims', 'ribbons'):
        members(sx, got[0], x, st & box(at[1:], at), 'smaller shapes')
    elif op == 'by strips':
        members(sx, got[0], x, st & box([a - 1 for a in at], at), 'smaller shapes by strips')
    elif op == 'sub':
        members(sx, got[0], x, st & box(zero, at), 'strict subpartitions')
        members(sx, got[1], x, pl & box(zero, at), 'subpartitions')
    elif op == 'up':
        more = all([(at[i] <= x[i]) & (x[i] <= at[i] + 1) for i in range(n - 1)])
        members(sx, got[0], x[:n - 1], more & all([x[i] > x[i + 1] for i in range(n - 2)]), 'larger strict shapes')
        members(sx, got[1], x[:n - 1], more & all([x[i] >= x[i + 1] for i in range(n - 2)]), 'larger shapes')
    elif op == 'corners':
        corner = [at[i] - at[i + 1] > (1 if at[i + 1] else 0) for i in range(n)]
        members(sx, got[0], x, all([x[i] == at[i] if not corner[i] else (x[i] == at[i]) | (x[i] == at[i] - 1) for i in range(n)]), 'removing boxes, strict')
        corner = [at[i] > at[i + 1] for i in range(n)]
        members(sx, got[1], x, all([x[i] == at[i] if not corner[i] else (x[i] == at[i]) | (x[i] == at[i] - 1) for i in range(n)]), 'removing boxes')
    else:
        N = sum(mu)
        size = sum(x) == N
        rows = sum([ite(a > 0, 1, 0) for a in x])
        members(sx, got[0], x, st & size, 'strict partitions')
        members(sx, got[1], x, pl & size, 'partitions')
        members(sx, got[2], x, pl & size & (x[0] <= len(mu) + 1), 'partitions with small parts')
        members(sx, got[3], x, pl & size & (rows <= len(mu)), 'partitions with few parts')
        members(sx, got[4], x, pl & size & all([a % 2 == 0 for a in x]), 'even partitions')


def jobs(tier):
    out = []
    big = tier != 'quick'
    for n in range(0, 6):
        for st in (False, True):
            if n:
                out.append({'f': 'inner', 'args': [n, st]})
            if n < 5 or big:
                out.append({'f': 'inners', 'args': [n, st]})
            if n < 5:
                out.append({'f': 'successors', 'args': [n, st]})
        if n:
            out.append({'f': 'decrement', 'args': [n]})
    for n in range(0, 4):
        out.append({'f': 'shifted_corners', 'args': [n, 5]})
        for st in (False, True):
            out.append({'f': 'addcol', 'args': [n, 4, st]})
    for n in range(0, 7 if big else 6):
        for st in (False, True):
            out.append({'f': 'generate', 'args': [n, st, False]})
            if n < 5:
                out.append({'f': 'generate', 'args': [n, st, True]})
        out.append({'f': 'compositions', 'args': [n]})
    out.append({'f': 'generate_history', 'args': [3]})
    if big:
        out.append({'f': 'generate_history', 'args': [4]})
    for n in range(0, 7 + big):
        for st in (False, True):
            out.append({'f': 'everything', 'args': [n, st]})
    for n in range(0, 4):
        for m in range(0, n + 1):
            for st in (False, True):
                top = 4 if n < 3 else (4 if st else 3)
                if big or n < 3 or m < 2:
                    out.append({'f': 'subpartitions', 'args': [n, top + (1 if big else 0), st, m]})
        out.append({'f': 'ribbons_below', 'args': [n, 6 if big else 5]})
        for b in (0, 1, 2):
            if n < 3 or b < 2 or big:
                out.append({'f': 'rims', 'args': [n, 5 if n < 3 else 4, b]})
    for n in range(0, 5 + big):
        out.append({'f': 'ribbon_pairs', 'args': [n]})
    for op in OPS:
        out.append({'f': 'after', 'args': [op, big]})
    return out
