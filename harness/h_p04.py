"""Partitions and Young diagrams: elementary operations."""
from partitions import Partition
from ref import part, nth, padded, is_part, is_strict_part, trimmed

BOUNDS = ('up to 5 parts; parts, indices and box coordinates are all integers where the operation is arithmetic; parts up to 4 (or 5) '
          'where the operation builds a set of boxes')
OUTSIDE = 'longer partitions; larger parts in the diagram-building operations'


def trim(sx, n, aslist):
    xs = [sx.int('x%d' % i) for i in range(n)]
    got = Partition.trim(list(xs) if aslist else tuple(xs))
    sx.check(type(got) == tuple, 'trim returns a tuple')
    m = n
    while m > 0 and xs[m - 1] == 0:
        m -= 1
    sx.check(got == tuple(xs[:m]), 'trim removes exactly the trailing zeros')


def sort(sx, n, trimflag):
    xs = [sx.int('x%d' % i, 0) for i in range(n)]
    q = sx.int('q')
    got = Partition.sort(list(xs), trim=trimflag)
    sx.check(all(got[i] >= got[i + 1] for i in range(len(got) - 1)), 'sorted decreasingly')
    cnt = sum(1 if a == q else 0 for a in xs)
    have = sum(1 if a == q else 0 for a in got)
    if trimflag:
        sx.check(trimmed(got), 'trimmed')
        sx.check((q == 0) or (have == cnt), 'a rearrangement of the nonzero parts')
    else:
        sx.check(have == cnt and len(got) == n, 'a rearrangement of the parts')


def lookup(sx, n):
    mu = part(sx, 'm', n, floor=0)
    i, j = sx.int('i'), sx.int('j')
    sx.check(Partition.get(mu, i) == nth(mu, i), 'part lookup is zero outside')
    sx.check(Partition.isin(mu, i, j) == ((1 <= j) and (j <= nth(mu, i))), 'box membership')
    sx.check(Partition.isin(mu, i, j, True) == ((i <= j) and (j <= i - 1 + nth(mu, i))), 'shifted box membership')
    sx.check(Partition.isin_shifted(mu, i, j) == Partition.isin(mu, i, j, True), 'isin_shifted')


def predicates(sx, n):
    x = tuple(sx.int('x%d' % i) for i in range(n))
    sx.check(Partition.is_partition(x) == is_part(x), 'is_partition')
    strict = all(x[i] > x[i + 1] for i in range(n - 1))
    sx.check(Partition.is_strict_partition(x) == strict and Partition.is_strict(x) == strict, 'is_strict')


def contains(sx, n, m):
    mu, nu = part(sx, 'm', n), part(sx, 'v', m)
    want = all(nth(nu, i + 1) <= nth(mu, i + 1) for i in range(max(n, m)))
    sx.check(Partition.contains(mu, nu) == want, 'containment of diagrams')


def union(sx, n, m):
    mu, nu = part(sx, 'm', n), part(sx, 'v', m)
    u = Partition.union(mu, nu)
    i = sx.int('i', 1, max(n, m) + 1)
    sx.check(nth(u, i) == max(nth(mu, i), nth(nu, i)), 'union of diagrams')
    sx.check(trimmed(u) and type(u) == tuple, 'trimmed')


def addbox(sx, n):
    mu = part(sx, 'm', n)
    row = sx.int('row', 1, n + 1)
    got = Partition.add(mu, row)
    got2 = Partition.add_box_to_row(mu, row)
    k = sx.int('k', 1, n + 2)
    sx.check(nth(got, k) == nth(mu, k) + (1 if k == row else 0), 'one box is added to the row')
    sx.check(got2 == got, 'both ways to add a box agree')


def add_bad(sx, n):
    mu = part(sx, 'm', n)
    row = sx.int('row', n + 2)
    sx.check(sx.raises(Exception, lambda: Partition.add(mu, row)), 'a row past the end is rejected')


def transpose(sx, n, top):
    mu = part(sx, 'm', n, top=top)
    t = Partition.transpose(mu)
    sx.check(type(t) == tuple and trimmed(t) and is_part(t), 'the transpose is a partition')
    i, j = sx.int('i', 1), sx.int('j', 1)
    sx.check(((j <= nth(mu, i)) == (i <= nth(t, j))), 'the transpose reflects the diagram')
    sx.check(Partition.transpose(t) == mu, 'transposing twice is the identity')


def cells(mu, i, j, shifted):
    a = nth(mu, i)
    return ((i <= j) and (j <= i - 1 + a)) if shifted else ((1 <= j) and (j <= a))


def shapes(sx, n, top):
    mu = part(sx, 'm', n, top=top)
    i, j = sx.int('i', 1), sx.int('j', 1)
    sh = Partition.shape(mu)
    sx.check(((i, j) in sh) == cells(mu, i, j, False), 'diagram')
    sx.check(len(sh) == sum(mu), 'number of boxes')
    ss = Partition.shifted_shape(mu)
    sx.check(((i, j) in ss) == cells(mu, i, j, True), 'shifted diagram')
    sx.check(len(ss) == sum(mu), 'number of boxes')
    sx.check(Partition.from_shape(sh) == mu and Partition.from_shape(ss) == mu, 'partition of a diagram')


def skews(sx, n, m, top):
    mu = part(sx, 'm', n, top=top)
    nu = part(sx, 'v', m)
    for k in range(m):
        sx.assume(nu[k] <= mu[k])
    i, j = sx.int('i', 1), sx.int('j', 1)
    d = Partition.skew(mu, nu)
    sx.check(((i, j) in d) == ((nth(nu, i) < j) and (j <= nth(mu, i))), 'skew diagram')
    s = Partition.skew(mu, nu, shifted=True)
    sx.check(((i, j) in s) == ((nth(nu, i) + i - 1 < j) and (j <= nth(mu, i) + i - 1)), 'shifted skew diagram')
    sx.check(len(d) == sum(mu) - sum(nu) and len(s) == sum(mu) - sum(nu), 'size')
    sx.check(Partition.shifted_shape(mu, nu) == s, 'the two shifted skew diagrams agree')


def translate(a, b, shifted):
    """a, b sets of boxes: is a a translate of b (along the diagonal if shifted and a diagonal box is present)"""
    if len(a) != len(b):
        return False
    if len(a) == 0:
        return True
    a, b = sorted(a), sorted(b)
    di, dj = b[0][0] - a[0][0], b[0][1] - a[0][1]
    return all(y == (x[0] + di, x[1] + dj) for x, y in zip(a, b))


def skew_key(sx, n, m, top, shifted):
    mu = part(sx, 'm', n, strict=shifted, top=top)
    nu = part(sx, 'v', m, strict=shifted)
    for k in range(m):
        sx.assume(nu[k] <= mu[k])
    d = Partition.skew(mu, nu, shifted)
    key = Partition.skew_key(mu, nu, shifted)
    sx.check(translate(set(d), set(key), shifted), 'the key is a translate of the diagram')
    sx.check(list(key) == sorted(key), 'the key is sorted')
    if shifted:
        sx.check(any(i == j for i, j in d) == any(i >= j for i, j in key), 'the key tells diagrams with diagonal boxes from those without')
    if not shifted and len(key):
        sx.check(min(i for i, j in key) == 1 and min(j for i, j in key) == 1, 'the key touches both axes')
    if shifted and len(key):
        # moving along the diagonal keeps the key
        big = tuple([mu[0] + 1] + list(mu)) if n else mu
        sml = tuple([mu[0] + 1] + list(nu)) if n else nu
        sx.check(Partition.skew_key(big, sml, True) == key, 'the key ignores the position on the diagonal')


def from_skew(sx, n, m, top, shifted):
    mu = part(sx, 'm', n, strict=shifted, top=top)
    nu = part(sx, 'v', m, strict=shifted)
    for k in range(m):
        sx.assume(nu[k] <= mu[k])
    d = Partition.skew(mu, nu, shifted)
    sx.assume(len(d) > 0)
    a, b = Partition.from_skew(d, shifted)
    sx.check(is_part(a) and is_part(b) and Partition.contains(a, b), 'a pair of nested partitions')
    if shifted:
        sx.check(is_strict_part(a) and is_strict_part(b), 'a pair of strict partitions')
    e = Partition.skew(a, b, shifted)
    sx.check(translate(set(d), set(e), shifted), 'the pair describes the same diagram up to translation')


def complement(sx, n, m):
    mu = part(sx, 'm', m, strict=True, top=n)
    got = Partition.complement(n, mu)
    q = sx.int('q', 1, n)
    sx.check(any(q == a for a in got) == (not any(q == a for a in mu)), 'complement within 1..n')
    sx.check(all(got[i] > got[i + 1] for i in range(len(got) - 1)) and trimmed(got), 'a strict partition')
    sx.check(sum(got) + sum(mu) == n * (n + 1) // 2, 'sizes add up')


def merge(sx, n, top):
    mu = part(sx, 'm', n, strict=True, top=top)
    lam = part(sx, 'v', n, strict=True, top=top)
    got = Partition.merge_shifted(mu, Partition.shifted_shape(lam))
    sx.check(got == tuple(max(a, b) for a, b in zip(mu, lam)), 'union of shifted diagrams')


def ribbon(sx, n):
    alpha = tuple(sx.int('a%d' % i, 1) for i in range(n))
    nu, lam = Partition.shifted_ribbon(alpha)
    sx.check(len(nu) == n and len(lam) == max(n - 1, 0), 'lengths')
    sx.check(all(nu[i] == sum(alpha[i:]) for i in range(n)), 'outer shape')
    sx.check(all(lam[i] == nu[i + 1] for i in range(n - 1)), 'inner shape is the outer shape without its first row')


def jobs(tier):
    out = []
    big = tier != 'quick'
    for n in range(0, 6):
        out += [{'f': 'trim', 'args': [n, False]}, {'f': 'trim', 'args': [n, True]}]
        if n < 5 or big:
            out += [{'f': 'sort', 'args': [n, False]}, {'f': 'sort', 'args': [n, True]}]
        out += [{'f': 'lookup', 'args': [n]}, {'f': 'predicates', 'args': [n]}, {'f': 'addbox', 'args': [n]}, {'f': 'add_bad', 'args': [n]},
                {'f': 'ribbon', 'args': [n]}]
        for m in range(0, 6):
            out += [{'f': 'contains', 'args': [n, m]}, {'f': 'union', 'args': [n, m]}]
    for n in range(0, 4 + big):
        top = 5 if n < 3 else 4
        out += [{'f': 'transpose', 'args': [n, top + big]}, {'f': 'shapes', 'args': [n, top]}]
        for m in range(0, n + 1):
            out += [{'f': 'skews', 'args': [n, m, 4 if n < 3 else 3]}]
            for sh in (False, True):
                out += [{'f': 'skew_key', 'args': [n, m, 4 if not sh else 5, sh], 'path_timeout': 20}]
                if n:
                    # a shifted diagram with an empty last row has no partition description of its own
                    out += [{'f': 'from_skew', 'args': [n, m, 4 if not sh else 5, sh], 'path_timeout': 20, 'may_be_vacuous': True}]
    for n in range(0, 6):
        for m in range(0, min(n, 4) + 1):
            out += [{'f': 'complement', 'args': [n, m]}]
    for n in range(0, 4):
        out += [{'f': 'merge', 'args': [n, 4]}]
    return out
