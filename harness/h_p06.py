"""Growth diagrams: the ordinary ones against Greene's theorem, the shifted ones against orthogonal Hecke insertion."""
import itertools
from partitions import Partition
from tableaux import Tableau
from insertion import InsertionAlgorithm
from ref import nth, is_part, trimmed

BOUNDS = ('ordinary diagrams: matrices up to 3 x 3 (also 1 x 4, 2 x 4; 3 x 4 with absent entries), entries all nonnegative integers; shifted diagrams: '
          'words of up to 6 letters in 1..4 (7 letters in 1..5 thorough), and 8 letters in 1..5 after seven fixed beginnings of five letters')
OUTSIDE = 'larger matrices and longer words'


def matrix(sx, n, m, tag='a'):
    return {(i, j): sx.int('%s%d%d' % (tag, i, j), 0) for i in range(1, n + 1) for j in range(1, m + 1)}


def paths(n, m):
    for ups in itertools.combinations(range(n + m - 2), n - 1):
        i, j = 1, 1
        p = {(1, 1)}
        for s in range(n + m - 2):
            if s in ups:
                i += 1
            else:
                j += 1
            p.add((i, j))
        yield frozenset(p)


def unions(n, m, k):
    ps = list(paths(n, m))
    us = {frozenset().union(*c) for c in itertools.combinations_with_replacement(ps, k)}
    return [u for u in sorted(us, key=sorted) if not any(u < v for v in us)]


def greene(sx, n, m):
    """the last shape: its first k parts sum to the largest weight carried by k increasing lattice paths"""
    a = matrix(sx, n, m)
    g = Partition.growth_diagram(a, m, n)
    lam = g[n][m]
    sx.check(is_part(lam) and trimmed(lam), 'a partition')
    sx.check(len(lam) <= min(n, m), 'at most min(n, m) parts')
    for k in range(1, min(n, m) + 1):
        s = sum([nth(lam, r) for r in range(1, k + 1)])
        ws = [sum([a[b] for b in sorted(u)]) for u in unions(n, m, k)]
        sx.check(all(s >= w for w in ws) and any(s == w for w in ws), 'first k parts = best k increasing paths')


def local(sx, n, m):
    a = matrix(sx, n, m)
    g = Partition.growth_diagram(a)
    sx.check(len(g) == n + 1 and all(len(r) == m + 1 for r in g), 'dimensions')
    for i in range(n + 1):
        for j in range(m + 1):
            lam = g[i][j]
            if i == 0 or j == 0:
                sx.check(lam == (), 'empty border')
                continue
            sx.check(sum(lam) == sum([a[x, y] for x in range(1, i + 1) for y in range(1, j + 1)]), 'size')
            for mu in (g[i - 1][j], g[i][j - 1]):
                for r in range(1, n + 2):
                    sx.check((nth(mu, r) <= nth(lam, r)) and (nth(lam, r + 1) <= nth(mu, r)), 'neighbours differ by a horizontal strip')


def symmetric(sx, n, m):
    a = matrix(sx, n, m)
    g = Partition.growth_diagram(a, m, n)
    h = Partition.growth_diagram({(j, i): a[i, j] for i, j in a}, n, m)
    for i in range(n + 1):
        for j in range(m + 1):
            sx.check(g[i][j] == h[j][i], 'transposing the matrix transposes the diagram')


def trace(sx, n):
    """symmetric matrix: the trace counts the odd columns of the diagonal shapes"""
    a = {}
    for i in range(1, n + 1):
        for j in range(i, n + 1):
            a[i, j] = a[j, i] = sx.int('a%d%d' % (i, j), 0)
    g = Partition.growth_diagram(a, n, n)
    for i in range(1, n + 1):
        lam = g[i][i]
        odd = sum([(nth(lam, r) - nth(lam, r + 1)) * (r % 2) for r in range(1, n + 1)])
        sx.check(odd == sum([a[k, k] for k in range(1, i + 1)]), 'trace = number of odd columns')


def injective(sx, n, m):
    """the border shapes determine the matrix (RSK is injective)"""
    a, b = matrix(sx, n, m, 'a'), matrix(sx, n, m, 'b')
    g, h = Partition.growth_diagram(a, m, n), Partition.growth_diagram(b, m, n)
    edge = all([g[n][j] == h[n][j] for j in range(m + 1)]) and all([g[i][m] == h[i][m] for i in range(n + 1)])
    same = all(a[k] == b[k] for k in a)
    sx.check((not edge) or same, 'different matrices have different borders')


def sparse(sx, n, m, present):
    """absent entries count as zero, a set of positions as ones, and the dimensions default to the largest index"""
    a = {tuple(b): sx.int('a%d%d' % tuple(b), 0) for b in present}
    full = {(i, j): a.get((i, j), 0) for i in range(1, n + 1) for j in range(1, m + 1)}
    sx.check(Partition.growth_diagram(a, m, n) == Partition.growth_diagram(full, m, n), 'absent entries are zero')
    s = set(a)
    nn, mm = max([0] + [i for i, j in s]), max([0] + [j for i, j in s])
    sx.check(Partition.growth_diagram(s) == Partition.growth_diagram({b: 1 for b in s}, mm, nn), 'a set of positions')


def word(sx, length, top):
    return tuple(sx.int('w%d' % i, 1, top) for i in range(length))


def shifted(sx, length, top):
    w = word(sx, length, top)
    g, e, c, r = Partition.shifted_growth_diagram(w, length, top)
    n = top
    for i in range(n + 1):
        for j in range(length + 1):
            lam = g[i][j]
            if i == 0 or j == 0:
                sx.check(lam == (), 'empty border')
                continue
            sx.check(all(lam[k] > lam[k + 1] for k in range(len(lam) - 1)) and trimmed(lam), 'strict partition')
            for mu in (g[i - 1][j], g[i][j - 1]):
                sx.check(Partition.contains(lam, mu), 'shapes grow')
    p, q = Tableau.from_shifted_growth_diagram(g, e, c)
    sx.check((p, q) == InsertionAlgorithm.orthogonal_hecke(w), 'the border gives the orthogonal Hecke tableaux')
    # every intermediate row and column of the diagram is the border for a subword
    for j in range(length + 1):
        for i in range(n + 1):
            u = tuple(x for x in w[:j] if x <= i)
            sx.check(g[i][j] == InsertionAlgorithm.orthogonal_hecke(u)[0].shape(), 'inner shapes come from subwords')
    sx.check(Partition.shifted_growth_diagram({(a, k + 1) for k, a in enumerate(w)}, length, top) == (g, e, c, r), 'from a set of positions')


def agreement(sx, length, top, prefix=()):
    w = tuple(prefix) + word(sx, length - len(prefix), top)
    g, e, c, r = Partition.shifted_growth_diagram(w, length, top)
    sx.check(Tableau.from_shifted_growth_diagram(g, e, c) == InsertionAlgorithm.orthogonal_hecke(w),
             'the border gives the orthogonal Hecke tableaux')


def jobs(tier):
    out = []
    big = tier != 'quick'
    for n, m in [(1, 1), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4)] + ([(4, 2), (3, 4)] if big else []):
        out.append({'f': 'greene', 'args': [n, m]})
    for n, m in [(0, 0), (1, 1), (1, 3), (2, 2), (2, 3)]:
        out.append({'f': 'local', 'args': [n, m]} if n else {'f': 'sparse', 'args': [0, 0, []]})
        if n:
            out.append({'f': 'symmetric', 'args': [n, m]})
    if big:
        out.append({'f': 'local', 'args': [3, 3]})
        out.append({'f': 'symmetric', 'args': [3, 3]})
    for n in (1, 2, 3):
        out.append({'f': 'trace', 'args': [n]})
    out.append({'f': 'injective', 'args': [2, 2]})
    if big:
        out.append({'f': 'injective', 'args': [2, 3]})
        out.append({'f': 'trace', 'args': [4]})
    for present in ([[1, 2], [2, 1]], [[1, 1], [3, 2]], [[2, 3]], [[1, 3], [2, 2], [3, 1]]):
        out.append({'f': 'sparse', 'args': [3, 3, present]})
    for length, top in [(0, 0), (0, 2), (1, 3), (2, 4), (3, 4), (4, 3)] + ([(4, 5), (5, 4), (6, 3)] if big else []):
        out.append({'f': 'shifted', 'args': [length, top]})
    for length, top in [(5, 4), (6, 4), (5, 5)] if big else [(5, 4), (6, 4)]:
        out.append({'f': 'agreement', 'args': [length, top]})
    for a in range(1, 6) if big else ():
        for b in range(1, 6):
            for c in range(1, 6):
                out.append({'f': 'agreement', 'args': [7, 5, [a, b, c]]})
    for prefix in [[1, 2, 3, 4, 5], [1, 2, 3, 5, 4], [1, 3, 2, 4, 5], [1, 4, 2, 5, 3], [2, 1, 3, 5, 4], [3, 4, 5, 1, 2], [1, 2, 5, 3, 4]]:
        out.append({'f': 'agreement', 'args': [8, 5, prefix]})
    return out
