"""Crystal graphs on factorizations, set-valued tableaux and shifted tableaux."""
import itertools
from crystals import CrystalMixin, WordCrystalGenerator, TableauCrystalGenerator, ShiftedCrystalGenerator, OrthogonalSetvaluedShiftedCrystalGenerator
from insertion import InsertionAlgorithm
from ref import ite, ind
from oracle import symfun as ref

BOUNDS = ('factorizations of words of up to 4 arbitrary integers (thorough 6) into up to 4 factors; components and strings of graphs on up to 4 vertices (thorough 5) with up to 3 arbitrary edges; '
          'word crystals of all permutations of rank up to 3, words of length up to 3 (thorough 4), up to 3 factors; the operator on factorized words of up to 3 arbitrary positive '
          'integers (thorough 4); tableau crystals of shapes of up to 3 boxes with entries up to 3; shifted crystals of shapes of up to 3 boxes, rank up to 3, excess up to 1 (thorough 2)')
OUTSIDE = 'larger words, shapes and graphs; the subclasses with fixed insertion tableaux; drawing with graphviz'
SOFT_SECONDS = {'quick': 200, 'thorough': 3000}


def factorizations(sx, n, k, decreasing):
    w = tuple(sx.int('w%d' % i) for i in range(n))
    got = list(WordCrystalGenerator.get_increasing_factorizations(w, k, decreasing))
    if k == 0:
        sx.check(got == ([()] if n == 0 else []), 'no factors')
        return
    # an arbitrary way to cut: numbers of letters in the first factors
    cut = [sx.int('c%d' % i, 0, n) for i in range(k + 1)]
    sx.assume((cut[0] == 0) & (cut[k] == n) & all([cut[i] <= cut[i + 1] for i in range(k)]))
    good = all([(w[i] > w[i + 1] if decreasing else w[i] <= w[i + 1]) | any([c == i + 1 for c in cut]) for i in range(n - 1)])
    for t in got:
        sx.check(type(t) == tuple and len(t) == k and all(type(f) == tuple for f in t), 'tuples of factors')
        sx.check(sum(t, ()) == w, 'the factors make up the word')
        for f in t:
            sx.check(all((f[i] > f[i + 1]) if decreasing else (f[i] <= f[i + 1]) for i in range(len(f) - 1)), 'the factors are monotone')
        a, b = WordCrystalGenerator.factorization_tuple_to_array(t)
        sx.check(a == w, 'top row')
        sx.check(b == sum([len(f) * (i + 1,) for i, f in enumerate(t)], ()), 'numbers of the factors')
    ends = [tuple(sum([len(f) for f in t[:i]]) for i in range(k + 1)) for t in got]
    sx.check(sum([ind(all([a == b for a, b in zip(cut, e)])) for e in ends]) == ind(good), 'every factorization once')


class Graph(CrystalMixin):
    def __init__(self, n, edges=None, rank=0, maps=None):
        self.elements = list(range(n))
        self._edges = edges
        self.rank = rank
        self.maps = maps

    def f_crystal_operator(self, x, i):
        y = self.maps[i][x]
        return None if y < 0 else y


def components(sx, n, m):
    edges = [(sx.int('a%d' % i, 0, n - 1), sx.int('b%d' % i, 0, n - 1), i) for i in range(m)]
    g = Graph(n, edges)
    got = g.components
    # reachability
    r = [[i == j for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            r[i][j] = r[i][j] | any([((a == i) & (b == j)) | ((a == j) & (b == i)) for a, b, _ in edges])
    for k in range(n):
        r = [[r[i][j] | (r[i][k] & r[k][j]) for j in range(n)] for i in range(n)]
    for i in range(n):
        sx.check(sum([ind(i in c) for c in got]) == 1, 'every vertex is in one component')
        for j in range(n):
            sx.check(r[i][j] == any([(i in c) and (j in c) for c in got]), 'components are the classes of connected vertices')
    sx.check(len(g) == n and g[n - 1] == n - 1, 'elements')


def strings(sx, n, rank):
    """an arbitrary partial injection without cycles"""
    maps = []
    for i in range(rank):
        f = [sx.int('f%d_%d' % (i, x), -1, n - 1) for x in range(n)]
        h = [sx.int('h%d_%d' % (i, x), 0, n - 1) for x in range(n)]
        for x in range(n):
            for y in range(n):
                sx.assume((f[x] != y) | (h[y] > h[x]))
                if x < y:
                    sx.assume((f[x] == -1) | (f[x] != f[y]))
        maps.append(f)
    g = Graph(n, None, rank, maps)
    e = g.edges
    sx.check(len(e) == sum([ind(v >= 0) for f in maps for v in f]), 'one edge per defined value')
    for x, y, i in e:
        sx.check(maps[i][x] == y, 'edges are the values of the operators')
    for i in range(rank):
        s = g.istrings(i)
        sx.check(sorted(x for t in s for x in t) == list(range(n)), 'the strings partition the elements')
        for t in s:
            for q in range(len(t)):
                sx.check(maps[i][t[q]] == (t[q + 1] if q + 1 < len(t) else -1), 'consecutive elements')
            sx.check(all(maps[i][x] != t[0] for x in range(n)), 'strings start outside the image')


def hecke_product(w, m):
    p = list(range(1, m + 1))
    for x in w:
        if p[x - 1] < p[x]:
            p[x - 1], p[x] = p[x], p[x - 1]
    return p


def weight(record, k):
    return tuple(sum([ind(a == i) for a in record]) for i in range(1, k + 1))


def graph_laws(sx, g, wt, k, what):
    """a seminormal crystal: strings, weights, symmetric characters"""
    n = len(g)
    edges = {}
    for x, y, i in g.edges:
        edges[(x, i)] = y
    sx.check(len(edges) == len(g.edges), what + ': one edge of each colour at most')
    back = {}
    for (x, i), y in edges.items():
        sx.check((y, i) not in back, what + ': operators are injective')
        back[(y, i)] = x
        sx.check(1 <= i < k, what + ': colours')
        a, b = wt[x], wt[y]
        sx.check(all(b[q] == a[q] - (1 if q == i - 1 else -1 if q == i else 0) for q in range(k)), what + ': weights')
    for x in range(n):
        for i in range(1, k):
            phi, y = 0, x
            while (y, i) in edges:
                y, phi = edges[(y, i)], phi + 1
            eps, y = 0, x
            while (y, i) in back:
                y, eps = back[(y, i)], eps + 1
            sx.check(phi - eps == wt[x][i - 1] - wt[x][i], what + ': string lengths')
            sx.check((g.f_crystal_operator(x, i) is not None) == (phi > 0), what + ': edges come from the operators')
    comps = g.components
    for c in comps:
        c = set(c)
        top = [x for x in c if all((x, i) not in back for i in range(1, k))]
        sx.check(len(top) == 1, what + ': one highest weight element per component')
        sx.check(all(wt[top[0]][i] >= wt[top[0]][i + 1] for i in range(k - 1)), what + ': dominant highest weight')
        ws = [wt[x] for x in c]
        # the character is a Schur polynomial
        mu = tuple(a for a in wt[top[0]] if a)
        want = ref.family('s', k, mu, ())
        for v in set(ws) | {e for e, _ in want}:
            sx.check(sum([1 for u in ws if u == v]) == want.get((v, 0), 0), what + ': characters of components are Schur polynomials')
    for i in range(1, k):
        s = g.istrings(i)
        sx.check(sorted(x for t in s for x in t) == list(range(n)), what + ': strings partition the crystal')
        sx.check(all((t[0], i) not in back and (t[-1], i) not in edges and all(edges.get((t[q], i)) == t[q + 1] for q in range(len(t) - 1)) for t in s), what + ': strings')


def words(sx, m, k, length, decreasing):
    w = [sx.int('w%d' % i, 1, m) for i in range(m)]
    for i in range(m):
        for j in range(i):
            sx.assume(w[i] != w[j])
    g = WordCrystalGenerator(tuple(w), k, length, decreasing)
    sx.check(g.rank == k, 'rank')
    els = [tuple(e) for e in g.elements]
    sx.check(len(els) == len(set(els)), 'no repetition')
    for a, r in els:
        sx.check(len(a) == length and len(r) == length and hecke_product(a, m) == w, 'Hecke words of the permutation')
        sx.check(all(r[i] <= r[i + 1] and (r[i] < r[i + 1] or (a[i] > a[i + 1] if decreasing else a[i] <= a[i + 1])) for i in range(length - 1)) and all(1 <= x <= k for x in r),
                 'compatible records')
    # completeness by a symbolic candidate
    a = [sx.int('x%d' % i, 1, max(m - 1, 1)) for i in range(length)]
    r = [sx.int('r%d' % i, 1, k) for i in range(length)]
    fits = all([(r[i] < r[i + 1]) | ((r[i] == r[i + 1]) & ((a[i] > a[i + 1]) if decreasing else (a[i] <= a[i + 1]))) for i in range(length - 1)])
    p = list(range(1, m + 1))
    for x in a:
        q = list(p)
        for j in range(m - 1):
            s = (x == j + 1) & (p[j] < p[j + 1])
            q[j], q[j + 1] = ite(s, p[j + 1], q[j]), ite(s, p[j], q[j + 1])
        p = q
    if m == 1 and length:
        fits = False
    fits = fits & all([p[j] == w[j] for j in range(m)]) if not isinstance(fits, bool) or fits else False
    sx.check(sum([ind(all([u == v for u, v in zip(a + r, tuple(b) + tuple(c))])) for b, c in els]) == ind(fits), 'every factorization once')
    graph_laws(sx, g, [weight(c, k) for b, c in els], k, 'word crystal')


def word_operator(sx, n, decreasing):
    """the operator behind the word crystal on arbitrary letters"""
    w = tuple(sx.int('w%d' % i, 1) for i in range(n))
    r = [sx.int('r%d' % i, 1, 3) for i in range(n)]
    for i in range(n - 1):
        sx.assume((r[i] < r[i + 1]) | ((r[i] == r[i + 1]) & ((w[i] > w[i + 1]) if decreasing else (w[i] <= w[i + 1]))))
    i = sx.pick('i', 1, 2)
    p, q = InsertionAlgorithm.hecke(w, tuple(r), multisetvalued=not decreasing)
    u = q.f_crystal_operator(i, multisetvalued=not decreasing)
    if u is None:
        sx.check(True, 'undefined')
        return
    v, s = InsertionAlgorithm.inverse_hecke(p, u, multisetvalued=not decreasing)
    x = [ind(a == i) for a in r]
    y = [ind(a == i) for a in s]
    sx.check(sum(x) == sum(y) + 1 and len(s) == n and all(sum([ind(a == j) for a in r]) == sum([ind(a == j) for a in s]) for j in range(1, 4) if j not in (i, i + 1)), 'one letter changes factor')
    sx.check(all((s[j] < s[j + 1]) or (s[j] == s[j + 1] and ((v[j] > v[j + 1]) if decreasing else (v[j] <= v[j + 1]))) for j in range(n - 1)), 'the result is a factorization')
    moved = [j for j in range(n) if r[j] != i and r[j] != i + 1 and not (v[j] == w[j])]
    sx.check(len(moved) <= 1, 'at most one letter of the other factors changes')


def tableaux(sx, mu, k, setvalued):
    g = TableauCrystalGenerator(tuple(mu), k, False, setvalued)
    sx.check(g.rank == k, 'rank')
    wt = []
    for t in g.elements:
        letters = [x for _, _, v in t for x in v]
        wt.append(tuple(len([x for x in letters if x == i]) for i in range(1, k + 1)))
    want = ref.family('G' if setvalued else 's', k, tuple(mu), ())
    e = tuple(sx.int('e%d' % i, 0) for i in range(k))
    sx.check(sum([ind(all([a == b for a, b in zip(e, v)])) for v in wt]) ==
             sum([ite(all([a == b for a, b in zip(e, v)]), c, 0) for (v, _), c in want.items()]), 'the elements are the tableaux of the shape')
    graph_laws(sx, g, wt, k, 'tableau crystal')


def shifted(sx, mu, k, excess, multi, sp):
    mu = tuple(mu)
    if multi or sp:
        g = ShiftedCrystalGenerator(mu, k, excess, multi, sp)
    else:
        g = OrthogonalSetvaluedShiftedCrystalGenerator(mu, k, excess)
    wt = []
    for t in g.elements:
        letters = [abs(x) for _, _, v in t for x in v]
        wt.append(tuple(len([x for x in letters if x == i]) for i in range(1, k + 1)))
        rows = {}
        for i, j, v in t:
            rows[i] = rows.get(i, 0) + 1
            sx.check(j >= i and (i != j or all(x > 0 for x in v)), 'shifted shape without primes on the diagonal')
        sx.check(tuple(rows.get(i + 1, 0) for i in range(len(rows))) == mu, 'shape')
        sx.check(len(letters) == sum(mu) + excess, 'excess')
    sx.check(len(set(g.elements)) == len(g.elements), 'no repetition')
    if not multi:
        want = {v: c for (v, q), c in ref.family('GP', k, mu, ()).items() if q == excess}
        e = tuple(sx.int('e%d' % i, 0) for i in range(k))
        sx.check(sum([ind(all([a == b for a, b in zip(e, v)])) for v in wt]) ==
                 sum([ite(all([a == b for a, b in zip(e, v)]), c, 0) for v, c in want.items()]), 'the elements are the tableaux of the shape')
    graph_laws(sx, g, wt, k, 'shifted crystal')
    # the drawn arrays are the factorized words
    for a, t in zip(g.arrays, g.elements):
        n = sum(mu) + excess
        v, s = g.backward(g.insertion_tableau, t)
        sx.check(all(a.get(2, j + 1, unpack=True) == v[j] and a.get(1, j + 1, unpack=True) == s[j] for j in range(n)), 'arrays')


def jobs(tier):
    big = tier != 'quick'
    out = []

    def add(f, *a):
        out.append({'f': f, 'args': list(a)})
    for dec in (False, True):
        for n in range(0, 7 if big else 5):
            for k in range(0, 5):
                add('factorizations', n, k, dec)
        for m, k, l in [(1, 2, 0), (2, 2, 1), (2, 2, 2), (2, 3, 2), (3, 2, 2), (3, 3, 2), (3, 2, 3), (3, 3, 3)] + ([(3, 3, 4), (3, 4, 3), (4, 3, 3)] if big else []):
            add('words', m, k, l, dec)
        for n in range(1, 5 if big else 4):
            add('word_operator', n, dec)
    for n, m in [(1, 1), (2, 2), (3, 2), (3, 3), (4, 2)] + ([(4, 3), (5, 2)] if big else []):
        add('components', n, m)
    for n, r in [(1, 1), (2, 1), (3, 1), (2, 2)] + ([(4, 1), (3, 2)] if big else []):
        add('strings', n, r)
    for mu in [[], [1], [2], [1, 1], [3], [2, 1], [1, 1, 1]]:
        for k in (1, 2, 3):
            for sv in (True, False):
                if k < 3 or sum(mu) < 3 or not sv or big:
                    add('tableaux', mu, k, sv)
    for mu in [[1], [2], [2, 1], [3]]:
        for ex in range(0, 2 + big):
            for multi in (False, True):
                for sp in (False, True):
                    for k in (2, 3):
                        if k < 3 or sum(mu) < 3 or ex == 0 and not multi or big:
                            add('shifted', mu, k, ex, multi, sp)
    return out
