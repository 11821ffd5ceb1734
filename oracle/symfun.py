"""Independent reference tables for the Schur-like functions (pure Python, no code of the repository).

A table maps (exponents of x_1..x_n, exponent of beta) to an integer.
Letters of marked fillings are coded 2i-1 for i' and 2i for i.
"""
import functools
import itertools


def cells(mu, nu, shifted):
    out = []
    for i, m in enumerate(mu):
        a = nu[i] if i < len(nu) else 0
        for j in range(a, m):
            out.append((i, j + (i if shifted else 0)))
    return out


def fits(mu, nu):
    return all((nu[i] if i < len(nu) else 0) <= (mu[i] if i < len(mu) else 0) for i in range(max(len(mu), len(nu))))


def value(letter):
    return (letter + 1) // 2


def primed(letter):
    return letter % 2 == 1


def fillings(cs, options, row_ok, col_ok):
    """all assignments cell -> option, cells in reading order, checked against the cells to the left and above"""
    here = set(cs)

    def go(k, t):
        if k == len(cs):
            yield t
            return
        i, j = cs[k]
        for o in options((i, j)):
            if (i, j - 1) in here and not row_ok(t[(i, j - 1)], o):
                continue
            if (i - 1, j) in here and not col_ok(t[(i - 1, j)], o):
                continue
            t[(i, j)] = o
            yield from go(k + 1, t)
            del t[(i, j)]
    yield from go(0, {})


def subsets(letters):
    return [s for k in range(1, len(letters) + 1) for s in itertools.combinations(letters, k)]


def semistandard(n, mu, nu, shifted, marked, diag, setvalued):
    """fillings with sets of letters, rows weakly increasing in unmarked letters and strictly in marked, columns the other way"""
    cs = cells(mu, nu, shifted)
    letters = list(range(1, 2 * n + 1)) if marked else list(range(2, 2 * n + 1, 2))
    pool = subsets(letters) if setvalued else [(a,) for a in letters]
    plain = [s for s in pool if not any(primed(a) for a in s)]

    def options(c):
        return plain if shifted and c[0] == c[1] and not diag else pool

    def row_ok(s, t):
        return s[-1] < t[0] or (s[-1] == t[0] and not primed(t[0]))

    def col_ok(s, t):
        return s[-1] < t[0] or (s[-1] == t[0] and primed(t[0]))
    return cs, fillings(cs, options, row_ok, col_ok)


def add(table, key, c):
    table[key] = table.get(key, 0) + c


def clean(t):
    return {k: v for k, v in t.items() if v}


@functools.lru_cache(None)
def tableaux(n, mu, nu, shifted, marked, diag, setvalued):
    """sum of x^entries beta^(entries - boxes)"""
    ans = {}
    if not fits(mu, nu):
        return ans
    cs, gen = semistandard(n, mu, nu, shifted, marked, diag, setvalued)
    for t in gen:
        e = [0] * n
        for s in t.values():
            for a in s:
                e[value(a) - 1] += 1
        add(ans, (tuple(e), sum(e) - len(cs)), 1)
    return clean(ans)


@functools.lru_cache(None)
def planes(n, mu, nu, shifted, marked, nonprimes):
    """reverse plane partitions, weighted by columns of unmarked and rows of marked letters, signed powers of beta"""
    ans = {}
    if not fits(mu, nu):
        return ans
    cs = cells(mu, nu, shifted)
    letters = list(range(1, 2 * n + 1)) if marked else list(range(2, 2 * n + 1, 2))
    primes = [a for a in letters if primed(a)]

    def options(c):
        return primes if marked and c[0] == c[1] and not nonprimes else letters
    le = lambda a, b: a <= b
    for t in fillings(cs, options, le, le):
        e = [0] * n
        for i in range(1, n + 1):
            e[i - 1] = len({c[1] for c, a in t.items() if a == 2 * i}) + len({c[0] for c, a in t.items() if a == 2 * i - 1})
        k = len(cs) - sum(e)
        add(ans, (tuple(e), k), (-1)**k)
    return clean(ans)


@functools.lru_cache(None)
def transposed(n, mu, nu, shifted, marked, diag):
    """semistandard fillings; runs of equal letters may be shortened to any smaller number"""
    ans = {}
    if not fits(mu, nu):
        return ans
    cs, gen = semistandard(n, mu, nu, shifted, marked, diag, False)
    for t in gen:
        terms = {(): 1}
        for i in range(1, n + 1):
            lo = len({c[0] for c, s in t.items() if s[0] == 2 * i}) + len({c[1] for c, s in t.items() if s[0] == 2 * i - 1})
            extra = len([c for c, s in t.items() if value(s[0]) == i]) - lo
            row = [1]
            for _ in range(extra):
                row = [1] + [row[q] + row[q + 1] for q in range(len(row) - 1)] + [1]
            terms = {e + (lo + q,): c * row[q] for e, c in terms.items() for q in range(extra + 1)}
        for e, c in terms.items():
            add(ans, (e, len(cs) - sum(e)), c)
    return clean(ans)


def lifted(mu, nu):
    n = len(mu)
    return tuple(mu[i] + n - i for i in range(n)), tuple((nu[i] if i < len(nu) else 0) + n - i for i in range(n))


def family(name, n, mu, nu):
    mu, nu = tuple(mu), tuple(nu)
    t, p, j = tableaux, planes, transposed
    if name in ('gs', 'js'):
        mu, nu = lifted(mu, nu)
    return {
        's': lambda: t(n, mu, nu, False, False, True, False),
        'S': lambda: t(n, mu, nu, False, True, True, False),
        'Q': lambda: t(n, mu, nu, True, True, True, False),
        'P': lambda: t(n, mu, nu, True, True, False, False),
        'G': lambda: t(n, mu, nu, False, False, True, True),
        'GS': lambda: t(n, mu, nu, False, True, True, True),
        'GQ': lambda: t(n, mu, nu, True, True, True, True),
        'GP': lambda: t(n, mu, nu, True, True, False, True),
        'g': lambda: p(n, mu, nu, False, False, True),
        'gq': lambda: p(n, mu, nu, True, True, True),
        'gp': lambda: p(n, mu, nu, True, True, False),
        'gs': lambda: p(n, mu, nu, True, True, True),
        'j': lambda: j(n, mu, nu, False, False, True),
        'jq': lambda: j(n, mu, nu, True, True, True),
        'jp': lambda: j(n, mu, nu, True, True, False),
        'js': lambda: j(n, mu, nu, True, True, True),
    }[name]()


def removable(nu, shifted):
    """all shapes obtained by removing a set of corners"""
    nu = tuple(a for a in nu if a)
    corners = []
    for i in range(len(nu)):
        below = nu[i + 1] if i + 1 < len(nu) else 0
        if nu[i] - 1 > below or (nu[i] - 1 >= below and not shifted) or (i + 1 == len(nu) and nu[i] == 1):
            corners.append(i)
    out = []
    for k in range(len(corners) + 1):
        for s in itertools.combinations(corners, k):
            out.append(tuple(a for a in (nu[i] - (i in s) for i in range(len(nu))) if a))
    return out


def doublebar(name, n, mu, nu):
    ans = {}
    if fits(mu, nu):
        for x in removable(nu, name in ('GP', 'GQ')):
            for (e, k), c in family(name, n, mu, x).items():
                add(ans, (e, k + sum(nu) - sum(x)), c)
    return clean(ans)


# ------------------------------------------------------------ polynomials in x_1..x_n, beta as tables

def mul(a, b):
    ans = {}
    for (x, k), c in a.items():
        for (y, l), d in b.items():
            add(ans, (tuple(i + j for i, j in zip(x, y)), k + l), c * d)
    return clean(ans)


def plus(a, b, s=1):
    ans = dict(a)
    for k, c in b.items():
        add(ans, k, s * c)
    return clean(ans)


def one(n):
    return {((0,) * n, 0): 1}


def var(n, i, e=1):
    return {(tuple(e if j == i else 0 for j in range(n)), 0): 1}


def power(a, k, n):
    ans = one(n)
    for _ in range(k):
        ans = mul(ans, a)
    return ans


def bump(n, i):
    """1 + beta x_i"""
    return plus(one(n), {(tuple(int(j == i) for j in range(n)), 1): 1})


def oplus(n, i, j):
    """x_i + x_j + beta x_i x_j"""
    return plus(var(n, i), mul(var(n, j), bump(n, i)))


def minus(n, i, j):
    return plus(var(n, i), var(n, j), -1)


def vandermonde(n):
    ans = one(n)
    for i in range(n):
        for j in range(i + 1, n):
            ans = mul(ans, minus(n, i, j))
    return ans


def sign(w):
    return (-1)**sum(1 for i in range(len(w)) for j in range(i) if w[j] > w[i])


def permute(a, w):
    """the variable x_i becomes x_{w(i)}"""
    ans = {}
    for (x, k), c in a.items():
        y = [0] * len(x)
        for i in range(len(x)):
            y[w[i]] += x[i]
        add(ans, (tuple(y), k), c)
    return clean(ans)


def bialternant(n, mu):
    """Vandermonde times G: det of x_i^(mu_j + n - j) (1 + beta x_i)^(j - 1)"""
    mu = tuple(mu) + (0,) * (n - len(mu))
    ans = {}
    for w in itertools.permutations(range(n)):
        t = one(n)
        for j in range(n):
            t = mul(t, mul(var(n, w[j], mu[j] + n - 1 - j), power(bump(n, w[j]), j, n)))
        ans = plus(ans, t, sign(w))
    return ans


def clearing(n):
    """product of all 1 + beta x_j to the power n - 1"""
    ans = one(n)
    for j in range(n):
        ans = mul(ans, power(bump(n, j), n - 1, n))
    return ans


def hall_littlewood_cleared(n, mu, q):
    """(n - r)! times Vandermonde times clearing(n) times GP (q False) or GQ (q True), by symmetrizing

    GP = 1/(n-r)! sum over w of w(x^mu prod_{i<=r, i<j} (x_i (+) x_j)/(x_i (-) x_j)), x (-) y = (x - y)/(1 + beta y)
    """
    r = len(mu)
    if r > n:
        return {}
    t = one(n)
    for i in range(r):
        t = mul(t, var(n, i, mu[i]))
        if q:
            t = mul(t, plus({((0,) * n, 0): 2}, {(tuple(int(j == i) for j in range(n)), 1): 1}))
    for i in range(n):
        for j in range(i + 1, n):
            t = mul(t, mul(oplus(n, i, j), bump(n, j)) if i < r else minus(n, i, j))
    t = mul(t, clearing(n))
    ans = {}
    for w in itertools.permutations(range(n)):
        ans = plus(ans, permute(t, w), sign(w))
    return ans


def kernel(n, m, top, strict):
    """prod 1/(1 - x_i y_j), or prod (1 - xbar_i y_j)/(1 - x_i y_j) with xbar = -x/(1 + beta x), up to degree top in x"""
    size = n + m
    ans = one(size)

    def cut(t):
        return {(e, k): c for (e, k), c in t.items() if sum(e[:n]) <= top}
    for i in range(n):
        for j in range(m):
            xy = mul(var(size, i), var(size, n + j))
            geo, p = one(size), one(size)
            for _ in range(top):
                p = mul(p, xy)
                geo = plus(geo, p)
            ans = cut(mul(ans, geo))
            if strict:
                inv, p = one(size), one(size)
                for _ in range(top):
                    p = mul(p, {(tuple(int(q == i) for q in range(size)), 1): -1})
                    inv = plus(inv, p)
                ans = cut(mul(ans, plus(one(size), mul(xy, inv))))
    return clean(ans)


# ------------------------------------------------------------ stable Grothendieck functions of permutations

def hecke(w, n, kind):
    """coefficient of w in products of (1 + x_i u) factors; kind plain, symplectic, involution or signed"""
    m = len(w)
    ident = tuple(range(1, m + 1))
    if kind == 'symplectic':
        start = tuple(i + 1 if i % 2 else i - 1 for i in range(1, m + 1))
    else:
        start = ident

    def swap_right(p, i):
        if i == 0:
            return (-p[0],) + p[1:]
        return p[:i - 1] + (p[i], p[i - 1]) + p[i + 1:]

    def swap_left(p, i):
        if i == 0:
            return tuple(-a if abs(a) == 1 else a for a in p)
        f = {i: i + 1, i + 1: i}
        return tuple((1 if a > 0 else -1) * f.get(abs(a), abs(a)) for a in p)

    def step(p, i):
        """(new element, power of beta) or None"""
        descent = p[0] < 0 if i == 0 else p[i - 1] > p[i]
        if kind == 'plain':
            return (p, 1) if descent else (swap_right(p, i), 0)
        if kind == 'symplectic' and p[i - 1] == i + 1:
            return None
        if descent:
            return (p, 1)
        a = swap_left(swap_right(p, i), i)
        return (swap_right(p, i), 0) if a == p else (a, 0)

    low = 0 if kind == 'signed' else 1
    table = {(start, (0,) * n, 0): 1}
    for v in range(n):
        order = list(range(m - 1, low - 1, -1))
        if kind == 'signed':
            order = order + order[::-1]
        for i in order:
            new = dict(table)
            for (p, e, k), c in table.items():
                s = step(p, i)
                if s is not None:
                    key = (s[0], e[:v] + (e[v] + 1,) + e[v + 1:], k + s[1])
                    new[key] = new.get(key, 0) + c
            table = new
    return clean({(e, k): c for (p, e, k), c in table.items() if p == tuple(w)})
