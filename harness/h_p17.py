"""Symmetric polynomials in the monomial basis: products, sums, powers and queries agree with ordinary polynomials."""
import itertools
from polynomials import Polynomial, beta
from symmetric import SymmetricMonomial, SymmetricPolynomial
from ref import ite, ind, coeffs_of, pmul, padd, pscale, same

BOUNDS = ('products of monomials with up to 2 parts each (3 by 1; thorough 3 by 2) in up to 4 variables (thorough 5) and powers of monomials with up to 2 parts, parts arbitrary positive integers; monomials expanded with parts up to 3; polynomials with up to 3 '
          'terms, coefficients arbitrary integers times powers of beta up to 2; up to 3 variables')
OUTSIDE = 'more terms, parts and variables'


def parts(sx, k, tag, hi=None):
    xs = tuple(sx.int('%s%d' % (tag, i), 1, hi) for i in range(k))
    for i in range(k - 1):
        sx.assume(xs[i] >= xs[i + 1])
    return xs


def rearrangements(mu, n):
    ans = []
    for t in itertools.permutations(tuple(mu) + (0,) * (n - len(mu))):
        if not any(all(a == b for a, b in zip(t, u)) for u in ans):
            ans.append(t)
    return ans


def product(sx, n, a, b):
    mu, nu = parts(sx, a, 'm'), parts(sx, b, 'n')
    f, g = SymmetricMonomial(n, mu), SymmetricMonomial(n, nu)
    p = f * g
    want = []
    for x in rearrangements(mu, n):
        for y in rearrangements(nu, n):
            z = tuple(i + j for i, j in zip(x, y))
            if all(z[i] >= z[i + 1] for i in range(n - 1)):
                want.append(z)
    # m * 1 is the monomial itself, not a sum
    items = [(m, c) for m, c in p.items()] if not isinstance(p, SymmetricMonomial) else [(p, 1)]
    total = 0
    for m, c in items:
        z = tuple(m.mu) + (0,) * (n - len(m.mu))
        sx.check(m.n == n and (len(m.mu) == 0 or m.mu[-1] != 0) and c > 0, 'canonical terms')
        sx.check(sum([ind(all(i == j for i, j in zip(z, w))) for w in want]) == c, 'coefficient of a product')
        total = total + c
    sx.check(total == len(want), 'no term is missing')
    sx.check(g * f == p, 'products commute')


def expand(sx, n, a):
    mu = parts(sx, a, 'm', 3)
    f = SymmetricMonomial(n, mu)
    got = coeffs_of(f.polynomial())
    want = {}
    for t in rearrangements(mu, n):
        want[tuple((i + 1, t[i]) for i in range(n) if t[i] != 0)] = 1
    same(sx, got, want, 'sum over the distinct rearrangements')
    y = f.polynomial('y')
    sx.check(len(y.coeffs) == len(want), 'other variables')
    sx.check(f.degree() == sum(mu) and f.order() == n and f.index() == mu, 'degree')
    x = sx.pick('shift', 0, 2)
    t = (mu + (0,) * (n - a))
    sx.check(SymmetricMonomial(n, t[x % n:] + t[:x % n]) == f, 'rearranged parts give the same monomial')


MONOS = [(), (1,), (2,), (1, 1), (2, 1), (3,)]


def poly(sx, n, which, tag, withbeta=False):
    """the library polynomial and its table {mu: coefficient table in beta}"""
    ans, table = SymmetricPolynomial(), {}
    for k in which:
        mu = MONOS[k]
        c = sx.int('%s%d' % (tag, k))
        if withbeta:
            e = sx.int('%se%d' % (tag, k))
            d = sx.int('%sd%d' % (tag, k))
            c = c * beta**0 + d * beta**1
        ans = ans + SymmetricPolynomial({SymmetricMonomial(n, mu): c})
        table[mu] = c
    return ans, table


def flat(f):
    """table {exponents with beta as variable 0: coefficient}"""
    ans = {}
    for m, c in f.items():
        for t in rearrangements(m.mu, m.n):
            e = tuple((i + 1, t[i]) for i in range(m.n) if t[i] != 0)
            for k, v in (coeffs_of(c).items()):
                key = tuple(sorted(k + e))
                ans[key] = ans.get(key, 0) + v
    return ans


def ring(sx, n, a, b, withbeta):
    f, _ = poly(sx, n, a, 'f', withbeta)
    g, _ = poly(sx, n, b, 'g')
    x, y = flat(f), flat(g)
    s, p = f + g, f * g
    same(sx, flat(s), padd(x, y), 'sum')
    same(sx, flat(f - g), padd(x, pscale(y, -1)), 'difference')
    same(sx, flat(p), pmul(x, y), 'product')
    same(sx, coeffs_of(p.polynomial()), coeffs_of(f.polynomial() * g.polynomial()), 'ordinary polynomial of a product')
    same(sx, flat(-f), pscale(x, -1), 'negative')
    sx.check(all(v != 0 for q in (s, p, f - g) for v in q.values()), 'no zero terms')
    k = sx.int('k')
    same(sx, flat(f * k), pscale(x, k), 'integer multiple')
    same(sx, flat(beta * g), pmul(y, {((0, 1),): 1}), 'multiple by beta')
    sx.check((f == g) == all(x.get(m, 0) == y.get(m, 0) for m in set(x) | set(y)), 'equality')
    sx.check((f == 0) == all(v == 0 for v in x.values()), 'equality with zero')


def power(sx, n, a, k):
    mu = parts(sx, a, 'm')
    f = SymmetricMonomial(n, mu)
    p = f.symmetric_polynomial()
    got, q = f ** k, f.symmetric_polynomial()
    if k == 0:
        sx.check(got == SymmetricMonomial(n) and got == 1, 'zeroth power')
        return
    for _ in range(k - 1):
        q = q * p
    sx.check(got == q if k > 1 else got.symmetric_polynomial() == q, 'power of a monomial')
    sx.check(p ** k == q, 'power of a polynomial')


def mixed(sx, n, a):
    mu = MONOS[a]
    f = SymmetricMonomial(n, mu)
    one = SymmetricMonomial(n)
    k = sx.int('k')
    t = lambda u, v: SymmetricPolynomial({f: u, one: v}) if mu else SymmetricPolynomial({one: u + v})
    sx.check((f + k == t(1, k)) and (k + f == t(1, k)) and (f - k == t(1, -k)) and (k - f == t(-1, k)), 'adding integers')
    sx.check((f * k == t(k, 0)) and (k * f == t(k, 0)), 'integer multiples')
    sx.check((f == k) == ((k == 1) if not mu else False), 'comparing with an integer')
    sx.check((t(k, 0) == k) == ((k == 0) if mu else True), 'comparing a polynomial with an integer')
    g, _ = poly(sx, n, (1, 4), 'g')
    sx.check((f + g == t(1, 0) + g) and (f - g == t(1, 0) - g) and (g - f == g - t(1, 0)) and (f * g == t(1, 0) * g) and (g * f == g * t(1, 0)), 'with polynomials')
    sx.check((f - f == 0) and (f + f == t(2, 0)) and not (f < f), 'with monomials')


def queries(sx, n, which):
    f, _ = poly(sx, n, which, 'f')
    g, _ = poly(sx, n, list(reversed(which)), 'f')
    sx.check(f == g and f.serialize() == g.serialize(), 'the order of construction does not matter')
    d = sx.int('d')
    c = {MONOS[k]: f[SymmetricMonomial(n, MONOS[k])] for k in which}
    sx.check(all(c[MONOS[k]] == sx_value for k, sx_value in ((k, g[SymmetricMonomial(n, MONOS[k])]) for k in which)), 'coefficients')
    t = f.truncate(d)
    lo, hi = f.lowest_degree_terms(), f.highest_degree_terms()
    for mu in c:
        m = SymmetricMonomial(n, mu)
        sx.check(t[m] == (c[mu] if sum(mu) <= d else 0), 'truncation')
        low = all((c[nu] == 0) for nu in c if sum(nu) < sum(mu))
        high = all((c[nu] == 0) for nu in c if sum(nu) > sum(mu))
        sx.check(lo[m] == ite(low, c[mu], 0), 'lowest degree terms')
        sx.check(hi[m] == ite(high, c[mu], 0), 'highest degree terms')


def history(sx, n):
    """products do not depend on which products were computed before"""
    ks = [sx.pick('k%d' % i, 0, len(MONOS) - 1) for i in range(4)]
    f = [SymmetricMonomial(n, MONOS[k] if len(MONOS[k]) <= n else (1,)) for k in ks]
    f[0] * f[1]
    SymmetricMonomial(n + 1, f[2].mu) * SymmetricMonomial(n + 1, f[3].mu)
    p = f[2] * f[3]
    a, b = coeffs_of(f[2].polynomial()), coeffs_of(f[3].polynomial())
    same(sx, coeffs_of(p.polynomial()), pmul(a, b), 'product')


def jobs(tier):
    out = []
    big = tier != 'quick'

    def add(f, *a):
        out.append({'f': f, 'args': list(a)})
    for n, a, b in [(1, 0, 0), (1, 1, 0), (1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 2, 2), (3, 1, 1), (3, 2, 1), (3, 2, 2), (4, 1, 1), (4, 2, 1), (3, 3, 1), (4, 2, 2)] + \
            ([(3, 3, 2), (5, 2, 2), (4, 3, 1)] if big else []):
        add('product', n, a, b)
    for n, a in [(1, 0), (1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 2)]:
        add('expand', n, a)
    for n, a, b in [(1, (0, 1, 2), (0, 1, 5)), (2, (0, 1, 3), (1, 2)), (3, (1, 3), (3, 4)), (2, (1, 4), (1, 4)), (3, (4,), (2, 4))]:
        add('ring', n, a, b, False)
    for n, a, b in [(1, (0, 1), (0, 1)), (2, (1, 3), (1,)), (2, (3, 4), (2,))]:
        add('ring', n, a, b, True)
    for n, a in [(1, 1), (2, 1), (2, 2), (3, 1)]:
        for k in range(0, 4 + (big and a < 2)):
            if not (k == 3 and (n, a) == (2, 2)) or big:
                add('power', n, a, k)
    for n in (2, 3):
        for a in range(len(MONOS)):
            add('mixed', n, a)
    for n, w in [(2, (0, 1, 2)), (2, (1, 2, 3)), (3, (1, 4, 5)), (3, (0, 3, 4))]:
        add('queries', n, w)
    add('history', 2)
    if big:
        add('history', 3)
    return out
