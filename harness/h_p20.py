"""Operators that add or remove boxes of shifted shapes, extended linearly."""
import operators
import dualops
from vectors import Vector
from polynomials import Polynomial
from ref import ite, ind, coeffs_of

BOUNDS = ('strict partitions with up to 3 parts of size at most 5 (thorough 4 parts of size at most 7), every index or interval, vectors of up to 2 partitions with arbitrary integer '
          'coefficients; single operators also on one part up to 14, two up to 9, five up to 6; products of operators for n up to 3 (thorough 4), and 6 or 7 (thorough 8 to 10) on partitions with up to two parts')
OUTSIDE = 'larger shapes, more terms'


def strict(sx, tag, k, top):
    xs = []
    for i in range(k):
        xs.append(sx.int('%s%d' % (tag, i), 1, top))
        if i:
            sx.assume(xs[-1] < xs[-2])
    return tuple(xs)


def corner_add(mu, d):
    """mu with a box added on diagonal d, or None"""
    for r in range(len(mu) + 1):
        m = mu[r] if r < len(mu) else 0
        if m == d and (r == 0 or mu[r - 1] > m + 1):
            return mu[:r] + (m + 1,) + mu[r + 1:]
    return None


def corner_row(mu, d):
    """the row (from 0) whose last box is removable and on diagonal d"""
    for r in range(len(mu)):
        low = mu[r + 1] if r + 1 < len(mu) else 0
        if mu[r] == d + 1 and (mu[r] - 1 > low or (r + 1 == len(mu) and mu[r] == 1)):
            return r
    return None


def trim(mu):
    return tuple(x for x in mu if x)


def is_strict(mu):
    return all(mu[i] > mu[i + 1] or mu[i] == mu[i + 1] == 0 for i in range(len(mu) - 1)) and all(x >= 0 for x in mu)


def ref_add(mu, d):
    """{shape: {beta exponent: 1}}"""
    if corner_row(mu, d) is not None:
        return [(mu, 1, 1)]
    nu = corner_add(mu, d)
    return [] if nu is None else [(nu, 0, 1)]


def ref_row(mu, d):
    r = corner_row(mu, d)
    out = []
    if r is not None:
        for e in range(mu[r]):
            nu = mu[:r] + (mu[r] - e - 1,) + mu[r + 1:]
            if not is_strict(nu):
                break
            out.append((trim(nu), e, (-1)**e))
    return out


def ref_col(mu, d):
    r = corner_row(mu, d)
    out = []
    if r is not None:
        c = r + d
        nu = list(mu)
        e = 0
        while r >= 0 and nu[r] + r - 1 == c:
            nu[r] -= 1
            out.append((trim(nu), e, (-1)**e))
            e, r = e + 1, r - 1
    return out


def tab(v):
    """{(shape, exponents): coefficient} of a vector over beta, x, y"""
    ans = {}
    if type(v) == int:
        return ans
    for mu, c in v.items():
        for m, k in coeffs_of(c).items():
            ans[(mu, m)] = k
    return ans


def act(f, u, extra=()):
    ans = {}
    for (mu, m), k in u.items():
        for nu, e, s in f(mu):
            d = {}
            for i, t in tuple(m) + ((0, e),) + tuple(extra):
                d[i] = d.get(i, 0) + t
            key = (nu, tuple(sorted((i, t) for i, t in d.items() if t)))
            ans[key] = ans.get(key, 0) + s * k
    return ans


def plus(u, v):
    ans = dict(u)
    for k in v:
        ans[k] = ans.get(k, 0) + v[k]
    return ans


def equal(sx, u, v, msg):
    sx.check(sum([ind(x != 0) for x in u.values()]) == sum([ind(x != 0) for x in v.values()]), msg)
    for k in set(u) | set(v):
        sx.check(u.get(k, 0) == v.get(k, 0), msg)


KINDS = {'add': ('operator_shifted_add', ref_add), 'row': ('operator_shifted_row_remove', ref_row), 'col': ('operator_shifted_column_remove', ref_col)}


def single(sx, kind, k, top):
    """one operator applied to a partition"""
    mu = strict(sx, 'm', k, top)
    d = sx.pick('d', -top - 1, top + 1)
    name, f = KINDS[kind]
    equal(sx, tab(getattr(operators, name)(d)(mu)), act(lambda m: f(m, abs(d)), {(mu, ()): 1}), 'value on a partition')


def linear(sx, kind, a, b, top):
    """one operator applied to a combination"""
    mu, nu = strict(sx, 'm', a, top), strict(sx, 'n', b, top)
    sx.assume(mu > nu)
    d = sx.pick('d', 0, top)
    name, f = KINDS[kind]
    c, e, k = sx.int('c'), sx.int('e'), sx.pick('k', 0, 1)
    v = Vector({mu: c, nu: e * operators.beta**k})
    old = tab(v)
    equal(sx, tab(getattr(operators, name)(d)(v)), act(lambda m: f(m, d), old), 'linear extension')
    equal(sx, tab(v), old, 'the argument is not changed')


def composite(sx, name, k, top, n):
    """AL, AR, R, C as products of the factors 1 + x * operator"""
    mu = strict(sx, 'm', k, top)
    c = sx.int('c', 1)
    kind, order, var = {'AL': ('add', range(n + 1), operators.yvar), 'AR': ('add', range(n, -1, -1), operators.yvar),
                        'R': ('row', range(n + 1), operators.xvar), 'C': ('col', range(n, 0, -1), operators.xvar)}[name]
    i = list(coeffs_of(var))[0]
    u = {(mu, ()): c}
    for d in order:
        u = plus(u, act(lambda m: KINDS[kind][1](m, d), u, i))
    v = Vector({mu: c})
    equal(sx, tab(getattr(operators, 'operator_' + name)(n)(v)), u, 'product of the factors')
    equal(sx, tab(v), {(mu, ()): c}, 'the argument is not changed')


def relations(sx, k, top):
    """the adding operators are idempotent up to beta, commute at a distance and braid"""
    mu = strict(sx, 'm', k, top)
    c = sx.int('c')
    i, j = sx.pick('i', 0, top), sx.pick('j', 0, top)
    u, w = operators.operator_shifted_add(i), operators.operator_shifted_add(j)
    app = lambda f, x: Vector() if type(x) == int else f(x)
    v = Vector({mu: c})
    equal(sx, tab(app(u, app(u, v))), tab(Vector() + operators.beta * u(v) if type(u(v)) != int else 0), 'applying twice is multiplication by beta')
    if abs(i - j) > 1:
        equal(sx, tab(app(u, app(w, v))), tab(app(w, app(u, v))), 'distant operators commute')


def strips(sx, k, top, width):
    """horizontal and vertical strips in one row or column on the diagonals a to b"""
    mu = strict(sx, 'm', k, top)
    a = sx.pick('a', 0, top + 1)
    b = sx.pick('b', a, a + width)
    want_h = want_v = None
    # the row of the first box: the box of diagonal a that is not in the shape and whose left neighbour is
    for r in range(len(mu) + 1):
        m = mu[r] if r < len(mu) else 0
        nu = mu[:r] + (b + 1,) + mu[r + 1:]
        if m == a and is_strict(nu) and b + 1 < (mu[r - 1] if r else b + 2):
            want_h = nu
        # a column ending in row r, on diagonals b (top) to a (bottom)
        top_row = r - (b - a)
        if m == a and top_row >= 0 and all(mu[q] == a + r - q for q in range(top_row, r)):
            nv = mu[:top_row] + tuple(a + r - q + 1 for q in range(top_row, r + 1)) + mu[r + 1:]
            if is_strict(nv) and (top_row == 0 or mu[top_row - 1] > nv[top_row]):
                want_v = nv
    h, v = dualops.sh_horizontal_strip(a, b), dualops.sh_vertical_strip(a, b)
    sx.check(h(mu) == want_h, 'horizontal strip')
    sx.check(v(mu) == want_v, 'vertical strip')
    sx.check(h(None) is None and v(None) is None, 'nothing in, nothing out')


def jobs(tier):
    big = tier != 'quick'
    out = []

    def add(f, *a):
        out.append({'f': f, 'args': list(a)})
    for kind in KINDS:
        for k in range(0, 4 + big):
            add('single', kind, k, 7 if big else 5)
        for a, b in [(1, 0), (1, 1), (2, 1), (2, 2)]:
            add('linear', kind, a, b, 5 if big and (a, b) != (2, 2) else 4)
    for name in ('AL', 'AR', 'R', 'C'):
        for k in range(0, 4):
            for n in range(0, 4 + big):
                add('composite', name, k, 4 if k < 3 else 5, n)
        for n in range(4, 8 if not big else 11):
            add('composite', name, 0, 1, n)
        for n in range(4, 7 if not big else 9):
            add('composite', name, 1, n + 2, n)
            add('composite', name, 2, 4 + big, n)
        add('composite', name, 3, 4 + big, 4)
    for kind in KINDS:
        add('single', kind, 1, 14)
        add('single', kind, 2, 9)
        add('single', kind, 4, 6)
        add('single', kind, 5, 6)
    for k in range(0, 3 + big):
        add('relations', k, 4 + big)
    for k in range(0, 4 + big):
        add('strips', k, 7 if big else 5, 3)
    return out
