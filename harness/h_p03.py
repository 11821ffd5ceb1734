"""Formal linear combinations (vectors): module laws, products, text form, span membership."""
from vectors import Vector
from polynomials import Polynomial, X
from ref import coeffs_of, same

BOUNDS = ('coefficients and scalars: all integers, or polynomials c0 + c1*beta with all integer c0, c1; up to 3 terms per vector; keys: '
          'fixed labels, or all integers (symbolic keys); span membership: up to 2 spanning vectors and 3 coordinates with entries in '
          '-1..1 (2 x 2; -2..2 thorough), -2..2 (2 x 1) or -4..4 (1 x n); printers and multiplication rules carried through one operation, each of three kinds on each operand')
OUTSIDE = 'more terms or larger systems than stated'
K = [(), (1,), (2, 1)]


def vec(sx, tag, ks, mult=None):
    ref = {}
    for k in ks:
        ref[k] = sx.int(tag + 'c' + ''.join(str(i) for i in k))
    v = Vector({}, multiplier=mult)
    for k in ks:
        v = v + Vector.base(k, multiplier=mult) * ref[k]
    return v, ref


def agree(sx, v, ref, msg):
    for k in set(list(ref) + list(v.keys())):
        sx.check(v[k] == ref.get(k, 0), msg)
    for k, c in v.items():
        sx.check(c != 0, msg + ': zero coefficient stored')
    sx.check(len(v) == sum(1 if ref[k] != 0 else 0 for k in ref), msg + ': number of terms')


def add(a, b, s=1):
    return {k: a.get(k, 0) + s * b.get(k, 0) for k in set(list(a) + list(b))}


def frozen(v):
    return [(k, c) for k, c in v.items()]


def module(sx, ka, kb):
    u, ru = vec(sx, 'a', ka)
    v, rv = vec(sx, 'b', kb)
    n = sx.int('n')
    fu, fv = frozen(u), frozen(v)
    agree(sx, u + v, add(ru, rv), 'u+v')
    agree(sx, v + u, add(ru, rv), 'v+u')
    agree(sx, u - v, add(ru, rv, -1), 'u-v')
    agree(sx, -u, {k: -ru[k] for k in ru}, '-u')
    sx.check((u - u).is_zero() and u + 0 == u and 0 + u == u, 'zero')
    sx.check(frozen(u) == fu and frozen(v) == fv, 'operands unchanged')
    sx.check(sum([u, v]) == u + v, 'sum')


def scaling(sx, ka):
    u, ru = vec(sx, 'a', ka)
    n = sx.int('n')
    agree(sx, u * n, {k: ru[k] * n for k in ru}, 'u*n')
    agree(sx, n * u, {k: ru[k] * n for k in ru}, 'n*u')
    sx.check(u * 1 == u and (u * 0).is_zero(), 'unit and zero scalar')


def division(sx, ka):
    u, ru = vec(sx, 'a', ka)
    d = sx.choose('d', [2, 3, 7, -2])
    agree(sx, u // d, {k: ru[k] // d for k in ru}, 'u//n')


def predicates(sx, ka, kb):
    u, ru = vec(sx, 'a', ka)
    v, rv = vec(sx, 'b', kb)
    eq = all(ru.get(k, 0) == rv.get(k, 0) for k in set(list(ru) + list(rv)))
    sx.check((u == v) == eq, '== is equality of coefficients')
    z = all(c == 0 for c in ru.values())
    sx.check(u.is_zero() == z and (u == 0) == z, 'zero test')
    nn = all(c >= 0 for c in ru.values())
    sx.check(u.is_nonnegative() == nn, 'nonnegativity')
    sx.check(u.is_positive() == (nn and not z), 'positivity')
    single = sum(1 if c != 0 else 0 for c in ru.values()) == 1 and all((c == 0) or (c == 1) for c in ru.values())
    sx.check(u.is_singleton() == single, 'singleton')


def polyscalars(sx, ka):
    """polynomial coefficients"""
    a = {k: (sx.int('p%d' % i), sx.int('q%d' % i)) for i, k in enumerate(ka)}
    b = X(0)
    u = Vector({})
    for k in ka:
        u = u + Vector.base(k) * (b * a[k][1] + a[k][0])
    s, t = sx.int('s'), sx.int('t')
    w = u * (b * t + s)
    for k in ka:
        same(sx, coeffs_of(u[k]), {(): a[k][0], ((0, 1),): a[k][1]}, 'polynomial coefficient')
        same(sx, coeffs_of(w[k]), {(): a[k][0] * s, ((0, 1),): a[k][0] * t + a[k][1] * s, ((0, 2),): a[k][1] * t}, 'polynomial scalar')
    for k, c in list(u.items()) + list(w.items()):
        sx.check(c != 0, 'zero coefficient stored')
    sx.check((w - w).is_zero() and w - u * s - u * t * b == 0, 'linearity')


def concat(a, b):
    return [(a + b, 1)]


def fork(a, b):
    return [(a + b, 2), (b + a, -1)]


def table(ra, rb, m):
    ans = {}
    for x in ra:
        for y in rb:
            for k, c in m(x, y):
                ans[k] = ans.get(k, 0) + ra[x] * rb[y] * c
    return ans


def product(sx, ka, kb, which):
    m = {'concat': concat, 'fork': fork}[which]
    u, ru = vec(sx, 'a', ka, m)
    v, rv = vec(sx, 'b', kb, m)
    agree(sx, u * v, table(ru, rv, m), 'u*v')


def powers(sx, ka):
    u, ru = vec(sx, 'a', ka, concat)
    want = ru
    for k in range(1, 5):
        agree(sx, u ** k, want, 'u**%d' % k)
        want = table(want, ru, concat)


def symkeys(sx):
    """keys are arbitrary integers, multiplied as integers"""
    x, y, z = sx.int('x'), sx.int('y'), sx.int('z')
    a, b, c = sx.int('a'), sx.int('b'), sx.int('c')
    u = Vector({x: a})
    v = Vector({y: b})
    w = u + v
    sx.check(w[z] == (a if x == z else 0) + (b if y == z else 0), 'coefficient of any key in a sum')
    d = u - v
    sx.check(d[z] == (a if x == z else 0) - (b if y == z else 0), 'coefficient of any key in a difference')
    for _, cc in list(w.items()) + list(d.items()):
        sx.check(cc != 0, 'zero coefficient stored')


def symkeys_product(sx):
    x, y = sx.int('x'), sx.int('y', 1, 3)
    a, b, c = sx.int('a'), sx.int('b'), sx.int('c')
    u = Vector({x: a}) + Vector({1: b})
    v = Vector({2: c})
    w = u * v
    sx.check(w[2 * y] == (a * c if x == y else 0) + (b * c if y == 1 else 0), 'product multiplies keys')


def text(sx, ka):
    ca = [sx.int('a%d' % i, -2, 2) for i in range(len(ka))]
    cb = [sx.int('b%d' % i, -1, 1) for i in range(len(ka))]
    u, v = Vector({}), Vector({})
    for i in range(len(ka)):
        u = u + Vector.base(ka[i]) * (X(0) * cb[i] + ca[i])
    for i in reversed(range(len(ka))):
        v = v + Vector.base(ka[i]) * ca[i] + Vector.base(ka[i]) * X(0) * cb[i]
    sx.check(u == v, 'same vector')
    sx.check(str(u) == str(v) and hash(u) == hash(v), 'equal vectors print and hash alike')


def span(sx, rows, cols, b):
    A = [[sx.int('m%d%d' % (i, j), -b, b) for j in range(cols)] for i in range(rows)]
    t = [sx.int('t%d' % i, -b, b) for i in range(rows)]
    args = [Vector({i: A[i][j] for i in range(rows)}) for j in range(cols)]
    v = Vector({i: t[i] for i in range(rows)})
    got = v.is_expressable(*args)
    aug = [A[i] + [t[i]] for i in range(rows)]
    sx.check(got == (rank(A) == rank(aug)), 'span membership')


def shown(k):
    return 'e%d' % k


def told(k):
    return 'f%d' % k


def addkeys(a, b):
    return [(a + b, 1)]


def subkeys(a, b):
    return [(a - b, 1), (a, 2)]


def mulkeys(a, b):
    return [(a * b, 1)]


def carried(sx, op):
    """printer and multiplication rule of a result: those of the first operand that has one"""
    prs, mus = [None, shown, told], [None, addkeys, subkeys]
    a, b, c = sx.int('a'), sx.int('b'), sx.int('c')
    pu, pv = sx.choose('pu', [0, 1, 2]), sx.choose('pv', [0, 1, 2])
    mu, mv = sx.choose('mu', [0, 1, 2]), sx.choose('mv', [0, 1, 2])
    u = Vector({2: a, 3: b}, prs[pu], mus[mu])
    v = Vector({2: 1, 5: c}, prs[pv], mus[mv])
    ru, rv = {2: a, 3: b}, {2: 1, 5: c}
    m = mus[mu] or mus[mv] or mulkeys
    if op == 'add':
        w, ref = u + v, add(ru, rv)
    elif op == 'sub':
        w, ref = u - v, add(ru, rv, -1)
    elif op == 'mul':
        sx.assume((mu != 0) | (mv == 0))
        w, ref = u * v, table(ru, rv, m)
    elif op == 'scale':
        w, ref = u * 3, {k: 3 * ru[k] for k in ru}
    elif op == 'neg':
        w, ref = -u, {k: -ru[k] for k in ru}
    else:
        w, ref = u ** 2, table(ru, ru, mus[mu] or mulkeys)
    agree(sx, w, ref, 'value')
    one = op in ('scale', 'neg', 'pow')
    pr, m = prs[pu] or (None if one else prs[pv]), mus[mu] or (None if one else mus[mv])
    agree(sx, w * Vector({7: 1}), table(ref, {7: 1}, m or mulkeys), 'the result multiplies by the same rule')
    s = Vector({2: 1, 5: -1}, prs[pu], mus[mu])
    t = Vector({5: 3}, prs[pv], mus[mv])
    r = {'add': lambda: s + t, 'sub': lambda: s - t, 'scale': lambda: s * 3, 'neg': lambda: -s}.get(op, lambda: None)()
    if r is not None:
        name = (pr or repr)
        co = {'add': (1, 2), 'sub': (1, -4), 'scale': (3, -3), 'neg': (-1, 1)}[op]
        sx.check(all(name(k) in str(r) for k in (2, 5)), 'the text uses the printer')
        sx.check(str(r) == Vector({2: co[0], 5: co[1]}, pr).__repr__(), 'text')
        sx.check(r.is_zero() or (Vector({2: co[0], 5: co[1]}) == r), 'the printer does not matter for equality')


def rank(M):
    r = len(M)
    c = len(M[0]) if M else 0
    import itertools
    for k in range(min(r, c), 0, -1):
        if any(det([[M[i][j] for j in J] for i in I]) != 0 for I in itertools.combinations(range(r), k)
               for J in itertools.combinations(range(c), k)):
            return k
    return 0


def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([row[:j] + row[j + 1:] for row in M[1:]]) for j in range(len(M)))


def combination(sx):
    """an explicit combination of the arguments is always in their span"""
    p, q = sx.pick('p', -2, 2), sx.pick('q', -2, 2)
    u = Vector({'x': 2, 'y': -1, 'z': 3})
    w = Vector({'y': 4, 'z': 6})
    sx.check((u * p + w * q).is_expressable(u, w), 'combinations are expressible')
    sx.check(not (u * p + w * q + Vector({'t': 1})).is_expressable(u, w), 'an outside coordinate is not')


def jobs(tier):
    out = []
    for ka, kb in [([], [()]), ([()], [()]), (K[:2], K[1:]), (K, K), (K[:1], K[2:])]:
        out.append({'f': 'module', 'args': [ka, kb], 'som': True})
        out.append({'f': 'predicates', 'args': [ka, kb]})
        out.append({'f': 'product', 'args': [ka[:2], kb[:2], 'concat'], 'som': True})
        out.append({'f': 'product', 'args': [ka[:2], kb[:2], 'fork'], 'som': True})
    for ka in ([()], K[1:2], K[:2], K):
        out.append({'f': 'scaling', 'args': [ka], 'som': True})
        out.append({'f': 'division', 'args': [ka]})
        if len(ka) < 3:
            out.append({'f': 'polyscalars', 'args': [ka], 'som': True})
            out.append({'f': 'powers', 'args': [ka], 'som': True, 'soft': len(ka) > 1})
    out.append({'f': 'text', 'args': [K[:2]]})
    out.append({'f': 'text', 'args': [K[1:]]})
    for op in ('add', 'sub', 'mul', 'scale', 'neg', 'pow'):
        out.append({'f': 'carried', 'args': [op], 'som': True})
    out.append({'f': 'symkeys'})
    out.append({'f': 'symkeys_product'})
    out.append({'f': 'combination'})
    out += [{'f': 'span', 'args': [1, 1, 4]}, {'f': 'span', 'args': [2, 1, 2]}, {'f': 'span', 'args': [2, 2, 1]}, {'f': 'span', 'args': [1, 2, 3]},
            {'f': 'span', 'args': [1, 3, 2]}]
    if tier != 'quick':
        out += [{'f': 'span', 'args': [3, 2, 1]}, {'f': 'span', 'args': [2, 2, 2], 'soft': True}, {'f': 'span', 'args': [2, 1, 4], 'soft': True}]
    for j in out:
        j['args'] = [[list(k) for k in a] if isinstance(a, list) else a for a in j.get('args', [])]
        # keys are tuples; jobs carry lists
    return out


def _tup(f):
    def g(sx, *args):
        return f(sx, *[[tuple(k) for k in a] if isinstance(a, list) else a for a in args])
    return g


module, predicates, product, scaling, division, polyscalars, powers, text = [
    _tup(f) for f in (module, predicates, product, scaling, division, polyscalars, powers, text)]
