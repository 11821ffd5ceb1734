"""Ring laws of polynomials, for all coefficients (and exponents, and indices)."""
from polynomials import Polynomial, HashableDict, X, Y
from ref import mono, padd, pscale, pmul, coeffs_of, same, canonical

BOUNDS = ('coefficients: all integers. Supports: up to 3 monomials per operand in up to 3 variables with exponents in -2..3 '
          '(concrete-support harnesses); up to 2 monomials per operand with all integer exponents and all integer indices '
          '(symbolic-exponent and symbolic-index harnesses). Powers up to 4 (14 for an arbitrary multiple of a monomial plus fixed terms, thorough 26) and, on monomials, down to -11. '
          'Products of up to 4 terms (thorough 6) with arbitrary coefficients by up to 6 fixed terms.')
OUTSIDE = 'more monomials per operand than stated; indices that are not integers'

M = Polynomial.MAX_INT
SUPPORTS = [
    [[], [[1, 1]], [[0, 1]]],
    [[[1, 2]], [[1, 1], [2, 1]], [[2, 2]]],
    [[[1, -1]], [[2, 1]], [[0, 2], [1, 1]]],
    [[[3, 3]], [[-2, 1], [1, -2]]],
    [[[M, 1]], []],
    [[[8, 1], [0, 1]], [[0, 1], [8, 2]]],
]


def build(sx, tag, supp):
    p = Polynomial.zero()
    ref = {}
    for k, mon in enumerate(supp):
        c = sx.int('%s%d' % (tag, k))
        t = Polynomial.one()
        for i, e in mon:
            t = t * Polynomial.monomial(i, e)
        p = p + t * c
        ref[mono(*[tuple(x) for x in mon])] = c
    return p, ref


def freeze(p):
    return [(dict(i), p.coeffs[i]) for i in p.coeffs]


def sums(sx, s1, s2):
    p, rp = build(sx, 'a', s1)
    q, rq = build(sx, 'b', s2)
    n = sx.int('n')
    fp, fq = freeze(p), freeze(q)
    neg = pscale(rq, -1)
    for val, want, what in [
        (p + q, padd(rp, rq), 'p+q'), (q + p, padd(rp, rq), 'q+p'), (p - q, padd(rp, neg), 'p-q'), (-q, neg, '-q'),
        (p + n, padd(rp, {(): n}), 'p+n'), (n + p, padd(rp, {(): n}), 'n+p'), (p - n, padd(rp, {(): -n}), 'p-n'),
        (n - p, padd(pscale(rp, -1), {(): n}), 'n-p'), (p * n, pscale(rp, n), 'p*n'), (n * p, pscale(rp, n), 'n*p'),
        (sum([p, q, p]), padd(padd(rp, rq), rp), 'sum'),
    ]:
        same(sx, coeffs_of(val), want, what)
        canonical(sx, val, what)
    sx.check((p - p).is_zero() and not (p - p), 'p-p is zero')
    sx.check(p + Polynomial.zero() == p and p * 1 == p and p + 0 == p, 'neutral elements')
    sx.check(freeze(p) == fp and freeze(q) == fq, 'operands unchanged')


def products(sx, s1, s2):
    p, rp = build(sx, 'a', s1)
    q, rq = build(sx, 'b', s2)
    fp, fq = freeze(p), freeze(q)
    pq = p * q
    same(sx, coeffs_of(pq), pmul(rp, rq), 'p*q')
    canonical(sx, pq, 'p*q')
    same(sx, coeffs_of(q * p), pmul(rp, rq), 'q*p')
    sx.check(freeze(p) == fp and freeze(q) == fq, 'operands unchanged')


def powers(sx, s1, top):
    p, rp = build(sx, 'a', s1)
    want = {(): 1}
    for k in range(top + 1):
        v = p ** k
        same(sx, coeffs_of(v), want, 'p**%d' % k)
        canonical(sx, v, 'p**%d' % k)
        want = pmul(want, rp)


def laws(sx, s1, s2, s3):
    p, _ = build(sx, 'a', s1)
    q, _ = build(sx, 'b', s2)
    r, _ = build(sx, 'c', s3)
    same(sx, coeffs_of((p + q) + r), coeffs_of(p + (q + r)), 'associativity of +')
    same(sx, coeffs_of((p * q) * r), coeffs_of(p * (q * r)), 'associativity of *')
    same(sx, coeffs_of(p * (q + r)), coeffs_of(p * q + p * r), 'distributivity')


def equality(sx, s1, s2):
    p, rp = build(sx, 'a', s1)
    q, rq = build(sx, 'b', s2)
    same_ref = all(rp.get(m, 0) == rq.get(m, 0) for m in list(rp) + list(rq))
    eq = (p == q)
    sx.check(eq == same_ref, '== is equality of coefficients')
    sx.check((p != q) != eq, '!= negates ==')
    n = sx.int('n')
    is_n = all((c == n) if m == () else (c == 0) for m, c in rp.items()) and (() in rp or n == 0)
    sx.check((p == n) == is_n, '== with an integer')
    sx.check(bool(p) == (not all(c == 0 for c in rp.values())), 'truth value')
    sx.check(p.is_zero() == all(c == 0 for c in rp.values()), 'is_zero')
    sx.check(p.constant_term() == rp.get((), 0), 'constant term')
    sx.check(p.nnz() == sum(1 if c != 0 else 0 for c in rp.values()), 'number of terms')
    for m in rp:
        sx.check(p[dict(m)] == rp[m], 'coefficient lookup')


def exponents(sx, i, j):
    """x_i^a x_j^b  with all integer exponents and coefficients"""
    a, b, c, d = sx.int('a'), sx.int('b'), sx.int('c'), sx.int('d')
    k, l = sx.int('k'), sx.int('l')
    sx.assume(k != 0)
    sx.assume(l != 0)
    p = Polynomial.monomial(i, a) * Polynomial.monomial(j, b) * k
    q = Polynomial.monomial(i, c) * Polynomial.monomial(j, d) * l
    rp, rq = {mono((i, a), (j, b)): k}, {mono((i, c), (j, d)): l}
    same(sx, coeffs_of(p), rp, 'monomial')
    same(sx, coeffs_of(p * q), pmul(rp, rq), 'product of monomials adds exponents')
    canonical(sx, p * q)
    s = p + q
    same(sx, coeffs_of(s), padd(rp, rq), 'sum of monomials')
    canonical(sx, s)


def indices(sx):
    """x_i^a * x_j^b with all integer indices"""
    i, j = sx.int('i'), sx.int('j')
    a, b = sx.int('a'), sx.int('b')
    p, q = Polynomial.monomial(i, a), Polynomial.monomial(j, b)
    same(sx, coeffs_of(p), {mono((i, a)): 1}, 'monomial')
    same(sx, coeffs_of(p * q), {mono((i, a), (j, b)): 1}, 'product')
    canonical(sx, p * q)
    same(sx, coeffs_of(p + q), padd({mono((i, a)): 1}, {mono((j, b)): 1}), 'sum')
    canonical(sx, p + q)


def generators(sx):
    i = sx.int('i')
    if i >= 0:
        same(sx, coeffs_of(X(i)), {mono((i, 1)): 1}, 'X(i)')
        sx.check(Polynomial.x(i) == X(i), 'x(i)')
        sx.check(Polynomial.y(i) == Y(-i), 'y(i)')
    else:
        same(sx, coeffs_of(Y(i)), {mono((i, 1)): 1}, 'Y(i)')
        sx.check(sx.raises(AssertionError, lambda: X(i)), 'X rejects negative indices')
    sx.check(X() == Polynomial.x(Polynomial.MAX_INT) and Y() == Polynomial.x(Polynomial.MIN_INT), 'defaults')


def inverses(sx, mon, top):
    """negative powers of a unit monomial invert it"""
    s = sx.choose('sign', [1, -1])
    t = Polynomial.one()
    for i, e in mon:
        t = t * Polynomial.monomial(i, e)
    t = t * s
    for k in range(1, top + 1):
        inv = t ** (-k)
        same(sx, coeffs_of(inv * (t ** k)), {(): 1}, 'p**-k inverts p**k')
        canonical(sx, inv)


def high_powers(sx, mon, rest, lo, hi):
    """(a m + r)^k for larger k"""
    a = sx.int('a')
    t = Polynomial.one()
    for i, e in mon:
        t = t * Polynomial.monomial(i, e)
    p = t * a
    rp = {mono(*[tuple(x) for x in mon]): a}
    for c, m in rest:
        u = Polynomial.one()
        for i, e in m:
            u = u * Polynomial.monomial(i, e)
        p = p + u * c
        rp = padd(rp, {mono(*[tuple(x) for x in m]): c})
    f = freeze(p)
    want = {(): 1}
    for k in range(hi + 1):
        if k >= lo:
            v = p ** k
            same(sx, coeffs_of(v), want, 'p**%d' % k)
            canonical(sx, v, 'p**%d' % k)
        want = pmul(want, rp)
    sx.check(freeze(p) == f, 'operand unchanged')


def long_products(sx, n, m):
    """many terms: one operand with arbitrary coefficients, the other with fixed ones"""
    s1 = [[[0, k % 2], [1 + k % 3, 1 + k // 2], [4, -k]] for k in range(n)]
    s1 = [[[i, e] for i, e in mon if e] for mon in s1]
    s2 = [[[1, k], [2, m - k], [5, k - 1]] for k in range(m)]
    s2 = [[[i, e] for i, e in mon if e] for mon in s2]
    p, rp = build(sx, 'a', s1)
    q, rq = Polynomial.zero(), {}
    for k, mon in enumerate(s2):
        u = Polynomial.one()
        for i, e in mon:
            u = u * Polynomial.monomial(i, e)
        c = (k * 7) % 5 - 2 or 3
        q = q + u * c
        rq = padd(rq, {mono(*[tuple(x) for x in mon]): c})
    same(sx, coeffs_of(p * q), pmul(rp, rq), 'p*q')
    same(sx, coeffs_of(q * p), pmul(rp, rq), 'q*p')
    same(sx, coeffs_of(p + q), padd(rp, rq), 'p+q')
    same(sx, coeffs_of(p - q), padd(rp, pscale(rq, -1)), 'p-q')
    canonical(sx, p * q)
    canonical(sx, p - q)
    sx.check(p * q == q * p and (p + q) - q == p, 'equality')


def inverse_exponents(sx):
    a, b = sx.int('a'), sx.int('b')
    t = Polynomial.monomial(1, a) * Polynomial.monomial(2, b)
    for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10):
        same(sx, coeffs_of(t ** k), {mono((1, a * k), (2, b * k)): 1}, 'powers of a monomial')
        same(sx, coeffs_of(t ** (-k) * t ** k), {(): 1}, 'p**-k inverts p**k')


def oplus(sx, s1, s2):
    p, rp = build(sx, 'a', s1)
    q, rq = build(sx, 'b', s2)
    want = padd(padd(rp, rq), pmul({mono((0, 1)): 1}, pmul(rp, rq)))
    same(sx, coeffs_of(p ^ q), want, 'p^q = p + q + beta*p*q')


def jobs(tier):
    out = []
    S = SUPPORTS
    pairs = [(0, 0), (0, 1), (0, 2), (1, 1), (2, 1), (3, 2), (3, 3), (4, 0), (5, 5), (2, 2), (4, 4)]
    for a, b in pairs:
        out.append({'f': 'sums', 'args': [S[a][:2], S[b][:2]], 'som': True})
        out.append({'f': 'products', 'args': [S[a][:2], S[b]], 'som': True})
        out.append({'f': 'oplus', 'args': [S[a][:2], S[b][:2]], 'som': True})
        out.append({'f': 'equality', 'args': [S[a], S[b]], 'som': True})
    for a in range(len(S)):
        out.append({'f': 'powers', 'args': [S[a][:2], 4 if tier == 'quick' else 5], 'som': True})
    for a, b, c in [(0, 1, 2), (2, 2, 2), (3, 0, 5), (1, 1, 1)]:
        out.append({'f': 'laws', 'args': [S[a][:2], S[b][:2], S[c][:1]], 'som': True})
    for i, j in [(1, 2), (0, 3), (-1, 1)]:
        out.append({'f': 'exponents', 'args': [i, j]})
    out.append({'f': 'indices'})
    out.append({'f': 'generators'})
    for mon in [[[1, 1]], [[1, 2], [2, -1]], [[0, 1], [3, 1], [4, -2]], []]:
        out.append({'f': 'inverses', 'args': [mon, 11]})
    out.append({'f': 'inverse_exponents'})
    for mon, rest in [([[1, 1]], [(1, [])]), ([[1, 1]], [(-2, [[2, 1]])]), ([], [(1, [[3, 1]])]), ([[1, 2], [2, -1]], []), ([], []), ([[1, 1]], [(1, [[2, 1]]), (-1, [])])]:
        for lo in range(0, 13 if tier == 'quick' else 25, 3):
            if len(rest) < 2 or lo < 7:
                out.append({'f': 'high_powers', 'args': [mon, rest, lo, lo + 2], 'som': True})
    for n, m in [(4, 4), (3, 6)] + ([(6, 5), (5, 2)] if tier != 'quick' else []):
        out.append({'f': 'long_products', 'args': [n, m], 'som': True, 'soft': n > 4})
    if tier != 'quick':
        for a in range(len(S)):
            for b in range(len(S)):
                out.append({'f': 'products', 'args': [S[a], S[b]], 'som': True})
                out.append({'f': 'laws', 'args': [S[a][:2], S[b][:2], S[(a + b) % len(S)][:2]], 'som': True, 'soft': True})
    return out
