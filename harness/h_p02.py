"""Polynomial operations beyond the ring structure."""
from polynomials import Polynomial, HashableDict, X, Y
from ref import mono, padd, pscale, pmul, coeffs_of, same, canonical
from h_p01 import build, freeze, SUPPORTS

BOUNDS = ('coefficients, moduli, divisors, truncation degrees, evaluation points: all integers. Supports: up to 3 monomials in up '
          'to 3 variables, exponents in -2..3 (0..3 where a value is substituted); text form and hash: coefficients in -2..2, '
          'two monomials with exponents in -1..2 over variables {beta, x_1, x_2, x_8, x_9, y_1}; '
          'reading the text back: two terms with coefficients and exponents of up to two digits; one term of degree up to 12 (thorough 13) with an arbitrary coefficient')
OUTSIDE = 'larger supports; substitution into negative exponents (rejected by the code)'

POS = [
    [[], [[1, 1]], [[1, 2]]],
    [[[1, 1], [2, 1]], [[1, 3]], [[2, 2]]],
    [[[0, 1], [1, 2]], [[0, 2]], [[-1, 1]]],
    [[[1, 2], [2, 1]], [[2, -1]], [[1, 1], [3, 1]]],
]


def ppow(a, k):
    ans = {(): 1}
    for _ in range(k):
        ans = pmul(ans, a)
    return ans


def compose(rp, i, re):
    ans = {}
    for m in rp:
        t = {(): rp[m]}
        for j, e in m:
            t = pmul(t, ppow(re, e) if j == i else {((j, e),): 1})
        ans = padd(ans, t)
    return ans


def coefficient(sx, s, i):
    p, rp = build(sx, 'a', s)
    k = sx.int('k')
    f = freeze(p)
    v = p.coefficient(i, k)
    want = {}
    for m in rp:
        e = dict(m).get(i, 0)
        if e == k:
            rest = tuple(x for x in m if x[0] != i)
            want = padd(want, {rest: rp[m]})
    same(sx, coeffs_of(v), want, 'coefficient of a power of a variable')
    canonical(sx, v)
    sx.check(freeze(p) == f, 'operand unchanged')


def decomposition(sx, s, i):
    p, rp = build(sx, 'a', s)
    total = Polynomial.zero()
    for k in range(-4, 5):
        total = total + p.coefficient(i, k) * Polynomial.monomial(i, k)
    same(sx, coeffs_of(total), rp, 'a polynomial is the sum of its coefficients times powers')


def substitute_poly(sx, s, i, s2):
    p, rp = build(sx, 'a', s)
    q, rq = build(sx, 'b', s2)
    f, g = freeze(p), freeze(q)
    v = p.substitute(i, q)
    same(sx, coeffs_of(v), compose(rp, i, rq), 'substitution of a polynomial')
    sx.check(freeze(p) == f and freeze(q) == g, 'operands unchanged')
    w = p({i: q})
    same(sx, coeffs_of(w), compose(rp, i, rq), 'evaluation at a polynomial')


def evaluate(sx, s, idx):
    p, rp = build(sx, 'a', s)
    at = {i: sx.int('v%d' % t) for t, i in enumerate(idx)}
    want = {}
    for m in rp:
        t = {(): rp[m]}
        for j, e in m:
            t = pmul(t, {(): at[j] ** e} if j in at else {((j, e),): 1})
        want = padd(want, t)
    v = p(at)
    same(sx, coeffs_of(v), want, 'evaluation at integers')
    for i in idx[:1]:
        w = p.substitute(i, at[i])
        same(sx, coeffs_of(w), compose(rp, i, {(): at[i]}), 'substitution of an integer')


def truncate(sx, s):
    p, rp = build(sx, 'a', s)
    d = sx.int('d')
    f = freeze(p)
    v = p.truncate(d)
    want = {}
    for m in rp:
        if sum(e for _, e in m) <= d:
            want[m] = rp[m]
    same(sx, coeffs_of(v), want, 'truncation keeps exactly the terms of degree at most d')
    canonical(sx, v)
    sx.check(freeze(p) == f, 'operand unchanged')


def degree(sx, s):
    p, rp = build(sx, 'a', s)
    live = [sum(e for _, e in m) for m in rp if rp[m] != 0]
    v = p.total_degree()
    if live:
        sx.check(v == max(live), 'total degree')
    else:
        sx.check(v is None, 'total degree of zero')


def degree_sym(sx):
    a, b, c, d = sx.int('a'), sx.int('b'), sx.int('c'), sx.int('d')
    k = sx.int('k')
    p = Polynomial.monomial(1, a) * Polynomial.monomial(2, b) + Polynomial.monomial(1, c) * Polynomial.monomial(3, d) * k
    if p.is_zero():
        return
    if k == 0:
        want = a + b
    elif a == c and b == 0 and d == 0:
        want = a
    else:
        want = max(a + b, c + d)
    sx.check(p.total_degree() == want, 'total degree with all integer exponents')


def modulo(sx, s):
    p, rp = build(sx, 'a', s)
    o = sx.int('o')
    sx.assume(o != 0)
    sx.assume(-5 <= o)
    sx.assume(o <= 5)
    o = [x for x in range(-5, 6) if x == o][0]
    same(sx, coeffs_of(p % o), {m: rp[m] % o for m in rp}, 'remainder of coefficients')
    canonical(sx, p % o, 'remainder')
    same(sx, coeffs_of(p // o), {m: rp[m] // o for m in rp}, 'floor quotient of coefficients')
    canonical(sx, p // o, 'floor quotient')
    same(sx, coeffs_of((p // o) * o + (p % o)), rp, 'quotient times divisor plus remainder')
    if all(c % o == 0 for c in rp.values()):
        same(sx, coeffs_of((p / o) * o), rp, 'exact quotient')
    else:
        sx.check(sx.raises(AssertionError, lambda: p / o), 'inexact quotient rejected')


def modulo_big(sx):
    c, o = sx.int('c'), sx.int('o')
    sx.assume(o >= 2)
    p = Polynomial.monomial(1) * (c * o)
    same(sx, coeffs_of(p / o), {((1, 1),): c}, 'exact quotient by any integer')


def linear(sx, s, i):
    q, rq = build(sx, 'a', s)
    c = sx.int('c')
    p = q * (Polynomial.x(i) + c)
    same(sx, coeffs_of(p.divide_linear(i, c)), rq, 'division by x(i) + c inverts multiplication')


VARS = [0, 1, 2, 8, 9, -1]


def text(sx, i, j, l, m):
    a = sx.int('a', -1, 2)
    b = sx.int('b', -1, 2)
    c = sx.int('c', -1, 2)
    d = sx.int('d', -1, 2)
    k = sx.int('k', -2, 2)
    xi, xj = Polynomial.monomial(i, a), Polynomial.monomial(j, b)
    yl, ym = Polynomial.monomial(l, c), Polynomial.monomial(m, d)
    p = (xi * xj) * k + yl * ym
    q = ym * yl + k * (xj * xi)
    sx.check(p == q, 'the same polynomial')
    sx.check(str(p) == str(q), 'equal polynomials have the same text form')
    sx.check(hash(p) == hash(q), 'equal polynomials have the same hash')
    r = (q + X(3)) - X(3)
    sx.check(hash(r) == hash(p), 'hash independent of the history of operations')


def distinct(sx, i, j, other):
    """the text determines the polynomial"""
    a, b = sx.pick('a', -1, 2), sx.pick('b', -1, 2)
    c, d = sx.pick('c', -1, 2), sx.pick('d', -1, 2)
    k, l = sx.pick('k', -1, 1), sx.pick('l', -1, 1)
    p = Polynomial.monomial(i, a) * Polynomial.monomial(j, b) * k
    q = Polynomial.monomial(i, c) * Polynomial.monomial(j, d) * l
    for r, s in ((p, q), (p + other, q + other), (p + Polynomial.monomial(j, 2), q + Polynomial.monomial(j, 2))):
        sx.check((str(r) == str(s)) == (r == s), 'text determines the polynomial')
        sx.check((r == s) <= (hash(r) == hash(s)), 'hash determined by the polynomial')


def read(text):
    """read a polynomial as a person would"""
    if text == '0':
        return {}
    ans = {}
    toks = text.replace(' - ', ' + -').split(' + ')
    if toks and toks[0].startswith('- '):
        toks[0] = '-' + toks[0][2:]
    for tok in toks:
        sign, tok = (-1, tok[1:]) if tok.startswith('-') else (1, tok)
        tok = tok.strip()
        digits = ''
        while tok and tok[0].isdigit():
            digits, tok = digits + tok[0], tok[1:]
        m = []
        for f in tok.split():
            v, _, e = f.partition('^')
            i = {'\u03b2': 0, 'x': Polynomial.MAX_INT, 'y': Polynomial.MIN_INT}.get(v)
            if i is None:
                i = int(v[2:]) if v[0] == 'x' else -int(v[2:])
            m.append((i, int(e) if e else 1))
        ans = padd(ans, {mono(*m): sign * int(digits or '1')})
    return ans


def read_back(sx, i, j, l, few):
    """the text of a polynomial can be read back, whatever the number of digits"""
    ks = [-12, -1, 0, 1, 2, 11]
    es = [-10, -1, 0, 1, 2, 12]
    k, a = sx.choose('k', ks), sx.choose('a', es)
    b = sx.choose('b', [0, 3] if few else es)
    m, c = sx.choose('m', [1, -1, 10] if few else ks), sx.choose('c', [0, 1, -11] if few else es)
    p = Polynomial.monomial(i, a) * Polynomial.monomial(j, b) * k + Polynomial.monomial(l, c) * m
    want = padd({mono((i, a), (j, b)): k}, {mono((l, c)): m})
    sx.check({x: v for x, v in read(str(p)).items() if v} == {x: v for x, v in want.items() if v}, 'the text reads back')


def order(sx, s1, s2):
    """p < q and q > p say that q - p has positive coefficients only"""
    p, rp = build(sx, 'a', s1)
    q, rq = build(sx, 'b', s2)
    diff = padd(rq, pscale(rp, -1))
    want = all(v == 0 or v > 0 for v in diff.values())
    sx.check((p < q) == want and (q > p) == want, 'comparison of polynomials')
    n = sx.int('n')
    diff = padd(rp, {(): -n})
    want = all(v == 0 or v > 0 for v in diff.values())
    sx.check((p > n) == want, 'comparison with an integer')
    diff = padd({(): n}, pscale(rp, -1))
    want = all(v == 0 or v > 0 for v in diff.values())
    sx.check((p < n) == want, 'comparison with an integer')


def high_degree(sx, d):
    """one term of arbitrary sign and larger degree"""
    lo = 1 if d > 3 else None
    c, v, n = sx.int('c', lo), sx.int('v', lo), sx.int('n', lo)
    p = Polynomial.monomial(1, d) * Polynomial.monomial(2, d // 2) * c + Polynomial.monomial(3) + n
    same(sx, coeffs_of(p.substitute(2, X(1) + 1)), compose({mono((1, d), (2, d // 2)): c, mono((3, 1)): 1, (): n}, 2, {((1, 1),): 1, (): 1}), 'substitution')
    same(sx, coeffs_of(p({2: v})), {mono((1, d)): c * v ** (d // 2), mono((3, 1)): 1, (): n}, 'evaluation')
    same(sx, coeffs_of(p.coefficient(1, d)), {mono((2, d // 2)): c}, 'coefficient')
    q = sum((Polynomial.monomial(1, e) * (c + e) for e in range(d + 1)), Polynomial.zero()) + Polynomial.monomial(2, d) * c
    same(sx, coeffs_of((q * (X(1) + n)).divide_linear(1, n)), coeffs_of(q), 'division by a linear factor')
    w = sx.pick('w', 0, d + 1)
    same(sx, coeffs_of(q.truncate(w)), {m: x for m, x in coeffs_of(q).items() if sum(e for _, e in m) <= w}, 'truncation')


def jobs(tier):
    out = []
    for s in POS:
        for i in (0, 1, 2):
            out.append({'f': 'coefficient', 'args': [s, i]})
            out.append({'f': 'decomposition', 'args': [s, i]})
    for s in SUPPORTS:
        out.append({'f': 'coefficient', 'args': [s, 1]})
        out.append({'f': 'truncate', 'args': [s]})
        out.append({'f': 'degree', 'args': [s]})
    for s in POS[:3]:
        for i in (1, 2):
            for s2 in ([[], [[2, 1]]], [[[1, 1]], [[3, -1]]], [[[1, 1], [2, 1]]]):
                out.append({'f': 'substitute_poly', 'args': [s, i, s2], 'som': True, 'soft': s2 != [[[1, 1], [2, 1]]]})
        out.append({'f': 'evaluate', 'args': [s, [1]], 'som': True})
        out.append({'f': 'evaluate', 'args': [s[:2], [1, 2]], 'som': True})
        out.append({'f': 'linear', 'args': [s[:2], 1], 'som': True})
    out.append({'f': 'degree_sym'})
    for i, j, l in ((1, 12, 2), (0, -11, 1), (Polynomial.MAX_INT, 10, 0), (11, 1, 1)):
        out.append({'f': 'read_back', 'args': [i, j, l, tier == 'quick'], 'validate_every': 20})
    for a in range(len(SUPPORTS)):
        out.append({'f': 'order', 'args': [SUPPORTS[a][:2], SUPPORTS[(a * a + 1) % len(SUPPORTS)][:2]]})
    for d in (2, 3, 4, 5, 6, 8) if tier == 'quick' else range(2, 10):
        out.append({'f': 'high_degree', 'args': [d], 'som': True})
    for s in SUPPORTS:
        out.append({'f': 'modulo', 'args': [s[:2]]})
    out.append({'f': 'modulo_big'})
    for i, j in ((1, 2), (0, -1), (9, 1)):
        out.append({'f': 'distinct', 'args': [i, j, 1 if tier == 'quick' else 3], 'validate_every': 50})
    pairs = [(1, 2), (0, 8), (8, 0), (8, 9), (1, -1), (9, 2)]
    for a, (i, j) in enumerate(pairs):
        for b, (l, m) in enumerate(pairs):
            if tier != 'quick' or (a, b) in ((0, 2), (4, 4)):
                out.append({'f': 'text', 'args': [i, j, l, m], 'validate_every': 3})
    return out
