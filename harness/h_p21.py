"""The algebra of formal row and column operators."""
from boxes import BoxOperator, r, c
from polynomials import Polynomial, X
from ref import ite, ind, coeffs_of

BOUNDS = ('operators with up to 2 terms (4 thorough) of up to 4 letters each (5 thorough), letters and coefficients arbitrary integers, beta exponents arbitrary '
          'nonnegative integers; commutators for n up to 2; string factors with index up to 12')
OUTSIDE = 'more terms, longer words'


def word(sx, tag, k):
    return (sx.int(tag + 'b', 0),) + tuple(sx.int('%s%d' % (tag, i)) for i in range(k))


def build(sx, tag, lens):
    """the library element and its list of (word, coefficient)"""
    terms, ans = [], BoxOperator()
    for i, k in enumerate(lens):
        w = word(sx, tag + str(i), k)
        co = sx.int('%sc%d' % (tag, i))
        ans = ans + BoxOperator(*w) * co
        terms.append((w, co))
    return ans, terms


def alive(w):
    """no two neighbouring letters are equal or opposite"""
    return all([(w[i] != w[i + 1]) & (w[i] != -w[i + 1]) for i in range(1, len(w) - 1)])


def eq(a, b):
    return len(a) == len(b) and all([x == y for x, y in zip(a, b)])


def coeff(terms, w):
    return sum([ite(eq(w, v), k, 0) for v, k in terms])


def match(sx, got, terms, msg):
    items = list(got.vector.items())
    for w, k in items:
        sx.check(k != 0, msg + ': no zero terms')
        sx.check(coeff(terms, w) == k, msg)
    for w, _ in terms:
        sx.check(coeff(terms, w) == sum([ite(eq(w, v), k, 0) for v, k in items]), msg)


def times(a, b):
    return [((v[0] + w[0],) + v[1:] + w[1:], ite(alive((0,) + v[1:] + w[1:]), j * k, 0)) for v, j in a for w, k in b]


def scale(a, k):
    return [(w, j * k) for w, j in a]


def product(sx, la, lb):
    a, x = build(sx, 'a', la)
    b, y = build(sx, 'b', lb)
    match(sx, a, x, 'element')
    p = a * b
    match(sx, p, times(x, y), 'product')
    match(sx, a + b, x + y, 'sum')
    match(sx, a - b, x + scale(y, -1), 'difference')
    match(sx, -a, scale(x, -1), 'negative')
    match(sx, a, x, 'the operands are not changed')
    sx.check((a - a == 0) and (p == a * b), 'equality')
    sx.check((a == b) == all([coeff(x, w) == coeff(y, w) for w, _ in x + y]), 'equality is equality of coefficients')
    sx.check((a == 0) == all([coeff(x, w) == 0 for w, _ in x]), 'equality with zero')


def associative(sx, la, lb, lc):
    a, _ = build(sx, 'a', la)
    b, _ = build(sx, 'b', lb)
    d, _ = build(sx, 'd', lc)
    sx.check((a * b) * d == a * (b * d), 'products associate')


def distributive(sx, la, lb, lc):
    a, _ = build(sx, 'a', la)
    b, _ = build(sx, 'b', lb)
    d, _ = build(sx, 'd', lc)
    sx.check((a * (b + d) == a * b + a * d) and ((b + d) * a == b * a + d * a), 'products distribute over sums')


def scalars(sx, la):
    a, x = build(sx, 'a', la)
    k = sx.int('k')
    one = [((0,), 1)]
    match(sx, a * k, scale(x, k), 'multiple')
    match(sx, k * a, scale(x, k), 'multiple')
    match(sx, a + k, x + scale(one, k), 'adding an integer')
    match(sx, k + a, x + scale(one, k), 'adding an integer')
    match(sx, a - k, x + scale(one, -k), 'subtracting an integer')
    match(sx, k - a, scale(x, -1) + scale(one, k), 'subtracting from an integer')
    match(sx, a * BoxOperator(0), times(x, one), 'one')
    p = X(1) * k + 1
    q = a * p
    for w, _ in x:
        t = coeff(x, w)
        got = [coeffs_of(v) for u, v in q.vector.items() if eq(u, w)]
        sx.check(len(got) <= 1, 'one term per word')
        got = got[0] if got else {}
        sx.check((got.get((), 0) == t) and (got.get(((1, 1),), 0) == k * t), 'polynomial multiple')


def strings(sx, la, side):
    a, x = build(sx, 'a', la)
    i = sx.pick('i', 0, 12)
    kind = sx.choose('kind', ['r', 'c', 'R', 'C'])
    l = -i if kind in 'cC' else i
    for bad in ('x1', '', '1', '-r1'):
        sx.check(sx.raises(Exception, lambda: a * bad) and sx.raises(Exception, lambda: bad * a), 'other strings are refused')
    sx.check((r(i) == BoxOperator(0, i)) and (c(i) == BoxOperator(0, -i)), 'generators')
    g = [((0, l), 1)]
    if side:
        match(sx, a * (kind + str(i)), times(x, g), 'a letter on the right')
    else:
        match(sx, (kind + str(i)) * a, times(g, x), 'a letter on the left')


def commutes(sx, n):
    """commutator(n): the two products (1 + x u_n) ... (1 + x u_-n), in x and in y, subtracted both ways round, then filtered"""
    got = BoxOperator.commutator(n)
    letters = list(range(n, -n - 1, -1))
    subs = [()]
    for l in letters:
        subs = subs + [w + (l,) for w in subs]
    subs = [w for w in subs if alive((0,) + w)]
    table = {}
    for u in subs:
        for v in subs:
            w = u + v
            if not alive((0,) + w) or any(sum(1 for a in w if abs(a) == abs(b)) - (n - abs(b)) > 1 for b in w):
                continue
            a, b = len(u), len(v)
            for e, k in (((a, b), 1), ((b, a), -1)):
                table[w, e] = table.get((w, e), 0) + k
    have = {}
    for w, p in got.vector.items():
        for m, k in coeffs_of(p).items():
            m = dict(m)
            have[tuple(w[1:]), (m.get(1, 0), m.get(-1, 0))] = k
            sx.check(w[0] == 0, 'no beta')
    # an arbitrary word and an arbitrary monomial
    size = sx.pick('size', 0, max([len(w) for w, _ in table] + [len(w) for w, _ in have] + [0]))
    w = [sx.int('w%d' % i) for i in range(size)]
    e = (sx.int('a'), sx.int('b'))

    def at(t):
        return sum([ite(eq(w, u) and (e[0] == f[0]) and (e[1] == f[1]), k, 0) for (u, f), k in t.items() if len(u) == size])
    sx.check(at(have) == at(table), 'coefficient of a word in the commutator')


def filtered(sx, lens, n):
    a, x = build(sx, 'a', lens)
    f = a.filter(n)

    def keep(w):
        ls = w[1:]
        return all([sum([ind((u == v) | (u == -v)) for u in ls]) - (n - ite(v < 0, -v, v)) <= 1 for v in ls])
    match(sx, f, [(w, ite(keep(w), k, 0)) for w, k in x], 'the words with few enough letters of each index are kept')
    match(sx, f * f, times([(w, ite(keep(w), k, 0)) for w, k in x], [(w, ite(keep(w), k, 0)) for w, k in x]), 'the result can be multiplied')


def jobs(tier):
    big = tier != 'quick'
    out = []

    def add(f, *a):
        out.append({'f': f, 'args': list(a)})
    for la, lb in [([], [1]), ([1], [1]), ([2], [1]), ([1], [2]), ([2], [2]), ([1, 1], [1]), ([0, 1], [1]), ([1], [1, 1]), ([1, 2], [1]),
                   ([1, 1], [1, 1]), ([3], [2]), ([2, 2], [1]), ([4], [3]), ([3, 2], [1]), ([0, 0], [2])] + \
            ([([1, 1, 1], [1]), ([2, 2], [2]), ([3, 3], [1]), ([5], [4]), ([2], [1, 2]), ([1, 1], [1, 1, 0]), ([3, 2], [2]), ([1, 1, 1, 1], [1]), ([2, 2], [2, 2])] if big else []):
        add('product', la, lb)
    for t in [([1], [1], [1]), ([2], [1], [1]), ([1], [2], [1]), ([1, 0], [1], [1]), ([2], [2], [1]), ([1, 1], [1], [2]), ([2], [2], [2])] + \
            ([([3], [2], [2]), ([1, 1], [1, 1], [1]), ([2, 1], [1], [1])] if big else []):
        add('associative', *t)
        add('distributive', *t)
    for la in [[], [0], [1], [2], [1, 0], [1, 1]]:
        add('scalars', la)
    for la in [[0], [1], [2], [1, 1]]:
        add('strings', la, True)
        add('strings', la, False)
    for la in [[1], [2], [3], [1, 2]]:
        for n in (0, 1, 3):
            add('filtered', la, n)
    for n in range(0, 3 if big else 2):
        add('commutes', n)
    return out
