"""Small independent reference definitions shared by the harnesses."""


def ite(c, a, b):
    """a conditional value (merged, not forked, when symbolic)"""
    return a if c else b


def ind(c):
    return 1 if c else 0


def mono(*pairs):
    """Canonical monomial: sorted ((index, exponent), ...) with nonzero exponents."""
    d = {}
    for i, e in pairs:
        d[i] = d.get(i, 0) + e
    return tuple(sorted((i, d[i]) for i in d if d[i] != 0))


def padd(a, b):
    ans = {}
    for m in a:
        ans[m] = a[m]
    for m in b:
        ans[m] = ans.get(m, 0) + b[m]
    return ans


def pscale(a, c):
    return {m: a[m] * c for m in a}


def pmul(a, b):
    ans = {}
    for m in a:
        for n in b:
            k = mono(*(m + n))
            ans[k] = ans.get(k, 0) + a[m] * b[n]
    return ans


def coeffs_of(p):
    """The coefficient table of a library polynomial as {mono: coefficient}."""
    if isinstance(p, int):
        return {(): p}
    ans = {}
    for ind in p.coeffs:
        m = tuple(sorted((i, ind[i]) for i in ind))
        assert m not in ans, 'duplicate monomial stored'
        ans[m] = p.coeffs[ind]
    return ans


def same(sx, a, b, msg):
    """a, b: tables {mono: coefficient}; equal as polynomials."""
    for m in a:
        sx.check(a[m] == b.get(m, 0), msg)
    for m in b:
        if m not in a:
            sx.check(b[m] == 0, msg)


def canonical(sx, p, msg='canonical form'):
    for ind in p.coeffs:
        sx.check(p.coeffs[ind] != 0, msg + ': zero coefficient stored')
        for i in ind:
            sx.check(ind[i] != 0, msg + ': zero exponent stored')


# ---------------------------------------------------------------- partitions

def part(sx, tag, n, strict=False, top=None, floor=1):
    """A partition with exactly n parts (>= floor), parts symbolic."""
    xs = [sx.int('%s%d' % (tag, i)) for i in range(n)]
    for i in range(n):
        if i + 1 < n:
            sx.assume(xs[i] > xs[i + 1] if strict else xs[i] >= xs[i + 1])
    if n:
        sx.assume(xs[n - 1] >= floor)
        if top is not None:
            sx.assume(xs[0] <= top)
    return tuple(xs)


def nth(mu, i):
    """mu_i, 1-based, zero outside."""
    ans = 0
    for k in range(len(mu)):
        if i == k + 1:
            ans = mu[k]
    return ans


def padded(mu, n):
    return tuple(mu) + (0,) * (n - len(mu))


def is_part(x):
    return all(x[i] >= x[i + 1] for i in range(len(x) - 1)) and all(a >= 0 for a in x)


def is_strict_part(x):
    """strict up to trailing zeros"""
    return all((x[i] > x[i + 1]) or (x[i] == 0 and x[i + 1] == 0) for i in range(len(x) - 1)) and all(a >= 0 for a in x)


def trimmed(mu):
    return len(mu) == 0 or mu[-1] != 0


def members(sx, got, x, pred, msg, trim=True):
    """the listed tuples are exactly the tuples x (all integers) with pred"""
    n = len(x)
    for t in got:
        sx.check(len(t) <= n and (trimmed(t) or not trim), msg + ': listed value is trimmed and short enough')
    ps = [padded(t, n) for t in got]
    for i in range(len(ps)):
        for j in range(i):
            sx.check(ps[i] != ps[j], msg + ': no repetition')
    sx.check(any(all(a == b for a, b in zip(p, x)) for p in ps) == pred, msg + ': listed exactly when it qualifies')
