"""Schur-like symmetric functions equal their tableau sums and their determinant, symmetrization and kernel formulas."""
import itertools
import utils
from polynomials import Polynomial, beta
from partitions import Partition
from permutations import Permutation
from symmetric import SymmetricMonomial, SymmetricPolynomial
from ref import ite, ind, coeffs_of
from oracle import symfun as ref

SP = SymmetricPolynomial
STRAIGHT = {'s': 'schur', 'S': 'schur_s', 'G': 'stable_grothendieck', 'GS': 'stable_grothendieck_s', 'g': 'dual_stable_grothendieck',
            'gs': 'dual_stable_grothendieck_s', 'j': 'slow_transposed_dual_stable_grothendieck', 'js': 'slow_transposed_dual_stable_grothendieck_s'}
SHIFTED = {'P': 'schur_p', 'Q': 'schur_q', 'GP': 'stable_grothendieck_p', 'GQ': 'stable_grothendieck_q', 'gp': 'dual_stable_grothendieck_p',
           'gq': 'dual_stable_grothendieck_q', 'jp': 'slow_transposed_dual_stable_grothendieck_p', 'jq': 'slow_transposed_dual_stable_grothendieck_q'}
NAMES = dict(STRAIGHT, **SHIFTED)
SLOW = {'s': '_slow_schur', 'S': '_slow_schur_s', 'P': '_slow_schur_p', 'Q': '_slow_schur_q', 'G': '_slow_stable_grothendieck', 'GS': '_slow_stable_grothendieck_s',
        'GP': '_slow_stable_grothendieck_p', 'GQ': '_slow_stable_grothendieck_q', 'g': '_slow_dual_stable_grothendieck',
        'gp': '_slow_dual_stable_grothendieck_p', 'gq': '_slow_dual_stable_grothendieck_q'}
NEG = {'mn_stable_grothendieck': 'G', 'mn_stable_grothendieck_p': 'GP', 'mn_stable_grothendieck_q': 'GQ', 'mp_dual_stable_grothendieck': 'g',
       'mp_dual_stable_grothendieck_p': 'gp', 'mp_dual_stable_grothendieck_q': 'gq'}
ALIASES = {'s': 's schur', 'P': 'P schur_P', 'Q': 'Q schur_Q', 'S': 'S schur_S', 'G': 'G grothendieck', 'GP': 'GP grothendieck_P', 'GQ': 'GQ grothendieck_Q',
           'GS': 'GS grothendieck_S', 'g': 'g dual_grothendieck', 'gp': 'gp dual_grothendieck_P', 'gq': 'gq dual_grothendieck_Q', 'gs': 'gs', 'j': 'j', 'jp': 'jp',
           'jq': 'jq', 'js': 'js'}

BOUNDS = ('tableau sums: every straight and skew shape of up to 3 boxes inside a 3-part shape of up to 4 boxes (fewer boxes for the S families), 1 to 3 variables '
          '(thorough one more box); determinant and symmetrization formulas: shapes of up to 5 boxes in up to 3 variables; kernels up to degree 3 in 2 + 2 variables; '
          'all families one after another, in up to four orders, for shapes of up to 5 boxes (thorough 6) less an inner shape; degree bounds arbitrary integers; coefficients at arbitrary exponents; permutations of rank up to 3 (4 thorough) in up to 3 variables, with or without length bound')
OUTSIDE = 'larger shapes, more variables'


def table(f):
    """{(sorted exponents, beta exponent): coefficient}"""
    ans = {}
    for m, c in f.items():
        for e, k in coeffs_of(c).items():
            key = (m.mu + (0,) * (m.n - len(m.mu)), sum([x for _, x in e]))
            ans[key] = ans.get(key, 0) + k
    return ans


def sorted_down(e):
    return tuple(sorted(e, reverse=True))


def at(t, e, k):
    return sum([ite(all([a == b for a, b in zip(e, f)]) & (k == q), c, 0) for (f, q), c in t.items()])


def agree(sx, f, want, n, msg):
    """coefficients at arbitrary exponents; the reference lists all monomials, the symmetric polynomial the sorted ones"""
    for e, k in want:
        sx.check(want.get((sorted_down(e), k), 0) == want[(e, k)], 'reference is symmetric')
    got = table(f) if not isinstance(f, int) else {((0,) * n, 0): f}
    w = {(e, k): c for (e, k), c in want.items() if sorted_down(e) == e}
    e = [sx.int('e%d' % i, 0) for i in range(n)]
    k = sx.int('k', 0)
    sx.check(at(got, e, k) == at(w, e, k), msg)
    sx.check(len(got) == len(w), msg + ': number of terms')


def shapes(size, parts, strict):
    out = []
    for d in range(size + 1):
        out += [mu for mu in Partition.generate(d, strict=strict) if len(mu) <= parts]
    return out


def skews(size, boxes, strict):
    return [(mu, nu) for mu in shapes(size, 3, strict) for nu in shapes(size, 3, strict)
            if len(nu) <= len(mu) and sum(mu) - sum(nu) <= boxes and all(nu[i] <= mu[i] for i in range(len(nu)))]


def sums(sx, name, n, mu, nu):
    mu, nu = tuple(mu), tuple(nu)
    f = getattr(SP, NAMES[name])(n, mu, nu)
    agree(sx, f, ref.family(name, n, mu, nu), n, 'sum over tableaux')
    for a in ALIASES[name].split():
        sx.check(getattr(utils, a)(n, mu, nu) == f, 'name in utils')
    if nu == ():
        sx.check(getattr(SP, NAMES[name])(n, mu) == f, 'no inner shape')
    if name in SLOW:
        sx.check(getattr(SP, SLOW[name])(n, mu, nu) == f, 'slow version')
    for other in NEG:
        if NEG[other] == name:
            t = {(e, k): c * (-1)**k for (e, k), c in ref.family(name, n, mu, nu).items()}
            agree(sx, getattr(SP, other)(n, mu, nu), t, n, 'negated beta')
            sx.check(getattr(utils, {'mn': 'mn_', 'mp': 'mp_'}[other[:2]] + name)(n, mu, nu) == getattr(SP, other)(n, mu, nu), 'name in utils')


def bounded(sx, name, n, mu, nu):
    """degree bounds truncate, whatever was computed before"""
    mu, nu = tuple(mu), tuple(nu)
    d, e = sx.int('d'), sx.int('d2')
    fn = getattr(SP, NAMES[name])
    before = sx.pick('before', 0, 2)
    if before == 1:
        fn(n, mu, nu)
    if before == 2:
        fn(n, mu, nu, degree_bound=e)
    f = fn(n, mu, nu, degree_bound=d)
    full = table(fn(n, mu, nu))
    got = table(f)
    for key in set(full) | set(got):
        sx.check(got.get(key, 0) == ite(sum(key[0]) <= d, full.get(key, 0), 0), 'degree bound')
    for a in ALIASES[name].split():
        sx.check(getattr(utils, a)(n, mu, nu, d) == f, 'name in utils')
    g = table(getattr(SP, NAMES[name] + '_doublebar')(n, mu, nu, degree_bound=d))
    full = table(getattr(SP, NAMES[name] + '_doublebar')(n, mu, nu))
    for key in set(full) | set(g):
        sx.check(g.get(key, 0) == ite(sum(key[0]) <= d, full.get(key, 0), 0), 'degree bound')


def doubled(sx, name, n, mu, nu):
    mu, nu = tuple(mu), tuple(nu)
    f = getattr(SP, NAMES[name] + '_doublebar')(n, mu, nu)
    agree(sx, f, ref.doublebar(name, n, mu, nu), n, 'sum over sets of corners of the inner shape')
    sx.check(getattr(utils, name + '_doublebar')(n, mu, nu) == f, 'name in utils')


def outside(sx, name, n):
    """inner shapes that are not contained give zero"""
    pairs = [((), (1,)), ((1,), (2,)), ((2,), (3,)), ((2,), (2, 1)), ((3, 1), (2, 1)), ((3,), (2, 1))]
    mu, nu = pairs[sx.pick('pair', 0, len(pairs) - 1)]
    if not all((nu[i] if i < len(nu) else 0) <= (mu[i] if i < len(mu) else 0) for i in range(max(len(mu), len(nu)))):
        sx.check(getattr(SP, NAMES[name])(n, mu, nu) == 0, 'zero')
        if name in ('G', 'GP', 'GQ', 'GS'):
            sx.check(getattr(SP, NAMES[name] + '_doublebar')(n, mu, nu) == 0, 'zero')
    else:
        agree(sx, getattr(SP, NAMES[name])(n, mu, nu), ref.family(name, n, mu, nu), n, 'sum over tableaux')


def spread(t):
    """all monomials of a symmetric table"""
    ans = {}
    for (e, k), c in t.items():
        for p in set(itertools.permutations(e)):
            ans[(p, k)] = c
    return ans


def equal_tables(sx, a, b, n, msg):
    e = [sx.int('e%d' % i, 0) for i in range(n)]
    k = sx.int('k', 0)
    diff = ref.plus(a, b, -1)
    sx.check(at(diff, e, k) == 0, msg)
    sx.check(len(a) == len(b), msg)


def determinant(sx, n, mu):
    mu = tuple(mu)
    f = spread(table(SP.stable_grothendieck(n, mu)))
    equal_tables(sx, ref.mul(f, ref.vandermonde(n)), ref.bialternant(n, mu), n, 'bialternant formula')
    s = spread(table(SP.schur(n, mu)))
    low = {(e, k): c for (e, k), c in ref.bialternant(n, mu).items() if k == 0}
    equal_tables(sx, ref.mul(s, ref.vandermonde(n)), low, n, 'bialternant formula for Schur polynomials')


def symmetrization(sx, n, mu, q):
    mu = tuple(mu)
    fact = 1
    for i in range(2, n - len(mu) + 1):
        fact = fact * i
    f = spread(table((SP.stable_grothendieck_q if q else SP.stable_grothendieck_p)(n, mu)))
    # clear the denominators 1 + beta x_j
    want = ref.hall_littlewood_cleared(n, mu, q)
    have = ref.mul(ref.mul(f, ref.vandermonde(n)), ref.clearing(n))
    equal_tables(sx, {k: c * fact for k, c in have.items()}, want, n, 'symmetrization formula')


def kernel(sx, a, b, n, m, top):
    """sum over shapes of one family in x times the dual one in y"""
    strict = a in SHIFTED
    total = {}
    for mu in shapes(top, n, strict):
        f, g = spread(table(getattr(SP, NAMES[a])(n, mu))), spread(table(getattr(SP, NAMES[b])(m, mu)))
        for (x, k), c in f.items():
            if sum(x) <= top:
                for (y, l), d in g.items():
                    ref.add(total, (x + y, k + l), c * d)
    want = ref.kernel(n, m, top, strict)
    equal_tables(sx, {k: c for k, c in total.items() if c}, want, n + m, 'Cauchy identity')


def branching(sx, name, n, mu):
    """splitting off the last variable"""
    mu = tuple(mu)
    total = {}
    for nu in shapes(sum(mu), len(mu), name in SHIFTED):
        if all((nu[i] if i < len(nu) else 0) <= (mu[i] if i < len(mu) else 0) for i in range(max(len(mu), len(nu)))):
            f = spread(table(getattr(SP, NAMES[name])(n - 1, nu)))
            g = table(getattr(SP, NAMES[name] + ('_doublebar' if name[0] == 'G' else ''))(1, mu, nu))
            for (x, k), c in f.items():
                for (y, l), d in g.items():
                    ref.add(total, (x + y, k + l), c * d)
    equal_tables(sx, {k: c for k, c in total.items() if c}, spread(table(getattr(SP, NAMES[name])(n, mu))), n, 'branching')


def refined(sx, name, n, mu, nu):
    mu, nu = tuple(mu), tuple(nu)
    v = getattr(SP, '_slow_refined_' + NAMES[name])(n, mu, nu)
    total = {}
    for d, f in v.items():
        sx.check(nu != () or len(d) == len(mu), 'one diagonal entry per row')
        sx.check(all(1 <= a <= n for a in d) and all(d[i] <= d[i + 1] for i in range(len(d) - 1)), 'diagonal entries')
    w = SP()
    for f in v.values():
        w = w + f
    sx.check(all(m.n == n for m in w), 'variables')
    return w


def history(sx, name, n, big):
    """values do not depend on earlier calls"""
    st = name in SHIFTED
    ps = [(mu, nu) for mu, nu in skews(3, 2, st)] if big else [((1,), ()), ((2,), ()), ((2, 1), ()), ((2,), (1,)), ((2, 1), (1,))]
    k1, k2 = sx.pick('k1', 0, len(ps) - 1), sx.pick('k2', 0, len(ps) - 1)
    other = sx.choose('other', sorted(SHIFTED if st else STRAIGHT))
    getattr(SP, NAMES[other])(sx.pick('n1', 1, n), *ps[k1])
    f = getattr(SP, NAMES[name])(n, *ps[k2])
    f + f
    f * 2
    g = getattr(SP, NAMES[name])(n, *ps[k2])
    want = {(e, k): c for (e, k), c in ref.family(name, n, *ps[k2]).items() if sorted_down(e) == e}
    sx.check(table(g) == want, 'sum over tableaux')


def crossed(sx, mu, nu, ns):
    """all the families for the same arguments, one after the other, in both orders"""
    mu, nu = tuple(mu), tuple(nu)
    calls = []
    for name in NAMES:
        if name in SHIFTED and any(x[i] <= x[i + 1] for x in (mu, nu) for i in range(len(x) - 1)):
            continue
        for n in ns:
            calls.append((name, NAMES[name], n, 1))
            if name in ('G', 'GP', 'GQ', 'GS'):
                calls.append((name, NAMES[name] + '_doublebar', n, 1))
            for other in NEG:
                if NEG[other] == name:
                    calls.append((name, other, n, -1))
    turn = sx.pick('turn', 0, 1 if sum(mu) > 3 else 3)
    if turn % 2:
        calls = calls[::-1]
    if turn > 1:
        calls = calls[::2] + calls[1::2]
    for name, fn, n, sign in calls:
        f = getattr(SP, fn)(n, mu, nu)
        want = (ref.doublebar if fn.endswith('bar') else ref.family)(name, n, mu, nu)
        want = {(e, k): c * sign**k for (e, k), c in want.items() if sorted_down(e) == e}
        got = table(f) if not isinstance(f, int) else ({((0,) * n, 0): f} if f else {})
        sx.check(got == want, 'value of %s after the others' % fn)
        if isinstance(f, int):
            continue
        f + f
        f * 2
        sx.check(all(m.n == n for m in f), 'variables')


def oneline(sx, m, signed):
    w = [sx.int('w%d' % i, -m if signed else 1, m) for i in range(m)]
    for i in range(m):
        sx.assume(w[i] != 0)
        for j in range(i):
            sx.assume((w[i] != w[j]) & (w[i] != -w[j]))
    return [sx_value(x, m) for x in w]


def sx_value(x, m):
    for v in range(-m, m + 1):
        if x == v:
            return v


PERM = {'plain': 'stable_grothendieck', 'symplectic': 'symplectic_stable_grothendieck', 'involution': 'involution_stable_grothendieck',
        'signed': 'signed_involution_stable_grothendieck'}


def permutation(sx, kind, m, n):
    w = oneline(sx, m, kind == 'signed')
    if kind != 'plain':
        sx.assume(all((w[abs(w[i]) - 1] if w[i] > 0 else -w[-w[i] - 1]) == i + 1 for i in range(m)))
    if kind == 'symplectic':
        sx.assume(all(w[i] != i + 1 for i in range(m)))
    pi = Permutation(*w)
    t = ref.hecke(tuple(w), n, kind)
    bound = sx.pick('bound', -1, 4)
    if bound < 0:
        f = getattr(pi, PERM[kind])(n)
    else:
        f = getattr(pi, PERM[kind])(n, degree_bound=bound)
        t = {(e, k): c for (e, k), c in t.items() if sum(e) <= bound}
    agree(sx, f, t, n, 'sum over Hecke words')
    alias = {'plain': utils.G, 'symplectic': utils.GP, 'signed': utils.GS}.get(kind)
    if alias is not None:
        g = alias(n, pi, degree_bound=bound) if bound >= 0 else alias(n, pi)
        sx.check(g == f, 'name in utils')


def ribbons(sx, k):
    alpha = tuple(sx.int('a%d' % i, 1) for i in range(k))
    mu, nu = utils.shifted_ribbon(alpha)
    sx.check(len(mu) == k and len(nu) == k - 1 and all(mu[i] > mu[i + 1] for i in range(k - 1)), 'strict shapes')
    nu = nu + (0,)
    sx.check(all(mu[i] - nu[i] == alpha[i] for i in range(k)), 'row lengths')
    # row i starts in the column where row i + 1 ends
    sx.check(all(i + nu[i] == i + 1 + mu[i + 1] - 1 for i in range(k - 1)), 'neighbouring rows share one column')


def jobs(tier):
    big = tier != 'quick'
    out = []

    def add(f, *a):
        out.append({'f': f, 'args': [list(x) if isinstance(x, tuple) else x for x in a]})
    for name in NAMES:
        super_ = name in ('S', 'GS', 'GQ', 'GP')
        for mu, nu in skews(4, 4 if big else 3, name in SHIFTED):
            k = sum(mu) - sum(nu)
            for n in (1, 2, 3):
                if n == 3 and (k > (3 if big else 2) or super_ and k > (2 if big else 1) or nu and not big):
                    continue
                if n == 1 and not big and nu and sum(mu) > 3:
                    continue
                if name in ('GS', 'GQ', 'GP') and k > 3 and n > 1:
                    continue
                add('sums', name, n, mu, nu)
        add('outside', name, 2)
    for name in ('G', 'GP', 'GQ', 'GS'):
        for mu, nu in skews(4 if big else 3, 2, name in SHIFTED):
            for n in (1, 2):
                add('doubled', name, n, mu, nu)
        for mu, nu in [((1,), ()), ((2,), (1,)), ((2, 1), (1,)), ((2, 1), (2,))][:4 if big or name in ('G', 'GP') else 2]:
            add('bounded', name, 2, mu, nu)
        for mu in shapes(4 if big else 3, 3, name in SHIFTED):
            add('branching', name, 2, mu)
            add('branching', name, 3, mu) if big and sum(mu) < 4 and name != 'GS' else None
    for name in ('s', 'P', 'Q', 'S'):
        for mu in shapes(4, 3, name in SHIFTED):
            add('branching', name, 2, mu)
            add('branching', name, 3, mu)
    for n in (1, 2, 3):
        for mu in shapes(5 if big or n < 3 else 4, n, False):
            add('determinant', n, mu)
        for mu in shapes(5 if n == 2 or big else 4 if n < 2 else 3, n, True):
            for q in (False, True):
                add('symmetrization', n, mu, q)
    for a, b in [('G', 'g'), ('GP', 'gq'), ('GQ', 'gp')]:
        add('kernel', a, b, 1, 1, 4)
        add('kernel', a, b, 2, 1, 3)
        add('kernel', a, b, 1, 2, 3)
        add('kernel', a, b, 2, 2, 3)
        if big:
            add('kernel', a, b, 2, 2, 4)
            add('kernel', a, b, 3, 2, 3)
    for name in ('s', 'G', 'g', 'P', 'GP', 'GQ', 'gp', 'gq', 'jp') if big else ('G', 'g', 'GP', 'gq'):
        add('history', name, 2, big)
    for mu, nu in skews(6 if big else 5, 4 if big else 3, False):
        k = sum(mu) - sum(nu)
        add('crossed', mu, nu, [1, 2] if k > (3 if big else 2) else [3, 1, 2])
    for mu in [(4,), (3, 1), (2, 2), (2, 1, 1), (5,), (4, 1), (3, 2)]:
        add('crossed', mu, (), [1, 2])
    for m, n in [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (2, 3)] + ([(3, 3), (4, 2)] if big else []):
        add('permutation', 'plain', m, n)
        add('permutation', 'involution', m, n)
    for m, n in [(2, 1), (2, 2), (4, 1), (4, 2)]:
        add('permutation', 'symplectic', m, n)
    for m, n in [(1, 1), (1, 2), (2, 1)] + ([(2, 2)] if big else []):
        add('permutation', 'signed', m, n)
    for k in range(1, 6):
        add('ribbons', k)
    return out
