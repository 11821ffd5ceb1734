"""Expansions into the Schur-like bases are exact and recover the coefficients."""
import itertools
from polynomials import Polynomial, beta
from partitions import Partition
from symmetric import SymmetricMonomial, SymmetricPolynomial
from ref import ite, ind, coeffs_of
from h_p17 import flat, poly, MONOS
from oracle import symfun

SP = SymmetricPolynomial
BASES = {
    's': ('schur', 'schur_expansion', False),
    'G': ('stable_grothendieck', 'grothendieck_expansion', False),
    'mnG': ('mn_stable_grothendieck', 'mn_grothendieck_expansion', False),
    'g': ('dual_stable_grothendieck', 'dual_grothendieck_expansion', False),
    'mpg': ('mp_dual_stable_grothendieck', 'mp_dual_grothendieck_expansion', False),
    'j': ('slow_transposed_dual_stable_grothendieck', 'j_expansion', False),
    'P': ('schur_p', 'P_expansion', True),
    'Q': ('schur_q', 'Q_expansion', True),
    'GP': ('stable_grothendieck_p', 'GP_expansion', True),
    'GQ': ('stable_grothendieck_q', 'GQ_expansion', True),
    'mnGP': ('mn_stable_grothendieck_p', 'mn_GP_expansion', True),
    'mnGQ': ('mn_stable_grothendieck_q', 'mn_GQ_expansion', True),
    'gp': ('dual_stable_grothendieck_p', 'gp_expansion', True),
    'gq': ('dual_stable_grothendieck_q', 'gq_expansion', True),
    'mpgp': ('mp_dual_stable_grothendieck_p', 'mp_gp_expansion', True),
    'mpgq': ('mp_dual_stable_grothendieck_q', 'mp_gq_expansion', True),
    'jp': ('slow_transposed_dual_stable_grothendieck_p', 'jp_expansion', True),
    'jq': ('slow_transposed_dual_stable_grothendieck_q', 'jq_expansion', True),
}
# spanning families that are not bases: only the sum is checked
SPANS = {
    'S': ('schur_s', 'S_expansion'),
    'GS': ('stable_grothendieck_s', 'GS_expansion'),
    'gs': ('dual_stable_grothendieck_s', 'gs_expansion'),
    'js': ('slow_transposed_dual_stable_grothendieck_s', 'js_expansion'),
}
BOUNDS = ('combinations of up to 5 basis elements of degree at most 4 in 2 or 3 variables, coefficients arbitrary integers, or arbitrary polynomials of '
          'degree 1 in beta for combinations of 2 elements; single basis elements of degree up to 6; expansions one after another in four orders; symmetric polynomials with up to 3 monomials of degree at most 3 and arbitrary integer coefficients')
OUTSIDE = 'more basis elements, higher degrees, more variables'


def element(name, n, mu):
    """the basis element from its tableaux (independent of the repository), as a symmetric polynomial"""
    base, sign = (name[2:], -1) if name[:2] in ('mn', 'mp') else (name, 1)
    ans = {}
    for (e, k), c in symfun.family(base, n, tuple(mu), ()).items():
        if tuple(sorted(e, reverse=True)) == e:
            ans[e] = ans.get(e, 0) + beta**k * (c * sign**k)
    return SP({SymmetricMonomial(n, e): c for e, c in ans.items()})


def number(sx, tag, withbeta):
    c = sx.int(tag)
    if withbeta:
        return c * beta**0 + sx.int(tag + 'b') * beta
    return c


def table(c):
    """the nonzero coefficients in beta"""
    return {m: v for m, v in coeffs_of(c).items()}


def agree(sx, a, b, msg):
    a, b = table(a), table(b)
    for m in set(a) | set(b):
        sx.check(a.get(m, 0) == b.get(m, 0), msg)


def combine(pairs):
    """plain dictionary arithmetic: the sum of c * F, as {(mu, beta exponent): coefficient}"""
    ans = {}
    for c, f in pairs:
        for m, v in f.items():
            for x, s in table(v).items():
                for y, t in table(c).items():
                    e = sum([k for _, k in x]) + sum([k for _, k in y])
                    ans[(m.mu, e)] = ans.get((m.mu, e), 0) + s * t
    return ans


def same_sum(sx, f, ans, name, n, msg):
    x = combine([(1, f)])
    y = combine([(c, element(name, n, mu)) for mu, c in ans.items()])
    for k in set(x) | set(y):
        sx.check(x.get(k, 0) == y.get(k, 0), msg)


def recover(sx, name, n, shapes, withbeta):
    function, expansion, strict = BASES[name]
    f, cs = SP(), {}
    for i, mu in enumerate(shapes):
        mu = tuple(mu)
        c = number(sx, 'c%d' % i, withbeta)
        f = f + element(name, n, mu) * c
        cs[mu] = c
    ans = getattr(SP, expansion)(f)
    for mu in ans:
        sx.check(mu in cs, 'only the combined elements occur')
    for mu in cs:
        agree(sx, ans[mu], cs[mu], 'coefficient is recovered')
        sx.check((mu in ans.dictionary) == any([v != 0 for v in table(cs[mu]).values()]), 'no zero coefficient is kept')


def total(sx, name, n, shapes):
    function, expansion = SPANS[name]
    f = SP()
    for i, mu in enumerate(shapes):
        f = f + element(name, n, mu) * sx.int('c%d' % i)
    ans = getattr(SP, expansion)(f)
    same_sum(sx, f, ans, name, n, 'the expansion adds up to the polynomial')


def general(sx, name, n, which):
    """any symmetric polynomial, from its monomials"""
    function, expansion, strict = BASES[name]
    f, _ = poly(sx, n, which, 'f')
    ans = getattr(SP, expansion)(f)
    same_sum(sx, f, ans, name, n, 'the expansion adds up to the polynomial')


def schur_kostka(sx, n, d):
    """inverse Kostka numbers from the determinant definition"""
    f, cs = SP(), {}
    shapes = [mu for mu in Partition.generate(d) if len(mu) <= n]
    for i, mu in enumerate(shapes):
        cs[mu] = sx.int('c%d' % i)
        f = f + SP({SymmetricMonomial(n, mu): cs[mu]})
    ans = SP.schur_expansion(f)
    rho = tuple(n - 1 - i for i in range(n))
    want = {}
    # f times the Vandermonde alternant
    for w in itertools.permutations(range(n)):
        sign = (-1)**sum(1 for i in range(n) for j in range(i) if w[j] > w[i])
        for mu in shapes:
            for t in set(itertools.permutations(mu + (0,) * (n - len(mu)))):
                e = tuple(t[i] + rho[w[i]] for i in range(n))
                if all(e[i] > e[i + 1] for i in range(n - 1)):
                    k = tuple(e[i] - rho[i] for i in range(n))
                    while k and k[-1] == 0:
                        k = k[:-1]
                    want[k] = want.get(k, 0) + sign * cs[mu]
    for mu in set(want) | set(ans.keys()):
        sx.check(ans[mu] == want.get(mu, 0), 'Schur coefficient is that of the alternant')


def omega(sx, n, shapes):
    f, cs = SP(), {}
    for i, mu in enumerate(shapes):
        mu = tuple(mu)
        cs[mu] = sx.int('c%d' % i)
        f = f + element('s', n, mu) * cs[mu]
    ans = SP.omega_schur_expansion(f)
    for mu in cs:
        t = tuple(len([p for p in mu if p > i]) for i in range(mu[0] if mu else 0))
        sx.check(ans[t] == cs[mu], 'coefficients move to the transposed shapes')
    sx.check(len(ans.dictionary) == sum([ind(c != 0) for c in cs.values()]), 'and nothing else')


def free(sx, n, shapes):
    f, cs = SP(), {}
    for i, mu in enumerate(shapes):
        mu = tuple(mu)
        cs[mu] = sx.int('c%d' % i)
        g = SP({SymmetricMonomial(n): 1})
        for p in mu:
            g = g * element('gp', n, (p,))
        f = f + g * cs[mu]
    ans = SP.gp_free_expansion(f)
    for mu in ans:
        sx.check(mu in cs, 'only the combined products occur')
    for mu in cs:
        sx.check(ans[mu] == cs[mu], 'coefficient of a product of one-row elements')


def doubled(sx, name, n, shapes, k):
    """coefficients that are multiples of beta powers, next to plain integers"""
    function, expansion, strict = BASES[name]
    f, cs = SP(), {}
    for i, mu in enumerate(shapes):
        mu = tuple(mu)
        cs[mu] = sx.int('c%d' % i) * beta**(k * i)
        f = f + element(name, n, mu) * cs[mu]
    ans = getattr(SP, expansion)(f)
    for mu in set(cs) | set(ans.keys()):
        agree(sx, ans[mu], cs.get(mu, 0), 'coefficient is recovered')


def crossed(sx, n, mu, nu):
    """every expansion after every other one, in the same process"""
    order = list(BASES)
    turn = sx.pick('turn', 0, 3)
    if turn % 2:
        order = order[::-1]
    if turn > 1:
        order = order[::2] + order[1::2]
    c, d = sx.int('c', 1), sx.int('d', 1)
    for name in order:
        function, expansion, strict = BASES[name]
        f = element(name, n, mu) * c + element(name, n, nu) * d
        ans = getattr(SP, expansion)(f)
        sx.check(set(ans.keys()) == {tuple(mu), tuple(nu)}, 'only the combined elements occur')
        agree(sx, ans[tuple(mu)], c, 'coefficient is recovered')
        agree(sx, ans[tuple(nu)], d, 'coefficient is recovered')


def jobs(tier):
    big = tier != 'quick'
    out = []

    def add(f, *a):
        out.append({'f': f, 'args': list(a)})
    loose = [[], [1], [2], [1, 1]], [[1], [2], [3], [2, 1]], [[2], [1, 1], [2, 2]]
    strict = [[], [1], [2]], [[1], [2], [3], [2, 1]], [[2, 1], [3], [3, 1]]
    for name in BASES:
        st = BASES[name][2]
        heavy = name in ('j', 'jp', 'jq')
        for k, shapes in enumerate(strict if st else loose):
            add('recover', name, 2, shapes, False)
            if k == 0 and not heavy or big:
                add('recover', name, 3, shapes, False)
        add('recover', name, 2, [[1], [2]], True)
        add('recover', name, 2, [[2, 1], [1]], True)
        add('doubled', name, 2, [[], [1], [2]], 1)
        add('doubled', name, 2, [[2], [1], []], 2)
        if big:
            add('recover', name, 3, [[2], [2, 1], [3]], True)
            add('doubled', name, 3, [[1], [2], [2, 1]], 1)
            add('recover', name, 2, ([[4], [3, 1], [2, 1], [3], [1]]), False)
    for name in SPANS:
        add('total', name, 2, [[], [1], [2]])
        add('total', name, 2, [[1, 1], [2]])
        if big:
            add('total', name, 2, [[2, 1], [3], [1, 1]])
            add('total', name, 3, [[2], [1, 1], [1]])
    for name in BASES:
        if not BASES[name][2]:
            add('general', name, 2, [1, 2, 3])
            add('general', name, 2, [0, 4, 2])
            add('general', name, 3, [1, 3])
            if big:
                add('general', name, 3, [4, 5, 1])
    for n, d in [(2, 2), (2, 3), (3, 3), (2, 4)] + ([(3, 4), (4, 4), (3, 5)] if big else []):
        add('schur_kostka', n, d)
    for mu, nu in [((1,), ()), ((2,), (1,)), ((2, 1), (1,)), ((3,), (2, 1))]:
        add('crossed', 2, list(mu), list(nu))
    for name in BASES:
        for mu in ((4, 2), (5,), (3, 2)):
            if big or mu != (4, 2) or name not in ('j', 'jp', 'jq', 'GQ', 'GP', 'mnGP', 'mnGQ', 'G', 'mnG'):
                add('recover', name, 2, [list(mu)], False)
        if big or name in ('s', 'P', 'Q', 'gp', 'gq', 'g', 'mpg', 'mpgp', 'mpgq'):
            add('recover', name, 3, [[3, 2, 1]], False)
            add('recover', name, 3, [[3, 1], [1]], False)
    add('omega', 3, [[3, 1, 1], [4, 1, 1], [2, 2, 2]])
    add('omega', 3, [[3, 2, 1], [4, 2], [3, 3]])
    add('omega', 4, [[2, 1, 1, 1], [3, 2, 1]])
    add('omega', 3, [[], [1], [2], [1, 1], [2, 1]])
    add('omega', 3, [[3], [2, 1], [1, 1, 1], [2, 2]])
    add('free', 2, [[], [1], [2], [3]])
    add('free', 3, [[1], [2], [4]])
    add('free', 3, [[2, 1], [3], [3, 1]])
    return out
