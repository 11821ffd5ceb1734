"""Tableau enumerators list exactly the fillings their inequalities describe; the counts agree with the lists."""
import itertools
from partitions import Partition
from tableaux import Tableau
from ref import ite, ind
from h_p14 import below

BOUNDS = ('all straight and skew shapes of up to 4 boxes (5 thorough; selected shapes of 5 and 6 boxes) with entries up to 3 (set-valued: up to 3 boxes with entries up to 3, 4 boxes with entries up '
          'to 2); KOG and KLG tableaux: all rims of up to 5 boxes over strict shapes of up to 3 boxes, content up to 5, and of up to 4 boxes (thorough 5) over (3,2,1), (4,3,2), (4,2); every family again after all the other enumerations with the same arguments, in two orders; a candidate is an arbitrary '
          'assignment of sets of nonzero integers to the boxes')
OUTSIDE = 'larger shapes and entries'


def boxes(mu, nu, shifted):
    nu = tuple(nu) + (0,) * (len(mu) - len(nu))
    return [(i + 1, j + 1 + (i if shifted else 0)) for i in range(len(mu)) for j in range(nu[i], mu[i])]


def enc(x):
    return 2 * x if x > 0 else -2 * x - 1


def bits(sx, cells, alphabet):
    return {(b, a): sx.bool('%d.%d.%d' % (b[0], b[1], a)) for b in cells for a in alphabet}


def before(x, y, row):
    """concrete letters: x may stand before y"""
    return enc(x) < enc(y) or (x == y and ((x > 0) if row else (x < 0)))


def filled(v, cells, alphabet, rel):
    ok = True
    for b in cells:
        ok = ok & any(v[b, a] for a in alphabet)
        for c, row in (((b[0], b[1] + 1), True), ((b[0] + 1, b[1]), False)):
            if c in cells:
                for x in alphabet:
                    for y in alphabet:
                        if not rel(x, y, row):
                            ok = ok & (not (v[b, x] & v[c, y]))
    return ok


def listed(v, cells, alphabet, tabs):
    ans = False
    for t in tabs:
        this = True
        for b in cells:
            for a in alphabet:
                this = this & (v[b, a] if a in t[b] else (not v[b, a]))
        ans = ans | this
    return ans


def single(v, cells, alphabet):
    ok = True
    for b in cells:
        for x in alphabet:
            for y in alphabet:
                if x < y:
                    ok = ok & (not (v[b, x] & v[b, y]))
    return ok


def tables(sx, got, cells):
    tabs = [dict(t.boxes) for t in got]
    for t in tabs:
        sx.check(set(t) == set(cells), 'listed tableaux have the shape')
        sx.check(all(len(set(x)) == len(x) for x in t.values()), 'no repetition within a box')
    keys = [tuple(sorted((b, tuple(x)) for b, x in t.items())) for t in tabs]
    sx.check(len(set(keys)) == len(keys), 'listed once')
    return tabs


def counts(sx, got, weights, n, msg):
    """a table of counts by weight agrees with the listed tableaux, for every partition"""
    c = [sx.int('c%d' % i, 0) for i in range(n)]
    for i in range(n - 1):
        sx.assume(c[i] >= c[i + 1])
    want = sum([ind(all(x == y for x, y in zip(w, c))) for w in weights])
    have = 0
    for k, m in got.items():
        sx.check(len(k) <= n and all(x > 0 for x in k), msg + ': weights are partitions')
        k = tuple(k) + (0,) * (n - len(k))
        have = have + m * ind(all(x == y for x, y in zip(k, c)))
    sx.check(want == have, msg)


def content(t, n):
    return [sum(1 for x in t.values() for a in x if abs(a) == k) for k in range(1, n + 1)]


def unshifted(sx, mu, nu, n, marked, setvalued):
    mu, nu = tuple(mu), tuple(nu)
    if marked:
        got, cnt = Tableau.semistandard_marked(n, mu, nu, setvalued), Tableau.count_semistandard_marked(n, mu, nu, setvalued)
        alphabet = [s * a for a in range(1, n + 1) for s in (-1, 1)]
    else:
        got, cnt = Tableau.semistandard(n, mu, nu, setvalued), Tableau.count_semistandard(n, mu, nu, setvalued)
        alphabet = list(range(1, n + 1))
    cells = boxes(mu, nu, False)
    v = bits(sx, cells, alphabet)
    tabs = tables(sx, got, cells)
    ok = filled(v, cells, alphabet, before)
    if not setvalued:
        ok = ok & single(v, cells, alphabet)
    sx.check(listed(v, cells, alphabet, tabs) == ok, 'listed exactly when semistandard')
    counts(sx, cnt, [content(t, n) for t in tabs], n, 'counts by weight')


def shifted(sx, mu, nu, n, diag, setvalued):
    mu, nu = tuple(mu), tuple(nu)
    got = Tableau.semistandard_shifted_marked(n, mu, nu, diag, setvalued)
    cnt = Tableau.count_semistandard_shifted_marked(n, mu, nu, diag, setvalued)
    alphabet = [s * a for a in range(1, n + 1) for s in (-1, 1)]
    cells = boxes(mu, nu, True)
    v = bits(sx, cells, alphabet)
    tabs = tables(sx, got, cells)
    ok = filled(v, cells, alphabet, before)
    if not setvalued:
        ok = ok & single(v, cells, alphabet)
    if not diag:
        for b in cells:
            if b[0] == b[1]:
                ok = ok & all(not v[b, a] for a in alphabet if a < 0)
    sx.check(listed(v, cells, alphabet, tabs) == ok, 'listed exactly when semistandard')
    counts(sx, cnt, [content(t, n) for t in tabs], n, 'counts by weight')
    if setvalued:
        sx.check(set(Tableau.semistandard_shifted_setvalued(n, mu, nu, diag)) == set(got), 'same list by the other name')


def copieri(sx, lam, size, diag):
    """one-letter set-valued fillings of nu / mu for mu = lam without some of its corners, by number of entries"""
    lam = tuple(lam)
    corner = [b for b in boxes(lam, (), True) if (b[0], b[1] + 1) not in boxes(lam, (), True) and (b[0] + 1, b[1]) not in boxes(lam, (), True)]
    core = [b for b in boxes(lam, (), True) if b not in corner]
    nu = sx.choose('nu', [m for m in shapes(size, True) if all(b in boxes(m, (), True) for b in core)])
    if sx.pick('again', 0, 1):
        Tableau.shifted_setvalued_copieri(nu, lam, not diag)
    by = Tableau.shifted_setvalued_copieri(nu, lam, diagonal_primes=diag)
    cells = [b for b in boxes(nu, (), True) if b not in core]
    alphabet = (-1, 1)
    v = bits(sx, cells, alphabet)
    tabs = []
    for r in by:
        for t in by[r]:
            sx.check(sum(len(x) for x in t.boxes.values()) == r, 'key is the number of entries')
            tabs.append(dict(t.boxes))
    keys = [tuple(sorted((b, tuple(x)) for b, x in t.items())) for t in tabs]
    sx.check(len(set(keys)) == len(keys), 'listed once')
    sx.check(all(b in cells for t in tabs for b in t), 'boxes of the shape')
    ok = not any(b not in boxes(nu, (), True) for b in core)
    for b in cells:
        if b not in corner:
            ok = ok & (v[b, -1] | v[b, 1])
        if not diag and b[0] == b[1]:
            ok = ok & (not v[b, -1])
        for c, row in (((b[0], b[1] + 1), True), ((b[0] + 1, b[1]), False)):
            if c in cells:
                for x in alphabet:
                    for y in alphabet:
                        if not before(x, y, row):
                            ok = ok & (not (v[b, x] & v[c, y]))
    have = False
    for t in tabs:
        this = True
        for b in cells:
            for a in alphabet:
                this = this & (v[b, a] if a in t.get(b, ()) else (not v[b, a]))
        have = have | this
    sx.check(have == ok, 'listed exactly when semistandard on the boxes left')


def weakly(x, y, row):
    return enc(x) <= enc(y)


def rpp(sx, mu, nu, n):
    mu, nu = tuple(mu), tuple(nu)
    got = Tableau.semistandard_rpp(n, mu, nu)
    alphabet = list(range(1, n + 1))
    cells = boxes(mu, nu, False)
    v = bits(sx, cells, alphabet)
    tabs = tables(sx, got, cells)
    ok = filled(v, cells, alphabet, weakly) & single(v, cells, alphabet)
    sx.check(listed(v, cells, alphabet, tabs) == ok, 'listed exactly when weakly increasing')
    ws = [[len({b[1] for b in t if k in t[b]}) for k in alphabet] for t in tabs]
    sx.check(all(list(t.weight(n)) == [len({b[1] for b in t.boxes if k in t.boxes[b]}) for k in alphabet] for t in got), 'weight counts columns')
    cnt = Tableau.count_semistandard_rpp(n, mu, nu)
    used = [w for w in ws if all(w[i] or not any(w[i:]) for i in range(n))]
    counts(sx, cnt, used, n, 'counts by weight')


def marked_rpp(sx, mu, nu, n, diag):
    mu, nu = tuple(mu), tuple(nu)
    got = Tableau.semistandard_marked_rpp(n, mu, nu, diag)
    alphabet = [s * a for a in range(1, n + 1) for s in (-1, 1)]
    cells = boxes(mu, nu, True)
    v = bits(sx, cells, alphabet)
    tabs = tables(sx, got, cells)
    ok = filled(v, cells, alphabet, weakly) & single(v, cells, alphabet)
    if not diag:
        for b in cells:
            if b[0] == b[1]:
                ok = ok & all(not v[b, a] for a in alphabet if a > 0)
    sx.check(listed(v, cells, alphabet, tabs) == ok, 'listed exactly when weakly increasing')
    ws = [[len({b[1] for b in t if k in t[b]}) + len({b[0] for b in t if -k in t[b]}) for k in range(1, n + 1)] for t in tabs]
    cnt = Tableau.count_semistandard_marked_rpp(n, mu, nu, diag)
    used = [w for w in ws if all(w[i] or not any(w[i:]) for i in range(n))]
    counts(sx, cnt, used, n, 'counts by weight')
    sx.check(set(Tableau.semistandard_shifted_rpp(n, mu, nu, diag)) == set(got), 'same list by the other name')


def standard(sx, mu, nu, kind):
    mu, nu = tuple(mu), tuple(nu)
    shifted = kind != 'plain'
    cells = boxes(mu, nu, shifted)
    if kind == 'plain':
        got = Tableau.standard(mu, nu)
    else:
        got = Tableau.standard_shifted_marked(mu, nu, diagonal_primes=kind == 'diag')
    tabs = tables(sx, got, cells)
    x = {b: sx.int('x%d%d' % b) for b in cells}
    n = len(cells)
    ok = True
    for b in cells:
        ok = ok & (abs(x[b]) >= 1) & (abs(x[b]) <= n)
        if kind == 'plain' or (kind == 'nodiag' and b[0] == b[1]):
            ok = ok & (x[b] > 0)
        for c in cells:
            if c < b:
                ok = ok & (abs(x[b]) != abs(x[c]))
            if c in ((b[0], b[1] + 1), (b[0] + 1, b[1])):
                ok = ok & (abs(x[b]) < abs(x[c]))
    sx.check(any(all(t[b][0] == x[b] for b in cells) for t in tabs) == ok, 'listed exactly when standard')


def rims(mu, bound):
    """skew shifted shapes nu/mu without a 2 x 2 square, with at most bound boxes"""
    ans = []
    for nu in itertools.product(range(0, (mu[0] if mu else 0) + bound + 1), repeat=len(mu) + 1):
        if any(nu[i] <= nu[i + 1] and not nu[i] == nu[i + 1] == 0 for i in range(len(nu) - 1)):
            continue
        if any(a < b for a, b in zip(nu, tuple(mu) + (0,))):
            continue
        cells = boxes(nu, mu, True)
        if len(cells) <= bound and not any((i + 1, j + 1) in cells and (i, j + 1) in cells and (i + 1, j) in cells for i, j in cells):
            ans.append((tuple(a for a in nu if a), cells))
    return ans


def kog(sx, mu, p, size):
    """entries 1, ..., p, increasing in rows and columns; every box is <= or >= all boxes southwest of it"""
    mu = tuple(mu)
    by = Tableau.KOG_by_shape(p, mu)
    cnt = Tableau.KOG_counts_by_shape(p, mu)
    shapes = rims(mu, size)
    k = sx.choose('nu', [list(s) for s, _ in shapes])
    cells = [c for s, c in shapes if list(s) == k][0]
    nu = tuple(k)
    tabs = tables(sx, by.get(nu, []), cells)
    x = {b: sx.int('x%d%d' % b) for b in cells}
    ok = all((1 <= x[b]) & (x[b] <= p) for b in cells) & all(any(x[b] == a for b in cells) for a in range(1, p + 1))
    for b in cells:
        for c in ((b[0], b[1] + 1), (b[0] + 1, b[1])):
            if c in cells:
                ok = ok & (x[b] < x[c])
        sw = [c for c in cells if c[0] >= b[0] and c[1] <= b[1] and c != b]
        ok = ok & (all(x[b] <= x[c] for c in sw) | all(x[b] >= x[c] for c in sw))
    sx.check(any(all(t[b][0] == x[b] for b in cells) for t in tabs) == ok, 'listed exactly when it is a KOG tableau')
    sx.check(cnt.get(nu, 0) == len(tabs) and Tableau.KOG_counts(nu, mu, p) == len(tabs), 'counts')
    sx.check(len(cells) < p or nu in by or len(tabs) == 0, 'by shape')


def klg(sx, mu, p, size):
    """primed or unprimed entries; |entries| = {1, ..., p}; primed boxes <= and unprimed boxes >= everything southwest; no primed diagonal"""
    mu = tuple(mu)
    by = Tableau.KLG_by_shape(p, mu)
    cnt = Tableau.KLG_counts_by_shape(p, mu)
    shapes = rims(mu, size)
    k = sx.choose('nu', [list(s) for s, _ in shapes])
    cells = [c for s, c in shapes if list(s) == k][0]
    nu = tuple(k)
    tabs = tables(sx, by.get(nu, []), cells)
    x = {b: sx.int('x%d%d' % b) for b in cells}
    e = {b: ite(x[b] > 0, 2 * x[b], -2 * x[b] - 1) for b in cells}
    ok = all((x[b] != 0) & (abs(x[b]) <= p) for b in cells) & all(any(abs(x[b]) == a for b in cells) for a in range(1, p + 1))
    for b in cells:
        for c in ((b[0], b[1] + 1), (b[0] + 1, b[1])):
            if c in cells:
                ok = ok & (e[b] < e[c])
        sw = [c for c in cells if c[0] >= b[0] and c[1] <= b[1] and c != b]
        ok = ok & ((x[b] > 0) | all(e[b] <= e[c] for c in sw)) & ((x[b] < 0) | all(e[b] >= e[c] for c in sw))
        if b[0] == b[1]:
            ok = ok & (x[b] > 0)
    sx.check(any(all(t[b][0] == x[b] for b in cells) for t in tabs) == ok, 'listed exactly when it is a KLG tableau')
    sx.check(cnt.get(nu, 0) == len(tabs) and Tableau.KLG_counts(nu, mu, p) == len(tabs), 'counts')


def after(sx, f, args):
    """the same answers after every other enumeration with the same arguments"""
    mu, nu, n = tuple(args[0]), (), 2
    if f in ('kog', 'klg'):
        p = args[1]
        calls = [lambda: Tableau.KOG_by_shape(p, mu), lambda: Tableau.KLG_by_shape(p, mu), lambda: Tableau.KOG_counts_by_shape(p, mu),
                 lambda: Tableau.KLG_counts_by_shape(p, mu), lambda: Tableau.KOG_counts(mu, mu, p), lambda: Tableau.KLG_counts(mu, mu, p)]
    else:
        nu = tuple(args[1])
        if f != 'standard':
            n = args[2]
        strict = all(x[i] > x[i + 1] for x in (mu, nu) for i in range(len(x) - 1))
        calls = [lambda: Tableau.standard(mu, nu)]
        for sv in (False, True):
            calls += [lambda sv=sv: Tableau.semistandard(n, mu, nu, sv), lambda sv=sv: Tableau.count_semistandard(n, mu, nu, sv),
                      lambda sv=sv: Tableau.semistandard_marked(n, mu, nu, sv), lambda sv=sv: Tableau.count_semistandard_marked(n, mu, nu, sv)]
        calls += [lambda: Tableau.semistandard_rpp(n, mu, nu), lambda: Tableau.count_semistandard_rpp(n, mu, nu)]
        if strict:
            for d in (False, True):
                for sv in (False, True):
                    calls += [lambda d=d, sv=sv: Tableau.semistandard_shifted_marked(n, mu, nu, d, sv),
                              lambda d=d, sv=sv: Tableau.count_semistandard_shifted_marked(n, mu, nu, d, sv)]
                calls += [lambda d=d: Tableau.semistandard_shifted_setvalued(n, mu, nu, d), lambda d=d: Tableau.semistandard_marked_rpp(n, mu, nu, d),
                          lambda d=d: Tableau.count_semistandard_marked_rpp(n, mu, nu, d), lambda d=d: Tableau.semistandard_shifted_rpp(n, mu, nu, d),
                          lambda d=d: Tableau.standard_shifted_marked(mu, nu, diagonal_primes=d)]
    turn = sx.pick('turn', 0, 1)
    for call in calls[::-1] if turn else calls:
        call()
    HARNESS[f](sx, *args)


HARNESS = {'unshifted': unshifted, 'shifted': shifted, 'rpp': rpp, 'marked_rpp': marked_rpp, 'standard': standard, 'kog': kog, 'klg': klg}


def shapes(n, strict):
    out = []
    for k in range(n + 1):
        for mu in itertools.product(range(1, n + 1), repeat=k):
            if sum(mu) <= n and all((mu[i] > mu[i + 1]) if strict else (mu[i] >= mu[i + 1]) for i in range(k - 1)):
                out.append(mu)
    return out


def skews(n, top, strict):
    """(mu, nu) with nu inside mu, mu at most top boxes, n boxes between"""
    for mu in shapes(top, strict):
        for nu in shapes(top, strict):
            if len(nu) <= len(mu) and all(a <= b for a, b in zip(nu, mu)) and sum(mu) - sum(nu) == n:
                yield list(mu), list(nu)


def jobs(tier):
    out = []
    big = tier != 'quick'
    groups = {}

    def add(f, *a):
        out.append({'f': f, 'args': list(a)})

    def skew(n, strict):
        return [(m, u) for m, u in skews(n, n if n > 2 and not big else n + 2, strict)]
    for n in range(0, 5 + big):
        for mu, nu in skew(n, False):
            top = 3 if n < 4 else 2
            add('rpp', mu, nu, top)
            for marked in (False, True):
                add('unshifted', mu, nu, 3 if n < 4 or not marked else 2, marked, False)
                if n < 5:
                    add('unshifted', mu, nu, (3 if n < 3 else 2) if marked or n > 3 else 3, marked, True)
            add('standard', mu, nu, 'plain')
        for mu, nu in skew(n, True):
            for d in (True, False):
                add('shifted', mu, nu, 3 if n < 4 else 2, d, False)
                if n < 5:
                    add('shifted', mu, nu, 3 if n < 3 else 2, d, True)
                add('marked_rpp', mu, nu, 3 if n < 3 else 2, d)
                add('standard', mu, nu, 'diag' if d else 'nodiag')
    for mu, nu in [([3, 2], []), ([2, 2, 1], []), ([3, 2, 1], []), ([3, 2, 1], [1]), ([3, 3], [1]), ([4, 2], [1])]:
        for marked in (False, True):
            add('unshifted', mu, nu, 3 if not marked else 2, marked, False)
        add('unshifted', mu, nu, 2 if sum(mu) > 5 else 3, False, True)
        add('rpp', mu, nu, 2 if sum(mu) > 5 else 3)
        add('standard', mu, nu, 'plain')
    for mu, nu in [([3, 2], []), ([3, 2, 1], []), ([4, 2], []), ([4, 1], []), ([4, 2, 1], [2]), ([4, 3, 1], [2, 1]), ([5, 2], [2])]:
        for d in (True, False):
            add('shifted', mu, nu, 3 if sum(mu) - sum(nu) < 6 else 2, d, False)
            if d or sum(mu) < 6:
                add('shifted', mu, nu, 2, d, True)
            add('marked_rpp', mu, nu, 2, d)
            if sum(mu) - sum(nu) < 6:
                add('standard', mu, nu, 'diag' if d else 'nodiag')
    for mu, nu in [([1], []), ([2, 1], []), ([2, 1], [1]), ([3], [1])] + ([([3, 1], []), ([3, 2], [1]), ([2], [])] if big else []):
        for a in (False, True):
            add('after', 'rpp', [mu, nu, 2])
            for b in (False, True):
                add('after', 'unshifted', [mu, nu, 2, a, b])
                add('after', 'shifted', [mu, nu, 2, a, b])
            add('after', 'marked_rpp', [mu, nu, 2, a])
        for kind in ('plain', 'diag', 'nodiag'):
            add('after', 'standard', [mu, nu, kind])
    for mu, p in [([1], 2), ([2], 2), ([2, 1], 2), ([3, 1], 2)]:
        add('after', 'kog', [mu, p, 3])
        add('after', 'klg', [mu, p, 3])
    for lam in shapes(3, True) + [(3, 1), (4,)] + ([(3, 2), (4, 1), (3, 2, 1)] if big else []):
        for d in (True, False):
            add('copieri', list(lam), 4 if sum(lam) < 4 else sum(lam) + 1, d)
    for mu, size in [([3, 2, 1], 4), ([4, 3, 2], 3), ([4, 2], 4)] + ([([5, 4, 2], 4), ([5, 3, 1], 5), ([4, 3, 2, 1], 5)] if big else []):
        for p in range(1, size + 1):
            add('kog', mu, p, size)
            add('klg', mu, p, size)
    for mu in shapes(3 + big, True):
        for p in range(0, 5 + big):
            add('kog', list(mu), p, 4 + big)
            add('klg', list(mu), p, 4 + big)
    return out
