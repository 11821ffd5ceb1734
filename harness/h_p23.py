"""Valued-set tableaux: shifted tableaux cut into groups, and the weight-swapping transitions."""
import itertools
from partitions import Partition
from tableaux import Tableau
from vst import ValuedSetTableau
from ref import ite, ind
from h_p11 import dbl

BOUNDS = ('transitions: skew shifted shapes of up to 4 boxes (and (3,2), (3,2,1), (3,2,1)/(1)) in two letters, up to 3 boxes (and (3,1), (3,2)/(1), (3,2,1)/(2)) '
          'in three letters (thorough 6 and 5 boxes); chosen wide shapes of up to 5 boxes (9) in two letters; listings up to 3 boxes (5), also after one or two (five) other listings, in every order; moves at both indices in three letters in either order up to 3 boxes (4); queries up to 3 boxes (5) with arbitrary nonzero entries; every filling and grouping')
OUTSIDE = 'larger shapes and more letters'


def cells(mu, nu=()):
    return [(i + 1, i + j + 1) for i in range(len(mu)) for j in range(nu[i] if i < len(nu) else 0, mu[i])]


def entries(sx, bs, top):
    ent = {}
    for i, j in bs:
        if top:
            ent[i, j] = sx.int('t%d%d' % (i, j), -top, top)
        else:
            ent[i, j] = sx.int('t%d%d' % (i, j))
        sx.assume(ent[i, j] != 0)
    return ent


def fits(x, y, row):
    """may x stand left of (row) or below (column) y"""
    return (dbl(x) < dbl(y)) | ((x == y) & ((x > 0) if row else (x < 0)))


def semistandard(ent):
    ok = True
    for (i, j), x in ent.items():
        if (i, j + 1) in ent:
            ok = ok & fits(x, ent[i, j + 1], True)
        if (i + 1, j) in ent:
            ok = ok & fits(x, ent[i + 1, j], False)
    return ok


def may_group(ent, i, j):
    """a box may be joined to the next box: the one to the right if unprimed, the one in the row before if primed"""
    x = ent[i, j]
    right = (x == ent[i, j + 1]) if (i, j + 1) in ent else False
    below = (x == ent[i - 1, j]) if (i - 1, j) in ent else False
    return ((x > 0) & right) | ((x < 0) & below)


def tableau(sx, mu, nu=(), top=0, semi=True, diagonal=True):
    mu, nu = tuple(mu), tuple(nu)
    bs = cells(mu, nu)
    ent = entries(sx, bs, top)
    if semi:
        sx.assume(semistandard(ent))
    if not diagonal:
        for i, j in bs:
            if i == j:
                sx.assume(ent[i, j] > 0)
    grp = {}
    for i, j in bs:
        grp[i, j] = sx.int('g%d%d' % (i, j), 0, 1)
        sx.assume((grp[i, j] == 0) | may_group(ent, i, j))
    return ValuedSetTableau(Tableau({b: ent[b] for b in bs}), Tableau({b: grp[b] for b in bs})), ent, grp


def joined(ent, grp, b, c):
    """is box c the next box of the group of box b"""
    if b not in ent or c not in ent:
        return False
    if c == (b[0], b[1] + 1):
        return (grp[b] == 1) & (ent[b] > 0)
    if c == (b[0] - 1, b[1]):
        return (grp[b] == 1) & (ent[b] < 0)
    return False


def absv(x):
    return ite(x > 0, x, -x)


def queries(sx, mu, nu):
    mu, nu = tuple(mu), tuple(nu)
    t, ent, grp = tableau(sx, mu, nu, semi=False)
    bs = sorted(ent)
    start, end = {}, {}
    for i, j in bs:
        before = joined(ent, grp, (i, j - 1), (i, j)) | joined(ent, grp, (i + 1, j), (i, j))
        start[i, j] = not before
        end[i, j] = grp[i, j] == 0
    for b in bs + [(9, 9)]:
        inside = b in ent
        sx.check(t.is_group_end(*b) == (inside and end[b]), 'group ends')
        sx.check(t.is_group_start(*b) == (inside and start[b]), 'group starts')
        sx.check(t.is_singleton(*b) == (inside and start[b] and end[b]), 'singletons')
    q = sx.int('q', 1)
    single = [b for b in bs if start[b] and end[b]]
    sx.check(sorted(t.singletons()) == single, 'all singletons')
    sx.check(sorted(t.singletons(q)) == [b for b in single if absv(ent[b]) == q], 'singletons of one value')
    sx.check(t.diagonal_singletons() == [i for i, j in single if i == j], 'diagonal singletons')
    sx.check(t.diagonal_singletons(q) == [i for i, j in single if i == j and absv(ent[i, j]) == q], 'diagonal singletons of one value')
    sx.check(t.diagonal_primes() == sum([ind(ent[b] < 0) for b in bs if b[0] == b[1]]), 'number of primes on the diagonal')
    sx.check(t.primed_diagonal_cells(q) == [i for i, j in bs if i == j and ent[i, j] == -q], 'primed diagonal boxes')
    sx.check(t.primed_groups() == sum([ind(end[b]) * ind(ent[b] < 0) for b in bs]), 'number of primed groups')
    sx.check(t.primed_groups(q) == sum([ind(end[b]) * ind(ent[b] == -q) for b in bs]), 'number of primed groups of one value')
    sx.check(t.is_highest_weight() == all(end[b] for b in bs), 'no box is joined')
    for b in bs:
        for c in bs:
            sx.check(bool(t.in_same_group(*(b + c))) == (joined(ent, grp, b, c) | joined(ent, grp, c, b)), 'neighbours in one group')


def unpriming(sx, mu, nu):
    mu, nu = tuple(mu), tuple(nu)
    t, ent, grp = tableau(sx, mu, nu)
    bs = sorted(ent)
    u, d = t.unprime(), t.unprime_diagonal()
    for i, j in bs:
        single = (grp[i, j] == 0) & (not (joined(ent, grp, (i, j - 1), (i, j)) | joined(ent, grp, (i + 1, j), (i, j))))
        sx.check(u.tableau.get(i, j) == ite(single, absv(ent[i, j]), ent[i, j]), 'unprime changes the sign of singletons only')
        sx.check(d.tableau.get(i, j) == (ite(single, absv(ent[i, j]), ent[i, j]) if i == j else ent[i, j]), 'unprime_diagonal changes diagonal singletons only')
        sx.check(t.tableau.get(i, j) == ent[i, j] and t.grouping.get(i, j) == grp[i, j], 'the argument is not changed')
    sx.check(u.grouping == t.grouping and d.grouping == t.grouping, 'the groups stay')


def weight(sx, mu, nu, top):
    mu, nu = tuple(mu), tuple(nu)
    t, ent, grp = tableau(sx, mu, nu, top, semi=False)
    w = t.weight(top)
    sx.check(len(w) == top, 'length of the weight')
    for k in range(1, top + 1):
        sx.check(w[k - 1] == sum([ind((grp[b] == 0) & (absv(ent[b]) == k)) for b in ent]), 'the weight counts groups')


def semistandardness(sx, mu, nu):
    mu, nu = tuple(mu), tuple(nu)
    t, ent, grp = tableau(sx, mu, nu, semi=False)
    sx.check(t.is_semistandard() == semistandard(ent), 'semistandardness')


def runs(sx, mu, nu, v):
    """the groups of one value, as pairs of end points"""
    mu, nu = tuple(mu), tuple(nu)
    t, ent, grp = tableau(sx, mu, nu, 2)
    bs = sorted(ent)
    starts, ends = t.get_horizontals(v) if v > 0 else t.get_verticals(v)
    tails = [b for b in bs if ent[b] == v and grp[b] == 0]
    want = []
    for i, j in tails:
        a, b = i, j
        if v > 0:
            while joined(ent, grp, (a, b - 1), (a, b)):
                b -= 1
            want.append(((a, b), (i, j)))
        else:
            while joined(ent, grp, (a + 1, b), (a, b)):
                a += 1
            want.append(((i, j), (a, b)))
    got = list(zip(starts, ends))
    sx.check(len(starts) == len(ends) and sorted(got) == sorted(want), 'every group once with its two ends')
    order = [(x[1][0], -x[1][1]) for x in got] if v > 0 else [(-x[0][1], x[0][0]) for x in got]
    sx.check(order == sorted(order), 'order of the groups')


def invalid(sx, mu, nu):
    """a grouping that joins boxes that do not belong together is refused"""
    mu, nu = tuple(mu), tuple(nu)
    bs = cells(mu, nu)
    ent = entries(sx, bs, 0)
    grp = {b: sx.int('g%d%d' % b, 0, 1) for b in bs}
    ok = True
    for i, j in bs:
        ok = ok & ((grp[i, j] == 0) | may_group(ent, i, j))
    bad = sx.raises(AssertionError, lambda: ValuedSetTableau(Tableau(dict(ent)), Tableau(dict(grp))))
    sx.check(bad == (not ok), 'only boxes with equal entries are joined')


def listed(sx, mu, nu, top, diagonal):
    """all() lists every semistandard tableau with every grouping exactly once"""
    mu, nu = tuple(mu), tuple(nu)
    t, ent, grp = tableau(sx, mu, nu, top, diagonal=diagonal)
    s = ValuedSetTableau.all(top, mu, nu, diagonal_primes=diagonal)
    sx.check(sum([ind((x.tableau == t.tableau) & (x.grouping == t.grouping)) for x in s]) == 1, 'every valued-set tableau is listed once')
    sx.check(t in s, 'membership by equality and hash')


def only(sx, mu, nu, top, diagonal):
    mu, nu = tuple(mu), tuple(nu)
    bs = cells(mu, nu)
    for x in ValuedSetTableau.all(top, mu, nu, diagonal_primes=diagonal):
        ent = {b: x.tableau.get(*b) for b in bs}
        sx.check(set(x.tableau.boxes) == set(bs) == set(x.grouping.boxes), 'the boxes of the shape')
        sx.check(bool(semistandard(ent)) and all(1 <= abs(v) <= top for v in ent.values()), 'semistandard entries in range')
        sx.check(diagonal or all(ent[b] > 0 for b in bs if b[0] == b[1]), 'no primes on the diagonal')
    sx.check(True, 'all listed tableaux belong')


def interlisted(sx, mu, nu):
    """all_interstandard lists exactly the valued tableaux in two letters that pass is_interstandard and come from a forward move"""
    mu, nu = tuple(mu), tuple(nu)
    t, ent, grp = tableau(sx, mu, nu, 2, semi=False)
    s = ValuedSetTableau.all_interstandard(mu, nu)
    n = sum([ind((x.tableau == t.tableau) & (x.grouping == t.grouping)) for x in s])
    sx.check(n <= 1, 'listed at most once')
    sx.check((n == 1) == t.is_interstandard(), 'exactly the interstandard tableaux')


def forward(sx, mu, nu):
    """in two letters the forward move is a bijection to the interstandard tableaux, undone by the backward move"""
    mu, nu = tuple(mu), tuple(nu)
    t, ent, grp = tableau(sx, mu, nu, 2)
    f = t.forward_transition(1)
    sx.check(f.is_interstandard(), 'forward gives an interstandard tableau')
    sx.check(f.backward_transition(1) == t, 'backward undoes forward')
    sx.check(f.weight(2) == t.weight(2), 'the weight is kept')
    m, case = f.middle_transition(1)
    sx.check(m.is_interstandard() and m.weight(2) == tuple(reversed(t.weight(2))), 'the middle move swaps the weight')
    sx.check(m.middle_transition(1)[0] == f, 'the middle move undoes itself')


def backward(sx, mu, nu):
    mu, nu = tuple(mu), tuple(nu)
    t, ent, grp = tableau(sx, mu, nu, 2, semi=False)
    sx.assume(t.is_interstandard())
    b = t.backward_transition(1)
    sx.check(b.is_semistandard(), 'backward gives a semistandard tableau')
    sx.check(b.forward_transition(1) == t, 'forward undoes backward')


def transition(sx, mu, nu, top, index, diagonal):
    mu, nu = tuple(mu), tuple(nu)
    t, ent, grp = tableau(sx, mu, nu, top, diagonal=diagonal)
    u = t.transition(index)
    bs = sorted(ent)
    sx.check(set(u.tableau.boxes) == set(bs) == set(u.grouping.boxes), 'same boxes')
    new = {b: u.tableau.get(*b) for b in bs}
    sx.check(semistandard(new) and u.is_semistandard(), 'the image is semistandard')
    w, x = t.weight(top), u.weight(top)
    sx.check(x[index - 1] == w[index] and x[index] == w[index - 1], 'the two weights are swapped')
    for b in bs:
        touched = (absv(ent[b]) == index) | (absv(ent[b]) == index + 1)
        sx.check(touched | ((new[b] == ent[b]) & (u.grouping.get(*b) == grp[b])), 'other entries and groups stay')
    prim = sum([ind(ent[b] < 0) for b in bs if b[0] == b[1]])
    sx.check(sum([ind(new[b] < 0) for b in bs if b[0] == b[1]]) == prim, 'the number of primes on the diagonal stays')
    sx.check(u.transition(index) == t, 'an involution')
    sx.check(all(t.tableau.get(*b) == ent[b] for b in bs) and all(t.grouping.get(*b) == grp[b] for b in bs), 'the argument is not changed')


def fresh(sx, mu, nu, top):
    """results do not depend on what was computed before: another tableau first, then this one, against a copy of the code run cold"""
    mu, nu = tuple(mu), tuple(nu)
    t, ent, grp = tableau(sx, mu, nu, top)
    a = t.transition(1)
    again = ValuedSetTableau(Tableau(dict(t.tableau.boxes)), Tableau(dict(t.grouping.boxes)))
    sx.check(again == t and hash(again) == hash(t), 'equal tableaux hash alike')
    sx.check(again.transition(1) == a, 'equal tableaux have equal images')
    d = [b for b in sorted(ent)]
    other = t.unprime()
    sx.check((other == t) == all(other.tableau.get(*b) == ent[b] for b in d), 'equality is equality of entries and groups')


WIDE = [((4,), ()), ((5,), ()), ((4, 1), ()), ((4, 3, 2), (3, 1)), ((4, 3, 2, 1), (3, 2)), ((4, 2), (1,))]
WIDER = [((6,), ()), ((4, 2), ()), ((4, 3), ()), ((5, 2), ()), ((4, 3, 2), (2, 1)), ((4, 3, 2, 1), (2, 1)), ((5, 3, 1), (3, 1)), ((5, 4), (3,)), ((6, 4), (3,)), ((5, 4, 2), (3, 2))]
LISTS = [(2, (2,), ()), (1, (2,), ()), (3, (2,), ()), (2, (2, 1), ()), (2, (2, 1), (1,)), (2, (2, 1), (2,)), (2, (3,), ()), (2, (3,), (1,)), (2, (3, 1), (1,)),
         (2, (3, 1), (2,))]


def crossed(sx, diagonal, width):
    """listings and moves give the same answers after other listings and moves"""
    i = sx.choose('i', list(range(len(LISTS))))
    k = sx.pick('k', 1, width)
    top, mu, nu = LISTS[i]
    for j in range(1, k + 1):
        a, b, c = LISTS[(i + j) % len(LISTS)]
        ValuedSetTableau.all(a, b, c, diagonal_primes=sx.pick('f%d' % j, 0, 1) == 1)
        ValuedSetTableau.all_interstandard(b, c)
    ValuedSetTableau.all(top, mu, nu, diagonal_primes=not diagonal)
    t, ent, grp = tableau(sx, mu, nu, top, diagonal=diagonal)
    s = ValuedSetTableau.all(top, mu, nu, diagonal_primes=diagonal)
    sx.check(len(s) == sum([ind((x.tableau == t.tableau) & (x.grouping == t.grouping)) for x in s]) + len([x for x in s if x != t]) and t in s, 'listed')
    for x in s:
        e = {b: x.tableau.get(*b) for b in x.tableau.boxes}
        sx.check(set(e) == set(cells(mu, nu)) == set(x.grouping.boxes) and bool(semistandard(e)) and all(1 <= abs(v) <= top for v in e.values()), 'only tableaux of this shape')
        sx.check(diagonal or all(e[b] > 0 for b in e if b[0] == b[1]), 'no primes on the diagonal')
    for x in ValuedSetTableau.all_interstandard(mu, nu):
        sx.check(x.is_interstandard() and set(x.tableau.boxes) == set(cells(mu, nu)), 'only interstandard tableaux of this shape')


def indices(sx, mu, nu, top):
    """moves at one index are the same after moves at the others"""
    mu, nu = tuple(mu), tuple(nu)
    t, ent, grp = tableau(sx, mu, nu, top)
    w = t.weight(top)
    for i in sx.choose('order', list(itertools.permutations(range(1, top)))):
        f = t.forward_transition(i)
        m, case = f.middle_transition(i)
        u = t.transition(i)
        sx.check(m.backward_transition(i) == u and f.backward_transition(i) == t, 'the move is made of its three parts')
        x = u.weight(top)
        sx.check(all(x[k - 1] == w[(i if k == i + 1 else i + 1 if k == i else k) - 1] for k in range(1, top + 1)), 'only two weights are swapped')
        sx.check(u.is_semistandard() and u.transition(i) == t, 'undone by the same move')


def skews(k, full=False):
    out = []
    for n in range(k + 1):
        for mu in strict(n):
            for m in range(n + 1):
                for nu in strict(m):
                    if len(nu) <= len(mu) and all(a <= b for a, b in zip(nu, mu)):
                        out.append([list(mu), list(nu)])
    return out


def strict(n, top=None):
    if n == 0:
        yield ()
        return
    for a in range(min(n, top if top is not None else n), 0, -1):
        for rest in strict(n - a, a - 1):
            yield (a,) + rest


def shapes(total, boxes):
    """pairs of strict partitions with sum(mu) <= total and at most the given number of boxes between them, up to obvious repetition"""
    seen, out = set(), []
    for mu, nu in skews(total):
        n = sum(mu) - sum(nu)
        if n == 0 or n > boxes:
            continue
        key = Partition.skew_key(tuple(mu), tuple(nu), True)
        if key in seen:
            continue
        seen.add(key)
        out.append((n, mu, nu))
    return [(mu, nu) for n, mu, nu in sorted(out)]


def jobs(tier):
    out = []
    big = tier != 'quick'

    def add(f, *args, **kw):
        out.append(dict({'f': f, 'args': [list(a) if type(a) == tuple else a for a in args]}, **kw))

    for mu, nu in [((1,), ()), ((2,), ()), ((2, 1), ()), ((3, 1), (1,)), ((3, 2), (2,))] + ([((3, 1), ()), ((3, 2), ()), ((3, 2, 1), (2,)), ((4, 2), (1,))] if big else []):
        add('queries', mu, nu)
        add('unpriming', mu, nu)
        add('invalid', mu, nu)
        add('semistandardness', mu, nu)
        add('weight', mu, nu, 2)
        for v in (1, -1, 2, -2):
            add('runs', mu, nu, v)
    more = [((3, 2), ()), ((3, 2, 1), (1,)), ((3, 2, 1), ())]
    for mu, nu in (shapes(8, 6) if big else shapes(6, 4)) + more:
        add('forward', mu, nu)
        if (mu, nu) != ((3, 2, 1), ()):
            add('backward', mu, nu)
        add('transition', mu, nu, 2, 1, True)
        if any(i == j for i, j in cells(mu, nu)):
            add('transition', mu, nu, 2, 1, False)
    for mu, nu in shapes(6, 5) if big else shapes(5, 3):
        add('listed', mu, nu, 2, True)
        add('listed', mu, nu, 2, False)
        add('only', mu, nu, 3, True)
        add('only', mu, nu, 3, False)
        add('interlisted', mu, nu)
        add('fresh', mu, nu, 2)
    for d in (True, False):
        add('crossed', d, 5 if big else 2)
    for mu, nu in WIDE + (WIDER if big else []):
        add('forward', mu, nu)
        add('backward', mu, nu)
        add('transition', mu, nu, 2, 1, True)
    for mu, nu in shapes(5, 4) if big else [((2,), ()), ((2, 1), ()), ((2, 1), (1,)), ((3, 1), (1,))]:
        add('indices', mu, nu, 3)
    more = [((3, 1), ()), ((3, 2), (1,)), ((3, 2, 1), (2,))]
    for mu, nu in shapes(6, 5) if big else shapes(5, 3) + more:
        add('transition', mu, nu, 3, 2, True)
        add('transition', mu, nu, 3, 1, True)
    return out
