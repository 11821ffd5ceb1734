"""Tableaux as finite maps from boxes to sorted lists: editing, queries, reading words, standardization, semistandardness."""
import itertools
from tableaux import Tableau, ReversePlanePartition, MarkedReversePlanePartition
from ref import ite, ind

BOUNDS = ('editing and queries: up to 2 boxes at arbitrary positive positions (3 thorough; weights and last entries 3), up to 2 entries a box, entries and arguments arbitrary integers; '
          'semistandardness, reading words and standardization: fixed shapes of up to 4 boxes (5 thorough) with up to 5 entries, entries arbitrary '
          'nonzero integers; strings: up to 3 boxes with entries of absolute value up to 12; the same with one or two arbitrary boxes or entries next to given ones, up to 9 boxes')
OUTSIDE = 'more boxes'


def table(sx, sizes, nonzero=False, tag='b'):
    """boxes at symbolic positions: list of ((i, j), [entries in increasing order]); a size (i, j, entries) is a given box"""
    out = []
    for k, s in enumerate(sizes):
        if not isinstance(s, int):
            sx.assume(all((s[0] != q[0]) | (s[1] != q[1]) for q, _ in out))
            out.append(((s[0], s[1]), list(s[2])))
            continue
        p = (sx.int('%si%d' % (tag, k), 1), sx.int('%sj%d' % (tag, k), 1))
        for q, _ in out:
            sx.assume((p[0] != q[0]) | (p[1] != q[1]))
        v = [sx.int('%sv%d%d' % (tag, k, a)) for a in range(s)]
        for a in range(s - 1):
            sx.assume(v[a] <= v[a + 1])
        if nonzero:
            for x in v:
                sx.assume(x != 0)
        out.append((p, v))
    return out


def build(boxes):
    return Tableau({p: tuple(v) for p, v in boxes})


def same(sx, t, boxes, msg):
    sx.check(len(t.boxes) == len(boxes) and all(p in t.boxes for p, _ in boxes), msg + ': boxes')
    for p, v in boxes:
        w = t.boxes[p]
        sx.check(len(w) == len(v) and all(a == b for a, b in zip(w, v)), msg + ': entries')
    sx.check(len(t) == sum(len(v) for _, v in boxes) and t.size() == len(boxes), msg + ': size')


def inserted(v, x):
    """sorted list with x put in"""
    ans = []
    n = len(v)
    for k in range(n + 1):
        if k == 0:
            ans.append(ite(x <= v[0], x, v[0]) if n else x)
        elif k == n:
            ans.append(ite(x >= v[-1], x, v[-1]))
        else:
            ans.append(ite(x <= v[k - 1], v[k - 1], ite(x <= v[k], x, v[k])))
    return ans


def edit(sx, sizes, op):
    boxes = table(sx, sizes)
    t = build(boxes)
    p = (sx.int('pi', 1), sx.int('pj', 1))
    x = sx.int('x')
    hit = [k for k in range(len(boxes)) if boxes[k][0][0] == p[0] and boxes[k][0][1] == p[1]]
    rest = [b for k, b in enumerate(boxes) if k not in hit]
    old = boxes[hit[0]][1] if hit else None
    sx.check((p in t) == bool(hit) and t.contains_box(*p) == bool(hit), 'membership')
    if op == 'add':
        got, want = t.add(p[0], p[1], x), rest + [(p, inserted(old, x) if hit else [x])]
    elif op == 'set':
        got, want = t.set(p[0], p[1], x), rest + [(p, [x])]
        y = sx.int('y')
        sx.assume(x <= y)
        same(sx, t.set(p[0], p[1], (y, x)), rest + [(p, [x, y])], 'set to several entries')
    elif op == 'replace':
        if not hit:
            sx.check(sx.raises(AssertionError, lambda: t.replace(p[0], p[1], x)), 'replace needs a box')
            return
        got, want = t.replace(p[0], p[1], x), rest + [(p, [x])]
    elif op == 'clear':
        if not hit:
            sx.check(sx.raises(AssertionError, lambda: t.clear(*p)), 'clear needs a box')
            return
        got, want = t.clear(*p), rest
        same(sx, t.remove(*p), rest, 'remove a whole box')
    else:
        if not hit or not any(a == x for a in old):
            sx.check(sx.raises(AssertionError, lambda: t.remove(p[0], p[1], x)), 'remove needs the entry')
            return
        got = t.remove(p[0], p[1], x)
        k = [a == x for a in old].index(True)
        left = old[:k] + old[k + 1:]
        want = rest + ([(p, left)] if left else [])
    same(sx, got, want, op)
    same(sx, t, boxes, 'the original is not changed')


def queries(sx, sizes):
    boxes = table(sx, sizes)
    t = build(boxes)
    p = (sx.int('pi', 1), sx.int('pj', 1))
    x = sx.int('x')
    hit = [v for q, v in boxes if q[0] == p[0] and q[1] == p[1]]
    got = t.get(*p)
    if not hit:
        sx.check(got is None and t.get(p[0], p[1], default=x) == x, 'no entry')
    else:
        sx.check(got == (hit[0][0] if len(hit[0]) == 1 else tuple(hit[0])) and t.get(p[0], p[1], unpack=False) == tuple(hit[0]), 'entry')
    sx.check(sorted(t.find(x)) == sorted(q for q, v in boxes if any(a == x for a in v)), 'find')
    vals = t.values()
    sx.check(all(a in vals for _, v in boxes for a in v) and (x in vals) == any(a == x for _, v in boxes for a in v), 'values')
    c = t.counter()
    sx.check(c.get(x, 0) == sum([ind(a == x) for _, v in boxes for a in v]), 'counter')
    sx.check(t.abs_sum() == sum([ite(a > 0, a, -a) for _, v in boxes for a in v]), 'sum of absolute values')
    sx.check(t.setvalued_excess() == sum(len(v) - 1 for _, v in boxes), 'excess')
    sx.check(bool(t) == bool(boxes), 'truth')


def lines(sx, sizes):
    boxes = table(sx, sizes)
    t = build(boxes)
    r = sx.int('r', 1)
    best = [0, 0, 0, 0]
    for (i, j), _ in boxes:
        best[0] = ite(i > best[0], i, best[0])
        best[1] = ite(j > best[1], j, best[1])
        best[2] = ite((i == r) & (j > best[2]), j, best[2])
        best[3] = ite((j == r) & (i > best[3]), i, best[3])
    sx.check(t.max_row() == best[0] and t.max_column() == best[1] and t.max_column(r) == best[2] and t.max_row(r) == best[3], 'extent')
    a, b = t.last_box_in_row(r), t.last_box_in_column(r)
    sx.check((0 if a is None else a) == best[2] and (0 if b is None else b) == best[3], 'last boxes')


def slices(sx, sizes, row):
    boxes = table(sx, sizes)
    t = build(boxes)
    r, lo, hi = sx.int('r', 1), sx.int('lo'), sx.int('hi')
    k = 1 if row else 0
    f = t.get_row if row else t.get_column
    line = [(p, v) for p, v in boxes if p[1 - k] == r]
    same(sx, f(r, before=hi, after=lo), [(p, v) for p, v in line if lo < p[k] and p[k] < hi], 'part of a line')
    same(sx, f(r, before=hi), [(p, v) for p, v in line if p[k] < hi], 'start of a line')
    same(sx, f(r, after=lo), [(p, v) for p, v in line if lo < p[k]], 'end of a line')
    same(sx, f(r), line, 'line')


def maps(sx, sizes):
    boxes = table(sx, sizes)
    t = build(boxes)
    same(sx, t.transpose(), [((p[1], p[0]), v) for p, v in boxes], 'transpose')
    sx.check(t.transpose().transpose() == t, 'transposing twice')
    same(sx, t.double(), [(p, [2 * a for a in v]) for p, v in boxes], 'double')
    sx.check(t.double().halve() == t, 'halving a double')
    same(sx, t.negate(), [(p, [-a for a in reversed(v)] if p[0] != p[1] else v) for p, v in boxes], 'negate off the diagonal')
    same(sx, t.negate(False), [(p, [-a for a in reversed(v)]) for p, v in boxes], 'negate everywhere')
    s = Tableau({p: tuple(reversed(v)) for p, v in reversed(boxes)})
    sx.check(s == t, 'the order of construction does not matter')
    sx.check(not (t < t), 'irreflexive')
    sx.check([q for q in t] == [(i, j, t.boxes[i, j]) for i, j in sorted(p for p, _ in boxes)], 'iteration in order')


def weights(sx, sizes, top):
    boxes = table(sx, sizes, True)
    for k, (p, v) in enumerate(boxes):
        if isinstance(sizes[k], int):
            sx.assume((p[0] == k + 1) & (p[1] == 1))
        for a in v:
            sx.assume((a <= top) & (a >= -top))
    t = build(boxes)
    w = [sum([ind(abs(a) == k) for _, v in boxes for a in v]) for k in range(1, top + 1)]
    sx.check(t.weight(top) == tuple(w), 'weight')
    most = max([0] + [k for k in range(1, top + 1) if w[k - 1] > 0])
    sx.check(t.weight() == tuple(w[:most]), 'weight without a length')
    s = Tableau({p: tuple(reversed(v)) for p, v in reversed(boxes)})
    sx.check(s == t and hash(s) == hash(t), 'equal tableaux hash alike')


def rpp_weight(sx, sizes, top):
    boxes = table(sx, sizes)
    for _, v in boxes:
        for a in v:
            sx.assume((a != 0) & (a <= top) & (a >= -top))
    d = {p: tuple(v) for p, v in boxes}
    m = MarkedReversePlanePartition(d).weight(top)
    for k in range(1, top + 1):
        n = 0
        for a, (p, v) in enumerate(boxes):
            n = n + ind(any(x == k for x in v) and not any((q[1] == p[1]) and any(y == k for y in u) for q, u in boxes[:a]))
            n = n + ind(any(x == -k for x in v) and not any((q[0] == p[0]) and any(y == -k for y in u) for q, u in boxes[:a]))
        sx.check(m[k - 1] == n, 'columns with k and rows with -k')
    if all(a > 0 for _, v in boxes for a in v):
        u = ReversePlanePartition(d)
        sx.check(u.weight(top) == m, 'columns with k')
    sx.check(type(ReversePlanePartition(d).transpose()) == Tableau, 'transpose')


def order(sx, a, b, c):
    ts = [build(table(sx, s, True, g)) for s, g in ((a, 'a'), (b, 'b'), (c, 'c'))]
    x, y, z = ts
    sx.check(not (x < y and y < x), 'antisymmetric')
    sx.check(not (x < y and y < z) or x < z, 'transitive')
    sx.check(not (len(x) < len(y)) or x < y, 'shorter first')


def last(sx, sizes):
    boxes = table(sx, sizes, True)
    flat = [a for _, v in boxes for a in v]
    for k in range(len(flat)):
        for m in range(k):
            sx.assume((flat[k] != flat[m]) & (flat[k] != -flat[m]))
    t = build(boxes)
    n = t.last()
    sx.check(any(a == n for a in flat) and all(abs(a) <= abs(n) for a in flat), 'the entry of largest absolute value')
    s, rec = t.pop()
    k = [any(a == n for a in v) for _, v in boxes].index(True)
    p, v = boxes[k]
    left = [a for a in v if a != n]
    same(sx, s, [b for m, b in enumerate(boxes) if m != k] + ([(p, left)] if left else []), 'pop')
    sx.check(rec == (p[0], p[1], v[0] if len(v) == 1 else tuple(v)), 'record of pop')


def filled(sx, cells, sizes, low=None, distinct=False, tag='t', top=None):
    ent = {}
    for b, s in zip(cells, sizes):
        v = [sx.int('%s%d%d%d' % (tag, b[0], b[1], a), low, top) for a in range(s)]
        for a in range(s - 1):
            sx.assume(v[a] < v[a + 1] if distinct else v[a] <= v[a + 1])
        for a in v:
            sx.assume(a != 0)
        ent[b] = v
    return ent


def below(x, y, row):
    """x before y in 1' < 1 < 2' < 2 < ..., equality allowed for unprimed in a row, primed in a column"""
    ax, ay = abs(x), abs(y)
    return (ax < ay) | ((ax == ay) & (x < 0) & (y > 0)) | ((x == y) & ((x > 0) if row else (x < 0)))


def semi(ent, diag):
    ok = True
    for (i, j), v in ent.items():
        if not diag and i == j:
            ok = ok & all(x > 0 for x in v)
        for b, row in (((i, j + 1), True), ((i + 1, j), False)):
            if b in ent:
                ok = ok & all(below(x, y, row) for x in v for y in ent[b])
    return ok


def cells(shape, shifted):
    return [(i + 1, j + 1 + (i if shifted else 0)) for i in range(len(shape)) for j in range(shape[i])]


def arrangements(k, total):
    ans = [()] if total >= k else []
    for left in range(k, 0, -1):
        ans = [t + (a,) for t in ans for a in ([total - sum(t)] if left == 1 else range(1, total - sum(t) - left + 2))]
    return ans if k or not total else []


def semistandard(sx, shape, shifted, total, given=None):
    cs = cells(shape, shifted)
    if given is None:
        sz = sx.choose('sizes', arrangements(len(cs), total))
        ent = filled(sx, cs, sz)
    else:
        ent = {}
        for b, v in zip(cs, given):
            ent[b] = [sx.int('t%d%d' % b) if x is None else x for x in v]
            for a in range(len(v) - 1):
                sx.assume(ent[b][a] <= ent[b][a + 1])
            sx.assume(all(x != 0 for x in ent[b]))
    t = Tableau({b: tuple(v) for b, v in ent.items()})
    d, e = semi(ent, True), semi(ent, False)
    sx.check(t.is_semistandard(diagonal_primes=True) == d, 'semistandard with diagonal primes')
    sx.check(t.is_semistandard() == e, 'semistandard without diagonal primes')
    flat = [a for v in ent.values() for a in v]
    std = all(any(abs(a) == k for a in flat) for k in range(1, len(flat) + 1))
    sx.check(t.is_standard() == (std & e), 'standard')
    sx.check(t.shape() == tuple(shape), 'shape')


def standardize(sx, shape, shifted, total, low, top=None):
    """keeps positions and signs, orders all entries, equal ones by column (row when primed)"""
    cs = cells(shape, shifted)
    sz = sx.choose('sizes', arrangements(len(cs), total))
    ent = filled(sx, cs, sz, low, top=top)
    sx.assume(semi(ent, True))
    for b in ent:
        for k in range(len(ent[b]) - 1):
            sx.assume(ent[b][k] != ent[b][k + 1])
    t = Tableau({b: tuple(v) for b, v in ent.items()})
    s = t.standardize()
    sx.check(set(s.boxes) == set(t.boxes) and all(len(s.boxes[b]) == len(t.boxes[b]) for b in t.boxes), 'same boxes')
    flat = sorted(abs(a) for _, _, v in s for a in v)
    sx.check(flat == list(range(1, total + 1)), 'entries 1, ..., n')
    old = [(b, x) for b in sorted(ent) for x in ent[b]]
    # entries of a box are sorted, so they correspond in order
    new = [(b, y) for b in sorted(ent) for y in s.boxes[b]]
    sx.check(all((x > 0) == (y > 0) for (_, x), (_, y) in zip(old, new)), 'signs are kept')
    for (b, x), (_, y) in zip(old, new):
        for (c, z), (_, w) in zip(old, new):
            if b is c and x is z:
                continue
            strict = (abs(x) < abs(z)) | ((abs(x) == abs(z)) & (x < 0) & (z > 0))
            sx.check(not strict or (abs(y) < abs(w)), 'the order is kept')
            if b != c:
                tie = ((x == z) & (x > 0) & (b[1] < c[1])) | ((x == z) & (x < 0) & (b[0] < c[0]))
                sx.check(not tie or (abs(y) < abs(w)), 'equal entries are numbered along the strip')
    sx.check(s.is_semistandard(diagonal_primes=True), 'semistandard')
    sx.check(s.standardize() == s, 'standardizing twice')


def readings(sx, shape, shifted):
    cs = cells(shape, shifted)
    ent = filled(sx, cs, [1] * len(cs))
    t = Tableau({b: v[0] for b, v in ent.items()})
    rows = [b for i in reversed(range(1, len(shape) + 1)) for b in sorted(cs) if b[0] == i]
    cols = [b for j in range(1, 9) for b in reversed(sorted(cs)) if b[1] == j]
    sx.check(t.row_reading_word() == tuple(ent[b][0] for b in rows), 'row reading word')
    sx.check(t.column_reading_word() == tuple(ent[b][0] for b in cols), 'column reading word')
    primed = [-ent[b][0] for b in reversed(cols) if ent[b][0] < 0]
    sx.check(t.shifted_reading_word() == tuple(primed + [ent[b][0] for b in rows if ent[b][0] > 0]), 'shifted reading word')
    k, want = 1, True
    for b in sorted(cs, key=lambda b: (b[1], b[0])):
        want = want & (ent[b][0] == k)
        k += 1
    sx.check(t.is_shifted_column_superstandard() == want, 'column superstandard')


def rebuild(sx, shape):
    cs = cells(shape, False)
    ent = filled(sx, cs, [1] * len(cs), 1)
    sx.assume(semi(ent, True))
    t = Tableau({b: v[0] for b, v in ent.items()})
    sx.check(Tableau.from_row_reading_word(t.row_reading_word()) == t, 'the row reading word determines a semistandard tableau')


def descents(sx, shape, shifted, total):
    cs = cells(shape, shifted)
    sz = sx.choose('sizes', arrangements(len(cs), total))
    perm = []
    for a in range(total):
        x = sx.int('p%d' % a, 1, total)
        for y in perm:
            sx.assume(x != y)
        perm.append(x)
    sg = [sx.bool('s%d' % a) for a in range(total)] if shifted else [False] * total
    owner = [b for b, k in zip(cs, sz) for _ in range(k)]
    ent = {}
    for b, x, s in zip(owner, perm, sg):
        ent.setdefault(b, []).append(ite(s, -x, x))
    t = Tableau({b: tuple(v) for b, v in ent.items()})
    got = t.descent_set()
    for k in range(1, total):
        want = False
        for b, x, s in zip(owner, perm, sg):
            for c, y, u in zip(owner, perm, sg):
                here = (x == k) & (y == k + 1)
                pos = here & (not s)
                neg = here & (True if s is True else s) if s is not False else False
                want = want | (pos & (True if u is True else u) if u is not False else False)
                want = want | (pos & (not u) & (c[0] > b[0]))
                want = want | ((neg & u & (c[1] > b[1])) if s is not False else False)
        sx.check((k in got) == want, 'descents')


def strings(sx, n):
    """text with rows separated by ; or line breaks, '.' for no box, commas within a box, ' for primes"""
    shape = sx.choose('shape', [s for s in ([1], [2], [1, 1], [3], [2, 1]) if sum(s) == n])
    vals = []
    for k in range(n):
        a = sx.pick('a%d' % k, -2, 2) if n > 1 else sx.pick('a%d' % k, -12, 12)
        sx.assume(a != 0)
        vals.append(a)
    gap = sx.pick('gap', 0, 1)
    sep = sx.choose('sep', [';', '\n', ' ; '])
    two = sx.pick('two', 0, 1)

    def show(a):
        return str(a) if a > 0 else str(-a) + "'"
    mapping, rows, k = {}, [], 0
    for i in range(len(shape)):
        row = ['.'] * (gap * i)
        for j in range(shape[i]):
            v = (vals[k], 5) if two and k == 0 else (vals[k],)
            mapping[i + 1, j + 1 + gap * i] = v
            row.append(','.join(show(a) for a in v))
            k += 1
        rows.append('  '.join(row))
    sx.check(Tableau(sep.join(rows)) == Tableau(mapping), 'tableau from text')


def jobs(tier):
    out = []
    big = tier != 'quick'

    def add(f, *a, **kw):
        out.append(dict({'f': f, 'args': list(a)}, **kw))
    small = [[], [1], [2], [1, 1], [2, 1]] + ([[3], [2, 2], [1, 1, 1]] if big else [])
    for s in small:
        for op in ('add', 'set', 'replace', 'clear', 'remove'):
            add('edit', s, op)
        add('queries', s)
        add('maps', s)
        add('weights', s, 3)
    for s in [[1], [1, 1], [2, 1]] + ([[1, 1, 1]] if big else []):
        add('lines', s)
        if len(s) < 3 or big:
            add('slices', s, True)
            add('slices', s, False)
    for s, top in [([1], 3), ([2], 3), ([1, 1], 2), ([2, 1], 2)] + ([([1, 1, 1], 2), ([1, 1, 1], 3)] if big else []):
        add('rpp_weight', s, top)
    for a, b, c in [([1], [1], [1]), ([2], [1], [1]), ([1, 1], [2], [2])]:
        add('order', a, b, c)
    for s in [[1], [2], [1, 1], [2, 1], [1, 1, 1]] + ([[2, 2], [3, 1]] if big else []):
        add('last', s)
    for shape, sh, tot in [([1], 1, 3), ([2], 1, 3), ([2, 1], 0, 4), ([2, 1], 1, 4), ([2, 2], 0, 4), ([3, 1], 1, 4)] + \
            ([([2, 1], 1, 5), ([3, 1], 1, 5), ([3, 2], 1, 5), ([2, 2, 1], 0, 5)] if big else []):
        for n in range(sum(shape), tot + 1):
            add('semistandard', shape, bool(sh), n)
    for shape, sh, tot in [([1], 0, 3), ([2], 0, 3), ([2], 1, 3), ([1, 1], 0, 3), ([2, 1], 1, 4), ([2, 1], 0, 4), ([2, 2], 0, 4)] + ([([3, 1], 1, 4), ([2, 1], 1, 5)] if big else []):
        for n in range(sum(shape), tot + 1):
            add('standardize', shape, bool(sh), n, None if sh else 1)
    for shape, sh in [([1], 0), ([2], 0), ([1, 1], 0), ([2, 1], 0), ([2, 1], 1), ([3, 1], 1), ([2, 2], 0)] + ([([3, 2], 1), ([2, 2, 1], 0)] if big else []):
        add('readings', shape, bool(sh))
    for shape in [[1], [2], [1, 1], [2, 1], [2, 2], [3, 1], [2, 1, 1], [2, 2, 1], [3, 2]]:
        add('rebuild', shape)
    for shape, sh, n in [([1], 0, 2), ([2], 0, 2), ([1, 1], 0, 2), ([2, 1], 0, 3), ([2, 1], 1, 3), ([2, 1], 0, 4)] + ([([2, 1], 1, 4), ([3, 1], 1, 4)] if big else []):
        add('descents', shape, bool(sh), n)
    for n in (1, 2, 3):
        add('strings', n)
    back = [[1, 2, [1, 2]], [1, 3, [-3]], [1, 4, [3, 3]], [2, 2, [-4, 4]], [2, 3, [5]], [3, 3, [6, 7, 8]]]
    for s in (back, back[:4] + [1]) + (([2] + back[2:], back[::-1] + [1]) if big else ()):
        for op in ('add', 'set', 'replace', 'clear', 'remove'):
            add('edit', s, op)
        add('queries', s[:2] + s[-1:])
        add('maps', s)
        add('weights', s, 8)
        add('lines', s)
        add('slices', s, True)
        add('slices', s, False)
    tower = [[1, 1, [1]], [2, 1, [1]], [3, 1, [2]], [1, 2, [1]], [2, 2, [2]], [1, 3, [2]]]
    for s in (tower + [1], tower[:4] + [2]) + (([1] + tower[1:3] + [1],) if big else ()):
        add('rpp_weight', s, 3)
    add('rpp_weight', [[1, 1, [-1]], [1, 2, [-1]], [2, 1, [-2]], [2, 2, [1]], [2, 3, [2]], 1], 3)
    for s in ([[1, 1, [1]], [1, 2, [-3, 4]], [2, 2, [5, 6]], [2, 3, [-7]], 2], [[1, 1, [2]], [1, 2, [9]], 1, [2, 2, [-10, 11]]]):
        add('last', s)
    for shape, sh, extra, top in [([3, 2], 1, 0, 3), ([3, 2, 1], 1, 0, 2), ([4, 2], 1, 0, 2), ([3, 3], 0, 0, 3), ([3, 2, 1], 0, 0, 3)] + \
            ([([4, 3, 1], 1, 0, 2), ([3, 2], 1, 1, 2), ([3, 2, 1], 1, 0, 3), ([4, 2], 1, 0, 3), ([4, 3, 2], 1, 0, 3), ([3, 2, 1], 1, 1, 2), ([2, 2, 2], 0, 1, 3), ([4, 2], 1, 1, 3)] if big else []):
        add('standardize', shape, bool(sh), sum(shape) + extra, None if sh else 1, top)
    base = {True: [[1], [1], [1, 2], [-3], [-2], [-3], [-3, 3], [-4], [4, 5]], False: [[1], [1], [-2, 2], [2], [-3], [3], [3, 3], [4], [-5]]}
    for sh in (True, False):
        for k in range(9):
            for m in range(2):
                v = [list(x) for x in base[sh]]
                v[k][m % len(v[k])] = None
                if m:
                    v[(k + 4) % 9][0] = None
                add('semistandard', [4, 3, 2] if sh else [3, 3, 3], sh, 0, v)
    for shape in [[3, 3], [3, 2, 1], [4, 2, 1]] + ([[3, 3, 2]] if big else []):
        add('rebuild', shape)
    for shape, sh in [([4, 3, 2], 1), ([3, 3, 2], 0)]:
        add('readings', shape, bool(sh))
    return out
