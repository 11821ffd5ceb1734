"""Hecke insertion: a bijection with the right statistics, for words of arbitrary positive letters."""
import itertools
from insertion import InsertionAlgorithm, HState
from permutations import Permutation
from tableaux import Tableau
from ref import ite, ind
import insertion

BOUNDS = ('words of up to 5 letters (thorough 6), letters and records all positive integers (records up to 4 letters); the permutation statement: 4 letters '
          '(thorough 5) up to 5; inverse insertion: shapes of up to 4 boxes with one extra label, of 5 boxes with none (thorough 5 boxes with one, 6 with none); '
          'words of up to 11 letters of which one or two (thorough three) are arbitrary')
OUTSIDE = 'longer words and larger shapes'


def word(sx, length, tag='w', top=None):
    return tuple(sx.int('%s%d' % (tag, i), 1, top) for i in range(length))


def longest(w, better):
    """length of the longest subsequence in which every step satisfies better"""
    n = len(w)
    best = [1] * n
    for i in range(n):
        for j in range(i):
            best[i] = ite(better(w[j], w[i]) & (best[j] + 1 > best[i]), best[j] + 1, best[i])
    ans = 0
    for x in best:
        ans = ite(x > ans, x, ans)
    return ans


def increasing(t):
    """rows and columns strictly increase"""
    ok = True
    for i, j, v in t:
        if (i, j + 1) in t.boxes:
            ok = ok & (v[-1] < t.boxes[i, j + 1][0])
        if (i + 1, j) in t.boxes:
            ok = ok & (v[-1] < t.boxes[i + 1, j][0])
    return ok


def shape_ok(t):
    s = t.shape()
    return all(s[i] >= s[i + 1] for i in range(len(s) - 1)) and set(t.boxes) == {(i + 1, j + 1) for i in range(len(s)) for j in range(s[i])}


def roundtrip(sx, length, prefix=(), suffix=()):
    w = tuple(prefix) + word(sx, length) + tuple(suffix)
    length = len(w)
    ident = tuple(range(1, length + 1))
    p, q = InsertionAlgorithm.hecke(w)
    sx.check(all(len(v) == 1 for _, _, v in p) and increasing(p), 'the insertion tableau increases')
    sx.check(shape_ok(p) and set(p.boxes) == set(q.boxes), 'same partition shape')
    sx.check(sorted(x for _, _, v in q for x in v) == list(ident) and q.is_semistandard() and q.is_standard(), 'the recording tableau is standard set-valued')
    sx.check(InsertionAlgorithm.inverse_hecke(p, q) == (w, ident), 'inverse insertion recovers the word')
    sx.check(p.max_column() == longest(w, lambda a, b: a < b), 'first row = longest increasing subsequence')
    sx.check(p.max_row() == longest(w, lambda a, b: a > b), 'first column = longest decreasing subsequence')
    sx.check(all((i in q.descent_set()) == (w[i - 1] > w[i]) for i in range(1, length)), 'descents')
    p2, q2 = InsertionAlgorithm.hecke(w, multisetvalued=False)
    sx.check(p2 == p.transpose() and q2 == q.transpose(), 'the other convention transposes')
    sx.check(InsertionAlgorithm.inverse_hecke(p2, q2, multisetvalued=False) == (w, ident), 'inverse insertion in the other convention')
    if length:
        sx.check(InsertionAlgorithm.hecke(w[:-1])[1] == q.remove(*(q.find(length)[0] + (length,))), 'recording tableaux extend step by step')


def records(sx, length, multi):
    w = word(sx, length)
    r = word(sx, length, 'r')
    for i in range(length - 1):
        sx.assume(r[i] <= r[i + 1])
        if multi:
            sx.assume((w[i] <= w[i + 1]) | (r[i] < r[i + 1]))
        else:
            sx.assume((w[i] > w[i + 1]) | (r[i] < r[i + 1]))
    p, q = InsertionAlgorithm.hecke(w, r, multisetvalued=multi)
    p0, q0 = InsertionAlgorithm.hecke(w, multisetvalued=multi)
    sx.check(p == p0 and q == q0.apply(lambda x: r[x - 1]), 'the record relabels the standard tableau')
    got = InsertionAlgorithm.inverse_hecke(p, q, multisetvalued=multi)
    sx.check(got[0] == w and got[1] == r, 'inverse insertion recovers word and record')
    ok = True
    for i, j, v in q:
        if (i, j + 1) in q.boxes:
            ok = ok & (v[-1] <= q.boxes[i, j + 1][0])
        if (i + 1, j) in q.boxes:
            ok = ok & (v[-1] < q.boxes[i + 1, j][0])
        for a, b in zip(v, v[1:]):
            ok = ok & (multi | (a < b))
    sx.check(ok, 'the recording tableau is semistandard')


def bad_records(sx, length, multi):
    """records that do not fit are refused"""
    w = word(sx, length)
    r = word(sx, length, 'r')
    fits = all((r[i] <= r[i + 1]) & (((w[i] <= w[i + 1]) if multi else (w[i] > w[i + 1])) | (r[i] < r[i + 1])) for i in range(length - 1))
    refused = sx.raises(AssertionError, lambda: InsertionAlgorithm.hecke(w, r, multisetvalued=multi))
    sx.check(refused == (not fits), 'a record is refused exactly when it does not fit')


def demazure_line(w, n):
    xs = list(range(1, n + 1))
    for a in w:
        up = False
        for k in range(1, n):
            up = up | ((a == k) & (xs[k - 1] < xs[k]))
        ys = []
        for k in range(1, n + 1):
            y = xs[k - 1]
            if k < n:
                y = ite((a == k) & up, xs[k], y)
            if k > 1:
                y = ite((a == k - 1) & up, xs[k - 2], y)
            ys.append(y)
        xs = ys
    return xs


def permutation(sx, length, top):
    """the reading words of the insertion tableau have the permutation (Demazure product) of the word"""
    w = word(sx, length, top=top)
    p, q = InsertionAlgorithm.hecke(w)
    want = demazure_line(w, top + 1)
    for u in (p.row_reading_word(), p.column_reading_word()):
        sx.check(all(a == b for a, b in zip(demazure_line(u, top + 1), want)), 'Demazure product of the insertion tableau')


def fillings(shape, extra):
    """standard set-valued tableaux of a shape with the given number of extra labels"""
    boxes = [(i + 1, j + 1) for i in range(len(shape)) for j in range(shape[i])]
    n = len(boxes) + extra
    for f in itertools.product(range(len(boxes)), repeat=n):
        cells = {}
        for k, b in enumerate(f):
            cells.setdefault(boxes[b], []).append(k + 1)
        if len(cells) < len(boxes):
            continue
        if all((b not in cells) or (max(cells[i, j]) < min(cells[b])) for i, j in cells for b in ((i + 1, j), (i, j + 1))):
            yield [[i, j, v] for (i, j), v in sorted(cells.items())]


def inverse(sx, shape, extra):
    """every pair of an increasing tableau and a standard set-valued tableau of its shape comes from a word"""
    cells = sx.choose('q', list(fillings(shape, extra)))
    q = Tableau({(i, j): tuple(v) for i, j, v in cells})
    boxes = {}
    for i in range(len(shape)):
        for j in range(shape[i]):
            x = sx.int('p%d%d' % (i, j), 1)
            if i:
                sx.assume(x > boxes[i, j + 1])
            if j:
                sx.assume(x > boxes[i + 1, j])
            boxes[i + 1, j + 1] = x
    p = Tableau(boxes)
    w, r = InsertionAlgorithm.inverse_hecke(p, q)
    sx.check(len(w) == len(q) and r == tuple(range(1, len(q) + 1)), 'length and record')
    got = InsertionAlgorithm.hecke(w)
    sx.check(got[0] == p, 'inserting the word gives back the insertion tableau')
    sx.check(got[1] == q, 'inserting the word gives back the recording tableau')


def history(sx, first, second):
    """earlier insertions do not change later ones"""
    u, w = word(sx, first, 'u'), word(sx, second, 'w')
    InsertionAlgorithm.hecke(u)
    p, q = InsertionAlgorithm.hecke(w)
    sx.check(InsertionAlgorithm.inverse_hecke(p, q) == (w, tuple(range(1, second + 1))), 'inverse insertion recovers the second word')
    getattr(insertion, 'HSTATE_CACHE', {}).clear()
    sx.check(InsertionAlgorithm.hecke(w) == (p, q), 'same result without the cache')


def steps(sx, state, cls, p, q, a):
    """insert a one step at a time and go back the same way"""
    states = [state.add(a)]
    sx.check(states[0].is_initial() and not states[0].is_terminal() and states[0].pop() == (p, a), 'the new letter stands outside')
    sx.check(states[0] != cls(states[0].tableau) and cls(states[0].tableau, states[0].outer) == states[0], 'a state is its tableau and the place outside')
    while True:
        nxt, box = states[-1].next()
        if box is None:
            break
        states.append(nxt)
    sx.check(states[-1].is_terminal() and states[-1] == state.insert(a)[0], 'the steps end where insertion ends')
    p2, q2 = cls.insertion_tableaux((a,), p=p, q=q)
    sx.check(p2 == states[-1].tableau, 'insertion into the given tableaux')
    q3, record = q2.pop()
    sx.check(q3 == q, 'the last entry of the recording tableau is the new one')
    for k in range(len(states) - 1, 0, -1):
        prev, _ = states[k].previous(record) if k == len(states) - 1 else states[k].previous()
        sx.check(prev == states[k - 1], 'previous state')
        sx.check(states[k].tableau != prev.tableau or states[k].outer != prev.outer, 'every step changes the state')
        sx.check((states[k] == prev) == (states[k].tableau == prev.tableau and states[k].outer == prev.outer), 'equality of states')


def states(sx, length):
    w = word(sx, length)
    p, q = HState.insertion_tableaux(w[:-1])
    steps(sx, HState(p), HState, p, q, w[-1])


DEEP = [([8, 6, 4, 2], 2, [3]), ([2, 4, 6, 8], 2, [5]), ([4, 8, 2, 6], 2, [4]), ([6, 8, 2, 4, 6], 1, [2, 5]), ([8, 4, 6, 2, 4, 8], 1, [6]), ([6, 2, 2, 8, 4, 4], 1, [2]),
        ([10, 6, 8, 4, 6, 8, 2, 4, 6], 1, []), ([6, 8, 4, 6, 10, 2, 4, 8], 1, []), ([8, 10, 4, 6, 8, 2, 4, 6, 8], 1, [3]), ([2, 4], 1, [8, 2, 6, 4]), ([], 1, [4, 8, 2, 6, 2, 8, 4]),
        ([6, 4, 8, 2], 2, []), ([4, 6, 8, 2, 4, 6], 2, []),
        ([6, 8, 2, 4, 6], 2, []), ([8, 4, 6, 2, 4, 8], 2, []), ([10, 6, 8, 4, 6, 8, 2, 4, 6], 2, []), ([6, 8, 4, 6, 10, 2, 4, 8], 2, []), ([2, 6, 4], 2, [4, 2])]
DEEPER = [([8, 6, 4, 2], 3, []), ([4, 8, 2, 6], 3, []), ([4, 6, 8, 2, 4, 6], 3, []), ([6, 8, 4, 6, 2, 4], 2, [4, 2, 8]), ([10, 6, 8, 4, 6, 8, 2, 4, 6], 2, []),
          ([8, 10, 4, 6, 8, 2, 4, 6, 8], 2, []), ([2, 6], 3, [4, 8, 2])]


def jobs(tier):
    out = []
    big = tier != 'quick'

    def add(f, *a, **kw):
        out.append(dict({'f': f, 'args': list(a)}, **kw))
    for n in range(0, 6 + big):
        add('roundtrip', n)
    # long words: fixed letters (with room between them) around arbitrary ones
    for prefix, n, suffix in DEEP + (DEEPER if big else []):
        add('roundtrip', n, prefix, suffix)
    for n in range(0, 4 + big):
        for m in (True, False):
            add('records', n, m)
            if n < 4:
                add('bad_records', n, m)
    for n in range(1, 5 + big):
        add('permutation', n, 5 if n > 2 else 6)
    for shape, extra in [([1], 0), ([1], 1), ([2], 1), ([1, 1], 1), ([2, 1], 0), ([2, 1], 1), ([3], 1), ([2, 2], 0), ([2, 2], 1), ([1, 1, 1], 1), ([3, 1], 0),
                         ([2, 1, 1], 0), ([3, 1], 1), ([2, 1], 2), ([2, 1, 1], 1), ([3, 2], 0), ([2, 2, 1], 0), ([3, 1, 1], 0)] + (
                             [([3, 2], 1), ([2, 2, 1], 1), ([3, 3], 0), ([2, 2, 2], 0), ([4, 1], 0), ([3, 1], 2), ([2, 2], 2)] if big else []):
        add('inverse', shape, extra)
    for n in range(1, 5 + big):
        add('states', n)
    for a, b in [(1, 2), (2, 2), (3, 2), (2, 3)]:
        add('history', a, b)
    return out
