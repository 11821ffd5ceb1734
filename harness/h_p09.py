"""Little bumps on reduced, involution and fixed-point-free involution words."""
from permutations import Permutation
from insertion import InsertionAlgorithm
from words import Word

BOUNDS = ('reduced words of up to 4 letters in 1..4 (thorough: 5 letters), involution words of up to 4 letters in 1..4 (thorough 5), fixed-point-free involution '
          'words of up to 3 letters in 1..5 (thorough 4 letters); chosen words of up to 7 letters (9) in 1..6 of which one or two (three) are arbitrary; all j < k <= top + 2')
OUTSIDE = 'longer words'


def candidate(sx, length, top):
    """an arbitrary word, or a given word whose letters None are arbitrary"""
    letters = [None] * length if type(length) is int else length
    return tuple(sx.int('w%d' % i, 1, top) if a is None else a for i, a in enumerate(letters))


def common(sx, w, v, tab, dele, y, n):
    """w: the word before, v: after; dele(word): value of the word with a letter deleted, or None"""
    sx.check(len(v) == len(w), 'the length is kept')
    sx.check(Word.descent_set(v) == Word.descent_set(w), 'the descents are kept')
    sx.check(tab(v)[1] == tab(w)[1], 'the recording tableau is kept')
    if y is None:
        sx.check(v == w, 'nothing to bump')
    else:
        sx.check(sum(v) > sum(w) and all(b >= a for a, b in zip(w, v)), 'letters only go up')
        sx.check(any(dele(v[:i] + v[i + 1:]) == y for i in range(len(v))), 'still a cover of the same element')


def reduced(sx, length, top):
    w = candidate(sx, length, top)
    length = len(w)
    p = Permutation.from_word(w)
    sx.assume(p.length == length)
    j, k = sx.pick('j', 1, top + 1), sx.pick('k', 2, top + 2)
    sx.assume(j < k)
    t = Permutation.transposition(j, k)
    v = Permutation.little_bump(w, j, k)
    y = p * t if (p * t).length == length - 1 else None
    sx.check(Permutation.from_word(v).length == length, 'the result is reduced')
    common(sx, w, v, InsertionAlgorithm.hecke, Permutation.from_word, y, top)
    if y is not None:
        sx.check(Permutation.little_bump(w, y) == v, 'bumping by the element')


def involution(sx, length, top):
    w = candidate(sx, length, top)
    length = len(w)
    p = Permutation.from_involution_word(w, strict=False)
    sx.assume(p.involution_length == length)
    i = sx.pick('i', 0, length - 1)
    y = Permutation.from_involution_word(w[:i] + w[i + 1:], strict=False)
    if y.involution_length != length - 1:
        return
    v = Permutation.involution_little_bump(w, y)
    sx.check(Permutation.from_involution_word(v, strict=False).involution_length == length, 'the result is an involution word')
    common(sx, w, v, InsertionAlgorithm.orthogonal_hecke, lambda u: Permutation.from_involution_word(u, strict=False), y, top)


def fpf(sx, length, top):
    w = candidate(sx, length, top)
    length = len(w)
    p = Permutation.from_fpf_involution_word(w, strict=False)
    sx.assume(p.fpf_involution_length == length)
    i = sx.pick('i', 0, length - 1)
    y = std(Permutation.from_fpf_involution_word(w[:i] + w[i + 1:], strict=False), top + 3)
    if y.fpf_involution_length != length - 1:
        return
    v = Permutation.fpf_involution_little_bump(w, y)
    sx.check(Permutation.from_fpf_involution_word(v, strict=False).fpf_involution_length == length, 'the result is an fpf involution word')
    m = top + 9
    common(sx, w, v, InsertionAlgorithm.symplectic_hecke, lambda u: std(Permutation.from_fpf_involution_word(u, strict=False), m), std(y, m), top)


def std(y, n):
    n = n + n % 2
    for r in range(y.rank + y.rank % 2, n, 2):
        y = y * Permutation.s_i(r + 1)
    return y


def by_pair(sx, length, top, kind):
    """bumping by (j, k) is bumping by a cover, or nothing"""
    w = candidate(sx, length, top)
    length = len(w)
    j, k = sx.pick('j', 1, top + 1), sx.pick('k', 2, top + 2)
    sx.assume(j < k)
    if kind == 'inv':
        val = lambda u: Permutation.from_involution_word(u, strict=False)
        sx.assume(val(w).involution_length == length)
        ln = lambda z: z.involution_length
        v = Permutation.involution_little_bump(w, j, k)
        tab = InsertionAlgorithm.orthogonal_hecke
    else:
        m = top + 9
        val = lambda u: std(Permutation.from_fpf_involution_word(u, strict=False), m)
        sx.assume(val(w).fpf_involution_length == length)
        ln = lambda z: z.fpf_involution_length
        v = Permutation.fpf_involution_little_bump(w, j, k)
        tab = InsertionAlgorithm.symplectic_hecke
    sx.check(ln(val(v)) == length and len(v) == length, 'the result is a word of the same length')
    sx.check(tab(v)[1] == tab(w)[1], 'the recording tableau is kept')
    moved = v != w
    ys = [val(w[:i] + w[i + 1:]) for i in range(length)]
    zs = [val(v[:i] + v[i + 1:]) for i in range(length)]
    # the covers of the involution described by (j, k): an atom times the transposition
    t = Permutation.transposition(j, k)
    ats = val(w).get_atoms() if kind == 'inv' else val(w).get_fpf_atoms()
    down = [x * t for x in ats if (x * t).length == x.length - 1]
    if kind == 'inv':
        covers = [x.inverse() % x for x in down]
    else:
        covers = [std(Permutation.from_fpf_involution_word(x.get_reduced_word(), strict=False), m) for x in down]
    covers = [y for y in covers if ln(y) == length - 1]
    if covers:
        bump = Permutation.involution_little_bump if kind == 'inv' else Permutation.fpf_involution_little_bump
        sx.check(any(v == bump(w, y) for y in covers), 'bumping by the pair is bumping by a cover it describes')
        sx.check(moved, 'a cover moves the word')
    else:
        sx.check(not moved, 'no cover, no bump')
    if moved:
        sx.check(any((ln(y) == length - 1) and any(y == z for z in zs) for y in ys), 'both words cover a common element')


N = None
DEEP = {'reduced': [[1, 2, 1, N, 3, 2], [3, 1, 2, N, 1, 3], [N, 4, 3, 2, 1, N], [2, 1, 3, 2, N, 4, 3], [1, 3, 5, 2, 4, N], [5, 4, 5, N, 2, 1, 2], [1, 2, 3, 4, 5, 6, N]],
        'involution': [[1, 2, 1, N, 3], [2, 1, 3, N, 4], [N, 4, 3, 2, 1, N], [4, 2, 3, N, 1], [1, 3, 5, 2, 4, N], [1, 3, 5, N], [3, 2, 4, 3, N]],
        'fpf': [[2, 1, 3, N], [4, 2, 3, N], [N, 2, 4, 6], [4, 3, 5, N], [2, 4, 1, N], [2, 1, 4, N, 3]]}
DEEPER = {'reduced': [[N, 4, 3, N, 2, 1, N], [2, 1, 3, 2, 4, 3, N, N], [3, 2, 1, 4, N, 5, 4, 3, N]],
          'involution': [[N, 4, 3, N, 2, N], [1, 2, 3, 4, N, N], [2, 1, 3, 2, N, N]],
          'fpf': [[2, 1, N, N], [4, 2, N, 3, N], [2, 4, 6, N, 3, N]]}
PAIRS = {'inv': [[2, 1, 3, N], [1, 3, 2, N], [3, 2, 1, N]], 'fpf': [[2, 1, N], [4, 3, N], [2, 4, 3, N]]}
MOREPAIRS = {'inv': [[2, 1, N, 3, N], [N, 4, 3, 2, N]], 'fpf': [[2, N, 3, N], [4, 2, 3, N]]}


def jobs(tier):
    out = []
    big = tier != 'quick'

    def add(f, *a, **kw):
        out.append(dict({'f': f, 'args': list(a)}, **kw))
    for length, top in [(0, 2), (1, 3), (2, 3), (3, 3), (4, 3), (4, 4)] + ([(5, 4)] if big else []):
        add('reduced', length, top)
    for length, top in [(1, 3), (2, 3), (3, 3), (4, 3), (4, 4)] + ([(5, 4)] if big else []):
        add('involution', length, top)
    for length, top in [(2, 3), (3, 3), (4, 3)] + ([(4, 4)] if big else []):
        add('by_pair', length, top, 'inv')
    for length, top in [(1, 3), (2, 4), (3, 4), (3, 5)] + ([(4, 5)] if big else []):
        add('fpf', length, top)
    for length, top in [(1, 3), (2, 3), (3, 4)] + ([(3, 5)] if big else []):
        add('by_pair', length, top, 'fpf')
    for f, pats in DEEP.items():
        for pat in pats + (DEEPER[f] if big else []):
            add(f, pat, 6)
    for kind, pats in PAIRS.items():
        for pat in pats + (MOREPAIRS[kind] if big else []):
            add('by_pair', pat, 6, kind)
    return out
