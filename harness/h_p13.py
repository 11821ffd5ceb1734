"""Words: crystal operators by the signature rule, descents, ascents, peaks, zeta functions and quasisymmetrization."""
import itertools
from words import Word
from vectors import Vector
from ref import ite, ind

BOUNDS = ('words of up to 6 letters (thorough 7), letters and crystal index arbitrary integers, and four fixed words of 8 to 11 letters in which any values take the place of 2 letters (thorough 3); split into up to 3 factors; quasisymmetrization of '
          'words of up to 5 letters with an arbitrary integer valued function on factors')
OUTSIDE = 'longer words; the text of wiring diagrams'


def word(sx, n):
    """n arbitrary letters, or a given word with arbitrary letters in the places of None"""
    if not isinstance(n, int):
        return tuple(sx.int('w%d' % i) if a is None else a for i, a in enumerate(n))
    return tuple(sx.int('w%d' % i) for i in range(n))


def signature(w, i):
    """(f exists, position changed by f, e exists, position changed by e): extreme prefix and suffix sums"""
    n = len(w)
    best, fp, run = 0, 0, 0
    for k in range(n):
        run = run + ind(w[k] == i) - ind(w[k] == i + 1)
        fp = ite(run > best, k, fp)
        best = ite(run > best, run, best)
    fe = best > 0
    best, ep, run = 0, 0, 0
    for k in reversed(range(n)):
        run = run - ind(w[k] == i) + ind(w[k] == i + 1)
        ep = ite(run > best, k, ep)
        best = ite(run > best, run, best)
    return fe, fp, best > 0, ep


def operators(sx, n):
    w = word(sx, n)
    n = len(w)
    i = sx.int('i')
    fe, fp, ee, ep = signature(w, i)
    f, e = Word.f_crystal_operator(i, w), Word.e_crystal_operator(i, w)
    sx.check((f is not None) == fe, 'f is defined when a letter i is unmatched')
    sx.check((e is not None) == ee, 'e is defined when a letter i + 1 is unmatched')
    if f is not None:
        sx.check(len(f) == n and all(f[k] == ite(fp == k, i + 1, w[k]) for k in range(n)), 'f raises the last unmatched i')
        sx.check(Word.e_crystal_operator(i, f) == w, 'e undoes f')
        sx.check(Word.descent_set(f) == Word.descent_set(w), 'f keeps the descents')
    if e is not None:
        sx.check(len(e) == n and all(e[k] == ite(ep == k, i, w[k]) for k in range(n)), 'e lowers the first unmatched i + 1')
        sx.check(Word.f_crystal_operator(i, e) == w, 'f undoes e')
    sx.check(all(type(x) == tuple for x in (w,)), 'words are tuples')


def factors(sx, n, parts):
    w = word(sx, n)
    n = len(w)
    i = sx.int('i')
    cuts = sx.choose('cuts', [list(c) for c in itertools.combinations_with_replacement(range(n + 1), parts - 1)])
    cuts = [0] + cuts + [n]
    args = [w[a:b] for a, b in zip(cuts, cuts[1:])]
    for op in (Word.f_crystal_operator, Word.e_crystal_operator):
        x = op(i, w)
        y = op(i, *args, unpack=False)
        sx.check((x is None) == (y is None), 'defined on the factors when defined on the word')
        if x is not None:
            sx.check(y == tuple(x[a:b] for a, b in zip(cuts, cuts[1:])), 'acts on the factors as on the word')
            if parts > 1:
                sx.check(op(i, *args) == y, 'several factors are never joined')


def commute(sx, n):
    w = word(sx, n)
    i, j = sx.int('i'), sx.int('j')
    sx.assume(j > i + 1)
    for a in (Word.f_crystal_operator, Word.e_crystal_operator):
        x, y = a(i, w), a(j, w)
        if x is not None and y is not None:
            sx.check(a(j, x) == a(i, y), 'distant operators commute')


def statistics(sx, n):
    w = word(sx, n)
    n = len(w)
    d = Word.descent_set(w)
    for k in range(-1, n + 2):
        sx.check((k in d) == ((w[k - 1] > w[k]) if 1 <= k < n else False), 'descents')
    sx.check(Word.ascents(w) == sum([ind(w[k] <= w[k + 1]) for k in range(n - 1)]), 'weak ascents')


def peakless(v):
    return all((v[k - 1] > v[k]) or (v[k] < v[k + 1]) for k in range(1, len(v) - 1))


def peaks(sx, n):
    """the least number of factors without an interior peak"""
    w = word(sx, n)
    n = len(w)
    if n == 0:
        sx.check(Word.peaks(w) == 0, 'no peak in the empty word')
        return
    best = n
    for cuts in itertools.product((0, 1), repeat=n - 1):
        ends = [0] + [k + 1 for k in range(n - 1) if cuts[k]] + [n]
        ok = all(peakless(w[a:b]) for a, b in zip(ends, ends[1:]))
        best = ite(ok & (len(ends) - 1 < best), len(ends) - 1, best)
    sx.check(Word.peaks(w) == best, 'peaks')


def chain(v, rel):
    return all(rel(a, b) for a, b in zip(v, v[1:]))


LT, GT, LE, GE = (lambda a, b: a < b), (lambda a, b: a > b), (lambda a, b: a <= b), (lambda a, b: a >= b)


def zetas(sx, n):
    w = word(sx, n)
    n = len(w)
    for f, rel in ((Word.increasing_zeta, LT), (Word.decreasing_zeta, GT), (Word.weakly_increasing_zeta, LE), (Word.weakly_decreasing_zeta, GE)):
        sx.check(f(w) == ind(chain(w, rel)), 'monotone words')
    for f, down, up in ((Word.unimodal_zeta, GT, LT), (Word.right_weakly_unimodal_zeta, GT, LE),
                        (Word.left_weakly_unimodal_zeta, GE, LT), (Word.weakly_unimodal_zeta, GE, LE)):
        sx.check(f(w) == sum([ind(chain(w[:k], down) & chain(w[k:], up)) for k in range(n + 1)]), 'down-up factorizations')


def symzeta(sx, n, low, high):
    """quasisymmetrization with an arbitrary function of the factors"""
    w = tuple(range(10, 10 + n))
    z = {(a, b): sx.int('z%d%d' % (a, b), low, high) for a in range(n) for b in range(a + 1, n + 1)}
    got = Word.quasisymmetrize(w, lambda v: z[v[0] - 10, v[-1] - 9])
    count = 0
    for cuts in itertools.product((0, 1), repeat=max(n - 1, 0)):
        ends = [0] + [k + 1 for k in range(n - 1) if cuts[k]] + [n] if n else [0]
        want = 1
        for a, b in zip(ends, ends[1:]):
            want = want * z[a, b]
        alpha = tuple(b - a for a, b in zip(ends, ends[1:]))
        sx.check(got[alpha] == want, 'coefficient of a composition')
        sx.check((alpha in got.dictionary) == (want != 0), 'no zero coefficients')
        count = count + ind(want != 0)
    sx.check(len(got.dictionary) == count, 'only compositions of the length')


def quasi(sx, n, name):
    w = word(sx, n)
    n = len(w)
    zeta = getattr(Word, name)
    got = Word.quasisymmetrize(w, zeta)
    for cuts in itertools.product((0, 1), repeat=n - 1):
        ends = [0] + [k + 1 for k in range(n - 1) if cuts[k]] + [n]
        want = 1
        for a, b in zip(ends, ends[1:]):
            want = want * zeta(w[a:b])
        sx.check(got[tuple(b - a for a, b in zip(ends, ends[1:]))] == want, 'coefficient of a composition')


def pattern(base, *free):
    return [None if k in free else a for k, a in enumerate(base)]


LONG = [1, 2, 1, 3, 2, 2, 1, 1, 2, 3]
MORE = [3, 1, 2, 2, 1, 4, 3, 1, 2, 2, 1]
UPDOWN = [5, 3, 2, 2, 1, 4, 6, 6, 8, 9]
ZIGZAG = [2, 4, 1, 5, 3, 6, 2, 7]


def jobs(tier):
    out = []
    big = tier != 'quick'
    for n in range(0, 7 + big):
        out.append({'f': 'operators', 'args': [n]})
    for n in range(0, 5 + big):
        for p in (1, 2, 3):
            out.append({'f': 'factors', 'args': [n, p]})
    for n in range(0, 6 + big):
        out.append({'f': 'statistics', 'args': [n]})
        out.append({'f': 'peaks', 'args': [n]})
        out.append({'f': 'zetas', 'args': [n]})
    for n in range(2, 5 + big):
        out.append({'f': 'commute', 'args': [n]})
    for n in range(0, 4):
        out.append({'f': 'symzeta', 'args': [n, None, None]})
    for n in range(4, 5 + big):
        out.append({'f': 'symzeta', 'args': [n, 1, None]})
    for n in range(1, 5 + big):
        for name in ('increasing_zeta', 'weakly_decreasing_zeta', 'unimodal_zeta', 'weakly_unimodal_zeta'):
            out.append({'f': 'quasi', 'args': [n, name]})
    for base in (LONG, MORE, UPDOWN, ZIGZAG):
        for free in [(1, 6), (0, 3), (4, 7), (2, 5)] + ([(0, 4, 7), (2, 3, 6), (1, 5, 6)] if big else []):
            x = pattern(base, *free)
            out.append({'f': 'operators', 'args': [x]})
            out.append({'f': 'statistics', 'args': [x]})
            out.append({'f': 'zetas', 'args': [x]})
            out.append({'f': 'peaks', 'args': [x[:8]]})
            out.append({'f': 'quasi', 'args': [x[:5 + big], 'unimodal_zeta']})
        out.append({'f': 'factors', 'args': [pattern(base, 2, 5)[:6 + big], 2]})
        out.append({'f': 'factors', 'args': [pattern(base, 2, 5)[:6] if big else pattern(base, 2)[:5], 4]})
    return out
