"""Orthogonal and symplectic Hecke insertion (shifted tableaux): bijections with the right statistics."""
import itertools
from insertion import InsertionAlgorithm, FState
from tableaux import Tableau
from ref import ite
import h_p10 as H
from h_p08 import run_inv

BOUNDS = ('orthogonal: words of up to 5 letters (thorough 6), letters all positive integers, records up to 4 letters; symplectic: all symplectic Hecke words of up to '
          '4 letters in 1..5 (thorough 5; records 3); both: words of up to 11 letters of which one or two (thorough three) are arbitrary; involution statement: letters up to 4; inverse orthogonal insertion: shifted shapes of up to 4 boxes and (3,2) '
          'with one extra label, (4,1) and (3,2,1) with none (thorough: one, or two for up to 4 boxes)')
OUTSIDE = 'longer words and larger shapes; words that are not symplectic Hecke words for the symplectic insertion'


def shifted_shape_ok(t):
    s = t.shape()
    return all(s[i] > s[i + 1] for i in range(len(s) - 1)) and set(t.boxes) == {(i + 1, i + j + 1) for i in range(len(s)) for j in range(s[i])}


def common(sx, w, insert, inverse):
    n = len(w)
    ident = tuple(range(1, n + 1))
    p, q = insert(w)
    sx.check(all(len(v) == 1 for _, _, v in p) and H.increasing(p), 'the insertion tableau increases')
    sx.check(shifted_shape_ok(p) and set(p.boxes) == set(q.boxes), 'same shifted shape')
    vals = [x for _, _, v in q for x in v]
    sx.check(sorted(abs(x) for x in vals) == list(ident) and q.is_semistandard(), 'the recording tableau is a standard shifted marked set-valued tableau without diagonal primes')
    sx.check(inverse(p, q) == (w, ident), 'inverse insertion recovers the word')
    sx.check(all((i in q.descent_set()) == (w[i - 1] > w[i]) for i in range(1, n)), 'descents')
    p2, q2 = insert(w, multisetvalued=False)
    sx.check(p2 == p and q2 == q.negate(), 'the other convention switches off-diagonal primes')
    sx.check(inverse(p2, q2, multisetvalued=False) == (w, ident), 'inverse insertion in the other convention')
    if n:
        q1 = insert(w[:-1])[1]
        v = n if n in vals else -n
        sx.check(q1 == q.remove(*(q.find(v)[0] + (v,))), 'recording tableaux extend step by step')
    return p, q


def orthogonal(sx, length, prefix=(), suffix=()):
    common(sx, tuple(prefix) + H.word(sx, length) + tuple(suffix), InsertionAlgorithm.orthogonal_hecke, InsertionAlgorithm.inverse_orthogonal_hecke)


def involution(sx, length, top):
    w = H.word(sx, length, top=top)
    p, q = InsertionAlgorithm.orthogonal_hecke(w)
    start = list(range(1, top + 2))
    want = run_inv(start, w, 1, False)[1]
    got = run_inv(start, p.row_reading_word(), 1, False)[1]
    sx.check(all(a == b for a, b in zip(got, want)), 'the insertion tableau has the involution of the word')


def minfpf(n):
    return [k + 1 if k % 2 else k - 1 for k in range(1, n + 1)]


def symplectic_word(sx, length, top, prefix=(), suffix=()):
    w = tuple(prefix) + H.word(sx, length, top=top) + tuple(suffix)
    n = top + 1 + (top + 1) % 2
    ok, z = run_inv(minfpf(n), w, 1, False, True)
    sx.assume(ok)
    return w, z, n


def symplectic(sx, length, top, prefix=(), suffix=()):
    w, z, n = symplectic_word(sx, length, top, prefix, suffix)
    p, q = common(sx, w, InsertionAlgorithm.symplectic_hecke, InsertionAlgorithm.inverse_symplectic_hecke)
    ok, got = run_inv(minfpf(n), p.row_reading_word(), 1, False, True)
    sx.check(ok & all(a == b for a, b in zip(got, z)), 'the insertion tableau has the involution of the word')
    sx.check(all(p.get(i, i) % 2 == 0 for i in range(1, p.max_row() + 1)), 'even diagonal')


def states(sx, length, top, kind):
    if kind == 'orthogonal':
        w = tuple(2 * a for a in H.word(sx, length))
    else:
        w = symplectic_word(sx, length, top)[0]
    p, q = FState.insertion_tableaux(*w[:-1])
    H.steps(sx, FState(p), FState, p, q, w[-1])


def dbl(v):
    return ite(v > 0, 2 * v, -2 * v - 1)


def semistandard(q, multi):
    """in 1' < 1 < 2' < 2 < ...: boxes, rows (no repeated prime), columns (no repeated unprimed)"""
    ok = True
    for i, j, v in q:
        enc = [dbl(x) for x in v]
        hi = enc[0]
        for e in enc:
            hi = ite(e > hi, e, hi)
        if not multi:
            for a in range(len(enc)):
                for b in range(a):
                    ok = ok & (enc[a] != enc[b])
        else:
            pass
        for b, row in (((i, j + 1), True), ((i + 1, j), False)):
            if b in q.boxes:
                oth = [dbl(x) for x in q.boxes[b]]
                lo = oth[0]
                for e in oth:
                    lo = ite(e < lo, e, lo)
                ok = ok & ((hi < lo) | ((hi == lo) & ((lo % 2 == 0) if row else (lo % 2 == 1))))
    return ok


def records(sx, length, multi, kind, top):
    if kind == 'o':
        w = H.word(sx, length)
        ins, inv = InsertionAlgorithm.orthogonal_hecke, InsertionAlgorithm.inverse_orthogonal_hecke
    else:
        w = symplectic_word(sx, length, top)[0]
        ins, inv = InsertionAlgorithm.symplectic_hecke, InsertionAlgorithm.inverse_symplectic_hecke
    r = H.word(sx, length, 'r')
    for i in range(length - 1):
        sx.assume(r[i] <= r[i + 1])
        if multi:
            sx.assume((w[i] <= w[i + 1]) | (r[i] < r[i + 1]))
        else:
            sx.assume((w[i] > w[i + 1]) | (r[i] < r[i + 1]))
    p, q = ins(w, r, multisetvalued=multi)
    p0, q0 = ins(w, multisetvalued=multi)
    sx.check(p == p0 and q == q0.apply(lambda x: r[x - 1] if x > 0 else -r[-x - 1]), 'the record relabels the standard tableau')
    got = inv(p, q, multisetvalued=multi)
    sx.check(got[0] == w and got[1] == r, 'inverse insertion recovers word and record')
    sx.check(semistandard(q, multi), 'the recording tableau is semistandard')


def shifted_fillings(shape, extra):
    boxes = [(i + 1, i + j + 1) for i in range(len(shape)) for j in range(shape[i])]
    n = len(boxes) + extra
    for f in itertools.product(range(len(boxes)), repeat=n):
        cells = {}
        for k, b in enumerate(f):
            cells.setdefault(boxes[b], []).append(k + 1)
        if len(cells) < len(boxes):
            continue
        if all((b not in cells) or (max(cells[i, j]) < min(cells[b])) for i, j in cells for b in ((i + 1, j), (i, j + 1))):
            free = [(b, k) for b in sorted(cells) for k in range(len(cells[b])) if b[0] != b[1]]
            for m in range(1 << len(free)):
                t = {b: list(v) for b, v in cells.items()}
                for s, (b, k) in enumerate(free):
                    if m >> s & 1:
                        t[b][k] *= -1
                yield [[i, j, v] for (i, j), v in sorted(t.items())]


def inverse(sx, shape, extra):
    """every pair of an increasing shifted tableau and a standard marked set-valued tableau of its shape comes from a word"""
    cells = sx.choose('q', list(shifted_fillings(shape, extra)))
    q = Tableau({(i, j): tuple(v) for i, j, v in cells})
    boxes = {}
    for i in range(len(shape)):
        for j in range(shape[i]):
            x = sx.int('p%d%d' % (i, j), 1)
            if (i, i + j + 1) in boxes:
                sx.assume(x > boxes[i, i + j + 1])
            if j:
                sx.assume(x > boxes[i + 1, i + j])
            boxes[i + 1, i + j + 1] = x
    p = Tableau(boxes)
    w, r = InsertionAlgorithm.inverse_orthogonal_hecke(p, q)
    sx.check(len(w) == len(q) and r == tuple(range(1, len(q) + 1)), 'length and record')
    got = InsertionAlgorithm.orthogonal_hecke(w)
    sx.check(got[0] == p, 'inserting the word gives back the insertion tableau')
    sx.check(got[1] == q, 'inserting the word gives back the recording tableau')


DEEP = [([2, 4, 3, 6, 5], 2, []), ([4, 2, 6, 3, 1], 2, []), ([2, 2, 6, 1, 4, 1], 2, []), ([6, 2, 5, 1, 5, 4, 3], 2, []), ([2, 1, 4, 3, 6, 5, 2], 1, []), ([2, 1, 3, 6, 3, 4], 2, []), ([6, 4, 5, 2], 1, [3]),
        ([2, 4], 1, [3, 5, 4]), ([4, 2], 2, [3, 1])]
DEEPER = [([2, 4, 3], 3, []), ([4, 2, 6, 3], 3, []), ([2, 2, 6, 1, 4, 1], 3, []), ([2, 1, 4, 3, 6, 5, 2], 3, []), ([6, 2, 5, 1, 5, 4, 3], 3, [])]


def jobs(tier):
    out = []
    big = tier != 'quick'

    def add(f, *a, **kw):
        out.append(dict({'f': f, 'args': list(a)}, **kw))
    for n in range(1, 5 + big):
        add('states', n, None, 'orthogonal')
        add('states', n, 5 if n < 4 else 4, 'symplectic')
    for n in range(0, 6 + big):
        add('orthogonal', n)
    for n, top in [(1, 5), (2, 5), (3, 4), (4, 4)] + ([(5, 4)] if big else []):
        add('involution', n, top)
    for n, top in [(0, 3), (1, 5), (2, 5), (3, 5), (4, 4)] + ([(4, 5), (5, 5)] if big else []):
        add('symplectic', n, top)
    for prefix, n, suffix in H.DEEP + (H.DEEPER if big else []):
        add('orthogonal', n, prefix, suffix)
    for prefix, n, suffix in DEEP + (DEEPER if big else []):
        add('symplectic', n, 7, prefix, suffix)
    for n in range(0, 4 + big):
        for m in (True, False):
            add('records', n, m, 'o', 0)
            if 1 < n < 4:
                add('records', n, m, 's', 5 if n < 3 or big else 4)
    for shape, extra in [([1], 1), ([2], 0), ([2], 1), ([2, 1], 0), ([2, 1], 1), ([3], 0), ([3], 1), ([3, 1], 0), ([3, 2], 0), ([3, 1], 1), ([4], 0), ([4, 1], 0), ([3, 2, 1], 0), ([3, 2], 1), ([4], 1)] + \
            ([([3, 2, 1], 1), ([4, 1], 1), ([4, 2], 0), ([2, 1], 2), ([3], 2), ([3, 1], 2)] if big else []):
        add('inverse', shape, extra)
    return out
