"""Crystal operators on set-valued and multiset-valued tableaux."""
import itertools
from tableaux import Tableau
from words import Word
from ref import ite, ind
from h_p13 import signature
from h_p14 import cells, filled, semi, arrangements

BOUNDS = ('tableaux of shapes (1), (2), (1,1), (3), (2,1), (1,1,1), (2,2) (thorough also (3,1), (2,1,1), (4)) with up to 5 entries (4 for (2,2)), '
          'thorough one more; entries arbitrary positive integers, every arrangement of box sizes, every crystal index; '
          'and shapes of up to 8 boxes with entries up to 2 or 3 (see DEEP)')
OUTSIDE = 'larger shapes, more entries'


def tableau(sx, shape, total, multi, top=None):
    cs = cells(shape, False)
    sz = sx.choose('sizes', arrangements(len(cs), total))
    ent = filled(sx, cs, sz, 1, not multi, top=top)
    sx.assume(semi(ent, True))
    return ent, Tableau({b: tuple(v) for b, v in ent.items()})


def letters(t):
    return [x for _, _, v in t for x in v]


def count(xs, y):
    return sum([ind(x == y) for x in xs])


def operators(sx, shape, total, multi, top=None):
    ent, t = tableau(sx, shape, total, multi, top)
    i = sx.int('i', 1, top)
    if multi:
        cols = t.crystal_reading_word()
        sx.check(Tableau.from_crystal_reading_word(cols) == t, 'the reading word determines the tableau')
        w = tuple(x for c in cols for x in c)
        for j, c in enumerate(cols):
            boxes = [ent[b] for b in sorted(ent) if b[1] == j + 1]
            want = tuple(v[0] for v in reversed(boxes)) + tuple(x for v in boxes for x in v[1:])
            sx.check(c == want, 'reading word of a column: smallest entries from the top, then the others from the bottom')
    else:
        w = tuple(x for b in sorted(ent, key=lambda b: (b[1], -b[0])) for x in reversed(ent[b]))
    fe, fp, ee, ep = signature(w, i)
    for name, back, exists, pos, a, d in (('f_crystal_operator', 'e_crystal_operator', fe, fp, i, i + 1),
                                          ('e_crystal_operator', 'f_crystal_operator', ee, ep, i + 1, i)):
        u = getattr(t, name)(i, multisetvalued=multi)
        sx.check((u is not None) == exists, 'defined by the signature rule')
        if u is None:
            continue
        sx.check(set(u.boxes) == set(t.boxes), 'same shape')
        now = {b: list(v) for b, v in u.boxes.items()}
        sx.check(semi(now, True), 'semistandard')
        if not multi:
            sx.check(all(v[k] < v[k + 1] for v in now.values() for k in range(len(v) - 1)), 'no repetition in a box')
        x, y = letters(t), letters(u)
        sx.check(count(y, d) == count(x, d) + 1 and count(y, a) == count(x, a) - 1 and all((z == a) or (z == d) or (count(y, z) == count(x, z)) for z in x)
                 and len(x) == len(y), 'one letter changes')
        sx.check(getattr(u, back)(i, multisetvalued=multi) == t, 'the operators are inverse')
        if multi:
            sx.check(tuple(z for c in u.crystal_reading_word() for z in c) == getattr(Word, name)(i, w), 'acts on the reading word')
        else:
            moved = [b for b in sorted(ent) if now[b] != ent[b]]
            rows = sorted(b[0] for b in moved)
            sx.check(all(b[0] == rows[0] for b in moved) and len(moved) <= 2, 'at most two boxes of a row change')
        sx.check(all(list(t.boxes[b]) == ent[b] for b in ent), 'the original is not changed')


# larger shapes over few letters: shape, entries beyond one a box, largest letter
DEEP = [([3, 1], 1, 2), ([3, 2], 0, 3), ([2, 2, 1], 0, 3), ([3, 3], 0, 2), ([4, 2], 0, 2), ([2, 2], 1, 3), ([4], 2, 2), ([3, 2], 1, 2), ([2, 1, 1], 1, 3), ([2, 2, 2], 0, 3),
        ([3, 2, 1], 0, 3), ([3, 3, 1], 0, 3), ([5, 3], 0, 2), ([4, 2], 1, 2), ([2, 2, 2], 1, 3), ([3, 2], 2, 2), ([2, 2], 2, 2)]
DEEPER = [([3, 2], 1, 3), ([3, 2, 1], 1, 3), ([3, 3, 1], 1, 3), ([5], 3, 2), ([3, 3], 2, 2), ([2, 2], 2, 3), ([4, 3, 2], 0, 3), ([3, 3, 2], 1, 3), ([3, 2, 1], 2, 3)]


def jobs(tier):
    out = []
    big = tier != 'quick'
    for shape, tot in [([1], 5), ([2], 5), ([1, 1], 5), ([3], 5), ([2, 1], 5), ([1, 1, 1], 5), ([2, 2], 4)] + ([([3, 1], 5), ([2, 1, 1], 5), ([4], 5)] if big else []):
        for n in range(sum(shape), tot + 1 + (big and sum(shape) < 4)):
            for m in (True, False):
                out.append({'f': 'operators', 'args': [shape, n, m]})
    for shape, extra, top in DEEP + (DEEPER if big else []):
        for m in (True, False):
            out.append({'f': 'operators', 'args': [shape, sum(shape) + extra, m, top]})
    return out
