"""Reduced, involution and Hecke words of permutations, and atoms: each listed exactly once, against symbolic candidate words."""
import itertools
from permutations import Permutation
from words import Word
from ref import ite, ind

BOUNDS = ('all permutations of 4 letters (thorough 5), signed permutations of 3 letters (involutions: thorough 4), involutions of 5 letters, fixed-point-free '
          'involutions of 6; Hecke words of length at most 5 for 3 letters and 4 (thorough 5) for 4 letters; a candidate word is a tuple of '
          'arbitrary integers, a candidate atom an arbitrary signed permutation; every enumeration for one of 15 (signed) permutations of up to 4 letters '
          'after one (thorough two) enumerations for others; chosen permutations of up to 9 letters with few words')
OUTSIDE = 'more letters, longer words'


def pickperm(sx, n, kind):
    ws = sorted(Permutation.all(n, True) if kind[0] == 's' else Permutation.all(n), key=lambda w: w.oneline)
    if kind[-1] == 'i':
        ws = [w for w in ws if w.is_involution()]
    if kind[-1] == 'f':
        ws = [w for w in ws if w.is_fpf_involution() and w.rank == n]
    return sx.choose('w', ws)


def full(w, n):
    return [w(i) for i in range(1, n + 1)]


def right(xs, a):
    """w s_a: positions a, a + 1 swapped (a = 0: first value negated)"""
    n = len(xs)
    ans = []
    for p in range(1, n + 1):
        x = xs[p - 1]
        if p < n:
            x = ite(a == p, xs[p], x)
        if p > 1:
            x = ite(a == p - 1, xs[p - 2], x)
        if p == 1:
            x = ite(a == 0, -xs[0], x)
        ans.append(x)
    return ans


def left(xs, a):
    """s_a w: values a, a + 1 swapped"""
    ans = []
    for x in xs:
        y = ite(x == a, a + 1, ite(x == a + 1, a, ite(x == -a, -a - 1, ite(x == -a - 1, -a, x))))
        z = ite(x == 1, -1, ite(x == -1, 1, x))
        ans.append(ite(a == 0, z, y))
    return ans


def ascent(xs, a):
    """a is not a right descent"""
    n = len(xs)
    if not n:
        return a != a
    c = (a == 0) & (xs[0] > 0)
    for p in range(1, n):
        c = c | ((a == p) & (xs[p - 1] < xs[p]))
    return c


def choose(c, xs, ys):
    return [ite(c, x, y) for x, y in zip(xs, ys)]


def equal(xs, ys):
    return all(x == y for x, y in zip(xs, ys))


def run_reduced(xs, word, low):
    n = len(xs)
    ok = True
    for a in word:
        ok = ok & ((low <= a) & (a < n)) & ascent(xs, a)
        xs = right(xs, a)
    return ok, xs


def run_hecke(xs, word, low):
    n = len(xs)
    ok = True
    for a in word:
        ok = ok & ((low <= a) & (a < n))
        xs = choose(ascent(xs, a), right(xs, a), xs)
    return ok, xs


def run_inv(xs, word, low, strict, fpf=False):
    """y -> s y s (or y s when they commute); strict: only upwards"""
    n = len(xs)
    ok = True
    for a in word:
        up = ascent(xs, a)
        ok = ok & ((low <= a) & (a < n))
        sys = right(left(xs, a), a)
        comm = equal(sys, xs)
        if strict:
            ok = ok & up
        if fpf:
            # y(a) = a + 1 is not allowed
            for p in range(1, n):
                ok = ok & ((a != p) | (xs[p - 1] != p + 1))
            new = sys
        else:
            new = choose(comm, right(xs, a), sys)
        xs = choose(up, new, xs)
    return ok, xs


def listed(sx, words, x, pred, msg):
    words = [w for w in words if len(w) == len(x)]
    sx.check(sum([ind(all(a == b for a, b in zip(w, x))) for w in words]) == ind(pred), msg)


def reduced(sx, n, kind):
    w = pickperm(sx, n, kind)
    low = 0 if kind[0] == 's' else 1
    L = w.length
    words = list(w.get_reduced_words())
    sx.check(all(len(u) == L for u in words), 'reduced words have the same length')
    x = sx.ints('x', L)
    ok, out = run_reduced(list(range(1, n + 1)), x, low)
    listed(sx, words, x, ok & equal(out, full(w, n)), 'reduced words')
    sx.check(sorted(w.reduced_words) == sorted(words), 'same on a second call')
    sx.check(w.get_reduced_word() in words and w.reduced_word in words, 'the chosen reduced word')


def involution(sx, n, kind):
    w = pickperm(sx, n, kind)
    low = 0 if kind[0] == 's' else 1
    L = w.involution_length
    words = list(w.get_involution_words())
    sx.check(all(len(u) == L for u in words), 'involution words have the same length')
    x = sx.ints('x', L)
    ok, out = run_inv(list(range(1, n + 1)), x, low, True)
    listed(sx, words, x, ok & equal(out, full(w, n)), 'involution words')
    sx.check(sorted(w.involution_words) == sorted(words), 'same on a second call')
    sx.check(w.get_involution_word() in words and w.involution_word in words, 'the chosen involution word')


def fpf(sx, n):
    w = pickperm(sx, n, 'uf')
    L = w.fpf_involution_length
    words = list(w.get_fpf_involution_words())
    sx.check(all(len(u) == L for u in words), 'fpf involution words have the same length')
    x = sx.ints('x', L)
    ok, out = run_inv(full(Permutation.minfpf(n), n), x, 1, True, True)
    listed(sx, words, x, ok & equal(out, full(w, n)), 'fpf involution words')
    sx.check(sorted(w.fpf_involution_words) == sorted(words), 'same on a second call')
    sx.check(w.get_fpf_involution_word() in words and w.fpf_involution_word in words, 'the chosen fpf involution word')


def hecke(sx, n, bound, length, asc):
    w = pickperm(sx, n, 'u')
    words = list(w.get_hecke_words(bound, asc))
    sx.check(all(len(u) <= bound for u in words), 'length bound')
    x = sx.ints('x', length)
    r = w.rank
    ok, out = run_hecke(list(range(1, r + 1)), x, 1)
    if asc is not None:
        ok = ok & (sum([ind(x[i] <= x[i + 1]) for i in range(length - 1)]) < asc)
    listed(sx, words, x, ok & equal(out, full(w, r)), 'Hecke words')
    listed(sx, list(w.get_hecke_words(bound, asc)), x, ok & equal(out, full(w, r)), 'Hecke words on a second call')


def hecke_all(sx, n, bound, length):
    x = sx.ints('x', length)
    ok = all((1 <= a) & (a < n) for a in x)
    listed(sx, list(Permutation.hecke_words(n, bound)), x, ok, 'all words')


def symplectic(sx, n, bound, length, asc):
    w = pickperm(sx, n, 'uf')
    words = list(w.get_symplectic_hecke_words(bound, asc))
    sx.check(all(len(u) <= bound for u in words), 'length bound')
    x = sx.ints('x', length)
    ok, out = run_inv(full(Permutation.minfpf(n), n), x, 1, False, True)
    if asc is not None:
        ok = ok & (sum([ind(x[i] <= x[i + 1]) for i in range(length - 1)]) < asc)
    listed(sx, words, x, ok & equal(out, full(w, n)), 'symplectic Hecke words')


def peak_count(x):
    """the recursive peak count of the library: greedily, past each weak peak"""
    n = len(x)
    best = [0] * (n + 1)
    # best[i] = peaks(x[i:])
    for i in range(n - 1, -1, -1):
        ans = 1
        for j in range(n - 2, i, -1):
            pk = (x[j - 1] <= x[j]) & (x[j] >= x[j + 1])
            ans = ite(pk, 1 + best[j + 1], ans)
        best[i] = ans
    return best[0]


def orthogonal(sx, n, bound, length, peaks, kind='ui'):
    w = pickperm(sx, n, kind)
    words = list(w.get_involution_hecke_words(bound, peaks))
    sx.check(all(len(u) <= bound for u in words), 'length bound')
    x = sx.ints('x', length)
    r = w.rank
    # letter 0 counts as a sign change; unsigned involutions are reached without it
    ok, out = run_inv(list(range(1, r + 1)), x, 0, False)
    if peaks is not None:
        ok = ok & (peak_count(x) <= peaks)
    listed(sx, words, x, ok & equal(out, full(w, r)), 'orthogonal Hecke words')


def interleaved(sx, family, n):
    """lazily reading one enumeration while another one runs to a different bound"""
    gen = {'hecke': Permutation.hecke_words, 'symplectic': Permutation.symplectic_hecke_words, 'orthogonal': Permutation.involution_hecke_words}[family]
    b0, b1, b2 = sx.pick('b0', -1, 2), sx.pick('b1', 0, 3), sx.pick('b2', 0, 3)
    steps = sx.pick('steps', 0, 4)
    if b0 >= 0:
        list(gen(n, b0))
    it = gen(n, b1)
    first = list(itertools.islice(it, steps))
    second = list(gen(n, b2))
    rest = list(it)
    third = list(gen(n, 3))
    words = [w for m in range(4) for w in itertools.product(range(0 if family == 'orthogonal' else 1, n), repeat=m)]
    if family == 'symplectic':
        words = [w for w in words if not bad(w, n)]

    def want(b):
        return sorted(w for w in words if len(w) <= b)
    sx.check(sorted(first + rest) == want(b1), 'the enumeration read lazily')
    sx.check(sorted(second) == want(b2), 'the enumeration run meanwhile')
    sx.check(sorted(third) == want(3), 'an enumeration afterwards')


def levels_of(family, n, bound, extra, strict):
    if family == 'hecke':
        return list(Permutation.hecke_levels(n, bound, extra))
    if family == 'symplectic':
        return list(Permutation.symplectic_hecke_levels(n, bound, extra, not strict))
    return list(Permutation.involution_hecke_levels(n, bound, extra, not strict))


def level_histories(sx, family, n, length):
    """levels of one kind after an enumeration of any other kind"""
    kinds = [(e, s) for e in (None, 1, 2) for s in ((False, True) if family != 'hecke' else (False,))]
    for j in range(2):
        extra, strict = sx.choose('kind%d' % j, kinds)
        bound = sx.pick('bound%d' % j, 0 if not j else length, length)
        levels = levels_of(family, n, bound, extra, strict)
    x = sx.ints('x', length)
    if family == 'hecke':
        ok, out = run_hecke(list(range(1, n + 1)), x, 1)
    elif family == 'symplectic':
        ok, out = run_inv(full(Permutation.minfpf(n), n), x, 1, strict, True)
    else:
        ok, out = run_inv(list(range(1, n + 1)), x, 0, strict)
    if extra is not None:
        if family == 'orthogonal':
            for m in range(1, length + 1):
                ok = ok & (peak_count(x[:m]) <= extra)
        else:
            ok = ok & (sum([ind(x[i] <= x[i + 1]) for i in range(length - 1)]) < extra)
    sx.check(len(levels) <= bound + 1, 'number of levels')
    sx.check(all(len(w) == i for i, level in enumerate(levels) for _, w in level), 'level i has the words of length i')
    level = levels[length] if length < len(levels) else ()
    sx.check(sum([ind(all(a == b for a, b in zip(w, x))) for _, w in level]) == ind(ok), 'words of the level')
    for pi, w in level:
        sx.check(ite(all(a == b for a, b in zip(w, x)), equal(full(pi, n), out), True), 'the permutation of the word')


def abandoned(sx, n, kind, which):
    """a listing read only in part, then complete ones, of the same and of a larger permutation"""
    ws = sorted(Permutation.all(n, True) if kind[0] == 's' else Permutation.all(n), key=lambda w: w.oneline)
    if which == 'involution':
        ws = [w for w in ws if w.is_involution()]
    w = sx.choose('w', ws)
    low = 0 if kind[0] == 's' else 1
    gen = (lambda v: v.get_involution_words()) if which == 'involution' else (lambda v: v.get_reduced_words())
    other = w
    up = sx.pick('up', -1, n - 1)
    if up >= low and up not in w.right_descent_set:
        s = Permutation.s_i(up)
        if which == 'reduced':
            other = w * s
        else:
            other = s * w * s if s * w != w * s else w * s
    it = iter(gen(w))
    part = list(itertools.islice(it, sx.pick('steps', 1, 3)))
    words = list(gen(other))
    rest = list(it)
    again = list(gen(other))
    L = other.involution_length if which == 'involution' else other.length
    x = sx.ints('x', L)
    run = (lambda v: run_inv(list(range(1, n + 1)), v, low, True)) if which == 'involution' else (lambda v: run_reduced(list(range(1, n + 1)), v, low))
    ok, out = run(x)
    good = ok & equal(out, full(other, n))
    sx.check(all(len(u) == L for u in words + again), 'words have the same length')
    listed(sx, words, x, good, 'words while another listing is open')
    listed(sx, again, x, good, 'words after another listing was read')
    L = w.involution_length if which == 'involution' else w.length
    x = sx.ints('z', L)
    ok, out = run(x)
    listed(sx, part + rest, x, ok & equal(out, full(w, n)), 'words of the listing read in two parts')


POOL = [[], [2, 1], [1, 3, 2], [3, 2, 1], [2, 1, 4, 3], [4, 3, 2, 1], [3, 4, 1, 2], [2, 3, 1], [1, 4, 3, 2], [-1], [-1, -2], [1, -2], [-2, -1], [-3, 2, -1], [2, 1, -3]]


def isfpf(w):
    r = len(w)
    return r % 2 == 0 and all(w[i] > 0 and w[i] != i + 1 and w[w[i] - 1] == i + 1 for i in range(r))


def isinv(w):
    return all(w[abs(x) - 1] == (i + 1 if x > 0 else -i - 1) for i, x in enumerate(w))


FAMILIES = ['reduced', 'involution', 'fpf', 'atoms', 'fpf_atoms', 'hecke', 'symplectic', 'orthogonal']


def applies(fam, w):
    unsigned = all(x > 0 for x in w)
    return (fam == 'reduced') or (fam in ('involution', 'atoms', 'orthogonal') and isinv(w)) or (fam == 'hecke' and unsigned) or \
        (fam in ('fpf', 'fpf_atoms', 'symplectic') and isfpf(w))


def enumerate_family(fam, w):
    v = Permutation(*w)
    if fam == 'reduced':
        return list(v.get_reduced_words())
    if fam == 'involution':
        return list(v.get_involution_words())
    if fam == 'fpf':
        return list(v.get_fpf_involution_words())
    if fam == 'atoms':
        return [tuple(full(a, len(w))) for a in v.get_atoms()]
    if fam == 'fpf_atoms':
        return [tuple(full(a, len(w))) for a in v.get_fpf_atoms()]
    if fam == 'hecke':
        return list(v.get_hecke_words(3))
    if fam == 'symplectic':
        return list(v.get_symplectic_hecke_words(3))
    return list(v.get_involution_hecke_words(2))


def after(sx, depth, fams, earlier, top):
    """every enumeration of one permutation after other enumerations of it and of others"""
    before = [(f, w) for f in earlier for w in POOL if applies(f, w)]
    for d in range(depth):
        f, v = sx.choose('b%d' % d, before)
        enumerate_family(f, v)
    fam, w = sx.choose('w', [(f, v) for f in fams for v in POOL if applies(f, v) and len(v) <= top])
    n = len(w)
    low = 0
    got = enumerate_family(fam, w)
    start = [i + 2 if i % 2 == 0 else i for i in range(n)]
    if fam in ('atoms', 'fpf_atoms'):
        xs = symline(sx, n, True)
        p = Permutation(*xs)
        y = Permutation(*w)
        if fam == 'atoms':
            good = (p.length == y.involution_length) and (p.inverse() % p == y)
        else:
            good = p.is_unsigned() and (p.length == y.fpf_involution_length) and (p.inverse() * Permutation(*start) * p == y)
        sx.check(sum([ind(equal(g, xs)) for g in got]) == ind(good), 'atoms')
        return
    lens = sorted({len(u) for u in got})
    if fam in ('reduced', 'involution', 'fpf'):
        sx.check(len(lens) == 1, 'words have one length')
        length = lens[0]
    else:
        length = sx.pick('length', 0, 2 if fam == 'orthogonal' else 3)
        sx.check(all(k <= (2 if fam == 'orthogonal' else 3) for k in lens), 'length bound')
    x = sx.ints('x', length)
    one = list(range(1, n + 1))
    if fam == 'reduced':
        ok, out = run_reduced(one, x, low)
    elif fam == 'involution':
        ok, out = run_inv(one, x, low, True)
    elif fam == 'fpf':
        ok, out = run_inv(start, x, 1, True, True)
    elif fam == 'hecke':
        ok, out = run_hecke(one, x, 1)
    elif fam == 'symplectic':
        ok, out = run_inv(start, x, 1, False, True)
    else:
        ok, out = run_inv(one, x, 0, False)
    listed(sx, got, x, ok & equal(out, w), 'exactly the words of the permutation')


LONG = [('reduced', [2, 3, 4, 5, 6, 7, 8, 1]), ('reduced', [8, 1, 2, 3, 4, 5, 6, 7]), ('reduced', [2, 1, 4, 3, 6, 5, 7, 9, 8]), ('reduced', [1, 2, 3, 4, 5, 8, 7, 6]),
        ('reduced', [1, 2, 5, 6, 3, 4]), ('reduced', [4, 1, 2, 6, 3, 5]), ('reduced', [1, 2, 3, -4]), ('reduced', [-2, 3, 4, 1]),
        ('involution', [1, 2, 3, 4, 7, 6, 5]), ('involution', [2, 1, 4, 3, 6, 5]), ('involution', [5, 2, 3, 4, 1]), ('involution', [6, 2, 3, 4, 5, 1]), ('involution', [1, 2, 3, -4]),
        ('fpf', [2, 1, 4, 3, 6, 5, 8, 7]), ('fpf', [2, 1, 4, 3, 8, 7, 6, 5]), ('fpf', [8, 3, 2, 5, 4, 7, 6, 1]), ('fpf', [2, 1, 6, 5, 4, 3, 8, 7]), ('fpf', [3, 4, 1, 2, 7, 8, 5, 6])]
LONGER = [('reduced', [1, 2, 5, 4, 3, 7, 6, 8]), ('reduced', [3, 1, 2, 6, 4, 5]), ('reduced', [2, -1, 4, -3]), ('reduced', [6, 1, 5, 2, 3, 4]), ('involution', [4, 2, 3, 1, 6, 5]),
          ('involution', [1, 6, 3, 4, 5, 2]), ('involution', [5, 6, 3, 4, 1, 2]), ('fpf', [6, 5, 4, 3, 2, 1]), ('fpf', [5, 6, 7, 8, 1, 2, 3, 4]), ('fpf', [4, 3, 2, 1, 8, 7, 6, 5])]


def long(sx, fam, w):
    """a longer permutation with few words"""
    n = len(w)
    got = enumerate_family(fam, w)
    sx.check(len({len(u) for u in got}) == 1, 'words have one length')
    x = sx.ints('x', len(got[0]))
    one = list(range(1, n + 1))
    if fam == 'reduced':
        ok, out = run_reduced(one, x, 0)
    elif fam == 'involution':
        ok, out = run_inv(one, x, 0, True)
    else:
        ok, out = run_inv([i + 2 if i % 2 == 0 else i for i in range(n)], x, 1, True, True)
    listed(sx, got, x, ok & equal(out, w), 'exactly the words of the permutation')
    v = Permutation(*w)
    one = v.get_reduced_word() if fam == 'reduced' else v.get_involution_word() if fam == 'involution' else v.get_fpf_involution_word()
    sx.check(one in got, 'the chosen word')


def bad(word, n):
    ok, _ = run_inv(full(Permutation.minfpf(n), n), word, 1, False, True)
    return not ok


def symline(sx, n, signed):
    xs = []
    for i in range(n):
        x = sx.int('p%d' % i, -n if signed else 1, n)
        for y in xs:
            sx.assume((x != y) & (x != -y))
        if signed:
            sx.assume(x != 0)
        xs.append(x)
    return xs


def atoms(sx, n, kind):
    """atoms of w: the shortest x with (inverse of x) * x = w in the Demazure product"""
    w = pickperm(sx, n, kind)
    got = [full(a, n) for a in w.get_atoms()]
    xs = symline(sx, n, kind[0] == 's')
    p = Permutation(*xs)
    good = (p.length == w.involution_length) and (p.inverse() % p == w)
    sx.check(sum([ind(equal(g, xs)) for g in got]) == ind(good), 'atoms')
    sx.check(all(full(w.get_min_atom(), n) in got for _ in (0,)), 'the minimal atom is an atom')
    sx.check([full(a, n) for a in w.get_atoms()] == got, 'same on a second call')


def fpf_atoms(sx, n):
    w = pickperm(sx, n, 'uf')
    got = [full(a, n) for a in w.get_fpf_atoms()]
    xs = symline(sx, n, False)
    p = Permutation(*xs)
    good = (p.length == w.fpf_involution_length) and (p.inverse() * Permutation.minfpf(n) * p == w)
    sx.check(sum([ind(equal(g, xs)) for g in got]) == ind(good), 'fpf atoms')


def atoms_d(sx, n):
    """type D: words in the generators s_1.. and the sign-changing one, involution words counted upwards"""
    w = pickperm(sx, n, 'si')
    sx.assume(w.is_even_signed())

    def length(v):
        return sum(1 for i in range(1, n + 1) for j in range(i + 1, n + 1) if v(i) > v(j)) + \
            sum(1 for i in range(1, n + 1) for j in range(i + 1, n + 1) if -v(i) > v(j))
    gens = [Permutation.s_i(0) * Permutation.s_i(1) * Permutation.s_i(0)] + [Permutation.s_i(i) for i in range(1, n)]

    def dem(u, s):
        return u * s if length(u * s) > length(u) else u
    # all pairs (element x, involution x^-1 o x) reached by walking up
    start = (Permutation(), Permutation())
    level = {start}
    want = set()
    while level:
        want |= {x for x, y in level if y == w}
        nxt = set()
        for x, y in level:
            for s in gens:
                if length(x * s) > length(x):
                    z = dem(y, s)
                    z = s * z if length(s * z) > length(z) else z
                    if z != y:
                        nxt.add((x * s, z))
        level = nxt
    short = min(length(x) for x in want)
    got = list(w.get_atoms_d())
    sx.check(set(got) == {x for x in want if length(x) == short}, 'type D atoms')


def from_words(sx, n, length, fpf):
    """the permutation of a word, whatever the letters"""
    x = [sx.int('x%d' % i, 1, n - 1) for i in range(length)]
    xs = list(range(1, n + 1))
    for a in x:
        xs = right(xs, a)
    sx.check(full(Permutation.from_word(x), n) == xs, 'product of the letters')
    ok, out = run_inv(list(range(1, n + 1)), x, 1, True)
    got = Permutation.from_involution_word(x)
    if ok:
        sx.check(got is not None and full(got, n) == out, 'involution of an involution word')
    else:
        sx.check(got is None, 'not an involution word')
    ys = list(range(1, n + 1))
    for a in x:
        c = right(left(ys, a), a)
        ys = choose(equal(c, ys), right(ys, a), c)
    sx.check(full(Permutation.from_involution_word(x, strict=False), n) == ys, 'involution of any word')
    if fpf:
        m = full(Permutation.minfpf(n), n)
        ok, out = run_inv(m, x, 1, True, True)
        got = Permutation.from_fpf_involution_word(x)
        if ok:
            sx.check(got is not None and equal(tail(got, n), out), 'fpf involution of a word')
        else:
            sx.check(got is None, 'not an fpf involution word')
        ys = m
        for a in x:
            ys = right(left(ys, a), a)
        sx.check(equal(tail(Permutation.from_fpf_involution_word(x, strict=False), n), ys), 'fpf involution of any word')


def tail(w, n):
    """w followed by the standard transpositions"""
    r = w.rank + w.rank % 2
    return full(w, r) + [k + 1 if k % 2 else k - 1 for k in range(r + 1, n + 1)]


def jobs(tier):
    out = []
    big = True
    huge = tier != 'quick'

    def add(f, *a, **kw):
        out.append(dict({'f': f, 'args': list(a)}, **kw))
    for n, k in [(1, 's'), (2, 's'), (3, 'u'), (4, 'u')] + ([(3, 's'), (5, 'ui')] if big else []):
        add('reduced', n, k)
    for n, k in [(1, 'si'), (2, 'si'), (3, 'si'), (3, 'ui'), (4, 'ui')] + ([(5, 'ui')] if big else []):
        add('involution', n, k)
    for n in (2, 4) + ((6,) if big else ()):
        add('fpf', n)
    for asc in (None, 1, 2):
        for length in range(0, 5 + big):
            add('hecke', 3, 4 + big, length, asc)
        for length in range(0, 5 if big else 4):
            add('hecke', 4, 4 if big else 3, length, asc)
    for length in range(0, 4):
        add('hecke_all', 3, 3, length)
        add('hecke_all', 4, 3, length)
        for asc in (None, 1, 2):
            add('symplectic', 4, 3, length, asc)
        for pk in (None, 1, 2):
            add('orthogonal', 3, 3, length, pk)
            add('orthogonal', 2, 3, length, pk, 'si')
    for length in (4,) + ((5,) if big else ()):
        add('symplectic', 4, length, length, None)
        add('orthogonal', 3, length, length, 1)
    if big:
        add('orthogonal', 4, 4, 4, None)
    add('interleaved', 'hecke', 3)
    add('interleaved', 'symplectic', 4)
    add('interleaved', 'orthogonal', 2)
    for length in range(1, 4):
        add('level_histories', 'hecke', 3, length)
        add('level_histories', 'symplectic', 4, length)
        add('level_histories', 'orthogonal', 2, length)
    add('level_histories', 'orthogonal', 3, 3)
    add('level_histories', 'hecke', 4, 4)
    for n, k in [(2, 's'), (3, 'u')] + ([(3, 's'), (4, 'u')] if huge else []):
        add('abandoned', n, k, 'reduced')
        add('abandoned', n, k, 'involution')
    for n, k in [(1, 'si'), (2, 'si'), (3, 'ui'), (3, 'si')] + ([(4, 'ui')] if big else []):
        add('atoms', n, k)
    add('fpf_atoms', 4)
    for n in (2, 3) + ((4,) if big else ()):
        add('atoms_d', n)
    for n, length, f in [(3, 1, False), (3, 3, False), (4, 2, True), (4, 3, True)] + ([(4, 4, True), (5, 3, False), (5, 4, False)] if huge else []):
        add('from_words', n, length, f)
    for fam, w in LONG + (LONGER if huge else []):
        add('long', fam, w)
    walks = [['reduced', 'involution', 'atoms'], ['fpf', 'fpf_atoms', 'involution'], ['hecke', 'symplectic', 'orthogonal']]
    for fams in walks:
        for f in fams:
            add('after', 1, [f], FAMILIES if huge else fams, 4 if huge or f != 'atoms' else 2)
            if huge and 'atoms' not in f:
                add('after', 2, [f], [f], 3)
    if huge:
        add('reduced', 5, 'u')
        add('involution', 4, 'si')
        add('atoms', 5, 'ui')
        add('fpf_atoms', 6)
        add('hecke', 4, 5, 5, None)
        add('symplectic', 4, 6, 6, None)
        add('orthogonal', 4, 5, 5, None)
        add('orthogonal', 3, 4, 4, None, 'si')
    return out
