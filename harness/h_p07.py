"""(Signed) permutations as a Coxeter group: composition, inverse, length, descents, Demazure product, codes, Bruhat covers."""
from permutations import Permutation
from ref import is_strict_part, ind

BOUNDS = ('permutations of 4 letters and signed permutations of 3 letters with symbolic one-line notation (5 and 3 for the statistics; pairs: 4 and 2, '
          'thorough also signed 3; triples: 3 and 2); transitions and covers: 4 and 3')
OUTSIDE = 'more letters'


def line(sx, n, signed, tag='w'):
    xs = []
    for i in range(n):
        x = sx.int('%s%d' % (tag, i + 1), -n if signed else 1, n)
        for y in xs:
            sx.assume(x != y)
            if signed:
                sx.assume(x != -y)
        if signed:
            sx.assume(x != 0)
        xs.append(x)
    return xs


def at(xs, i):
    """the value of the one-line notation at any integer i, odd and fixing everything outside"""
    ans = i
    for k in range(len(xs)):
        ans = xs[k] if i == k + 1 else (-xs[k] if i == -(k + 1) else ans)
    return ans


def where(xs, v):
    """the position of the value v"""
    ans = v
    for k in range(len(xs)):
        ans = k + 1 if xs[k] == v else (-(k + 1) if xs[k] == -v else ans)
    return ans


def is_map(sx, p, f, n, msg):
    for i in range(1, n + 2):
        sx.check(p(i) == f(i), msg)
        sx.check(p(-i) == -f(i), msg + ' (negative argument)')
    sx.check(p(0) == 0, msg + ' at zero')
    sx.check(len(p.oneline) == p.rank and (p.rank == 0 or p.oneline[-1] != p.rank), msg + ': trailing fixed points are dropped')


def b(c):
    return 1 if c else 0


def ref_len(xs):
    n = len(xs)
    ans = 0
    for i in range(n):
        ans += b(xs[i] < 0)
        for j in range(i + 1, n):
            ans += b(xs[i] > xs[j]) + b(-xs[i] > xs[j])
    return ans


def elements(sx, n, signed):
    xs = line(sx, n, signed)
    w = Permutation(*xs)
    is_map(sx, w, lambda i: at(xs, i), n, 'value')
    sx.check(Permutation(list(xs)) == w and Permutation(*(list(xs) + [n + 1])) == w, 'same permutation from other one-line forms')
    sx.check(hash(Permutation(*(list(xs) + [n + 1, n + 2]))) == hash(w), 'equal permutations hash alike')
    ident = all(xs[i] == i + 1 for i in range(n))
    sx.check(w.is_identity() == ident, 'is_identity')
    sx.check((w == Permutation.identity()) == ident, 'equality with the identity')
    sx.check(w.is_unsigned() == all(x > 0 for x in xs), 'is_unsigned')
    sx.check(w.is_even_signed() == (sum(b(x < 0) for x in xs) % 2 == 0), 'is_even_signed')
    is_map(sx, w.inverse(), lambda i: where(xs, i), n, 'inverse')
    sx.check((w * w.inverse()).is_identity() and (w.inverse() * w).is_identity(), 'w times its inverse')
    inv = all(at(xs, xs[i]) == i + 1 for i in range(n))
    sx.check(w.is_involution() == inv, 'is_involution')
    sx.check(len(w) == ref_len(xs) and w.length == ref_len(xs), 'length')
    for i in range(0, n + 2):
        sx.check((i in w.right_descent_set) == ((at(xs, i) > at(xs, i + 1)) if i else at(xs, 1) < 0), 'right descents')
        sx.check((i in w.left_descent_set) == ((where(xs, i) > where(xs, i + 1)) if i else where(xs, 1) < 0), 'left descents')


def statistics(sx, n, signed):
    xs = line(sx, n, signed)
    w = Permutation(*xs)
    r = w.rank
    pairs = [(a, at(xs, a)) for a in range(-n, n + 1) if a != 0 and ((abs(a) < at(xs, a)))]
    sx.check(w.pair() == pairs, 'pairs')
    sx.check(w.neg() == [(-a, -a) for a in range(1, r + 1) if at(xs, a) == -a], 'negated points')
    sx.check(w.fix() == [(a, a) for a in range(1, r + 1) if at(xs, a) == a], 'fixed points')
    if not signed:
        sx.check(w.code() == tuple(sum(b(xs[j] < xs[i]) for j in range(i + 1, n)) for i in range(r)), 'code')
        d = [i for i in range(1, n) if xs[i - 1] > xs[i]]
        sx.check(w.last_descent() == (d[-1] if d else None), 'last descent')
        p = Permutation()
        seen = []
        for c in w.cycles:
            seen += c
            p = p * Permutation.cycle(*c)
        sx.check(p == w, 'product of the cycles')
        sx.check(sorted(seen) == list(range(1, r + 1)), 'the cycles partition the letters')
        ro = w.rothe_diagram()
        want = [(i, xs[j - 1]) for i in range(1, n + 1) for j in range(i + 1, n + 1) if xs[i - 1] > xs[j - 1]]
        sx.check(ro == sorted(want), 'Rothe diagram')
        is_map(sx, w.star(), lambda i: (r + 1 - xs[r - i]) if i <= r else i, n, 'star')


def involution_stats(sx, n, signed):
    xs = line(sx, n, signed)
    for i in range(n):
        sx.assume(at(xs, xs[i]) == i + 1)
    w = Permutation(*xs)
    r = w.rank
    fpf = all(xs[i] != i + 1 for i in range(r))
    sx.check(w.is_fpf_involution() == fpf, 'is_fpf_involution')
    cyc = sum(b(at(xs, i + 1) > i + 1) for i in range(n)) if not signed else len(w.pair()) + len(w.neg())
    sx.check(w.involution_length * 2 == ref_len(xs) + cyc, 'involution length')
    if not signed:
        sx.check(w.involution_code() == tuple(sum(b((xs[j] < xs[i]) & (xs[j] <= i + 1)) for j in range(i + 1, n)) for i in range(r)), 'involution code')
        sx.check(sum(w.involution_code()) == w.involution_length, 'involution code sums to the length')
        dg = w.involution_rothe_diagram()
        sx.check(dg == [(i, j) for (i, j) in w.rothe_diagram() if i >= j] and len(dg) == w.involution_length, 'involution Rothe diagram')
        sx.check(sum(w.involution_shape()) == w.involution_length, 'involution shape')
        if fpf and r:
            sx.check(w.fpf_involution_length * 2 == ref_len(xs) - r // 2, 'fpf length')
            sx.check(sum(w.fpf_involution_code()) == w.fpf_involution_length, 'fpf code sums to the length')
            sx.check(len(w.fpf_rothe_diagram()) == w.fpf_involution_length, 'fpf Rothe diagram')
            sx.check(sum(w.fpf_involution_shape()) == w.fpf_involution_length, 'fpf shape')
    for i in range(0 if signed else 1, n):
        s = Permutation.s_i(i)
        v = w * s if s * w == w * s else s * w * s
        up = i not in w.right_descent_set
        sx.check(v.is_involution() and (v.involution_length == w.involution_length + (1 if up else -1)), 'involution length steps by one')


def products(sx, n, signed):
    xs, ys = line(sx, n, signed, 'u'), line(sx, n, signed, 'v')
    u, v = Permutation(*xs), Permutation(*ys)
    uv = u * v
    is_map(sx, uv, lambda i: at(xs, at(ys, i)), n, 'product is composition')
    same = all(x == y for x, y in zip(xs, ys))
    sx.check((u == v) == same, 'equality')
    sx.check(uv.inverse() == v.inverse() * u.inverse(), 'inverse of a product')
    if not signed:
        # the order is lexicographic in one-line notation without trailing fixed points
        a, c = u.oneline, v.oneline
        sx.check((u < v) == (a < c), 'order')


def steps(sx, n, signed):
    """length and descents from multiplication by simple reflections, one at a time"""
    xs = line(sx, n, signed)
    w = Permutation(*xs)
    for i in range(0 if signed else 1, n + 1):
        s = Permutation.s_i(i)
        is_map(sx, s, lambda k: {i: i + 1, i + 1: i}.get(k, k) if i else (-1 if k == 1 else k), n + 1, 's_i')
        up = i not in w.right_descent_set
        sx.check(len(w * s) == len(w) + (1 if up else -1), 'w s_i')
        sx.check((w % s) == (w * s if up else w), 'Demazure product with a simple reflection on the right')
        up = i not in w.left_descent_set
        sx.check(len(s * w) == len(w) + (1 if up else -1), 's_i w')
        sx.check((s % w) == (s * w if up else w), 'Demazure product with a simple reflection on the left')


def demazure(sx, n, signed):
    xs, ys, zs = (line(sx, n, signed, t) for t in 'uvw')
    u, v, w = Permutation(*xs), Permutation(*ys), Permutation(*zs)
    sx.check((u % v) % w == u % (v % w), 'Demazure product is associative')


def demazure2(sx, n, signed):
    xs, ys = line(sx, n, signed, 'u'), line(sx, n, signed, 'v')
    u, v = Permutation(*xs), Permutation(*ys)
    p = u % v
    sx.check(p.inverse() == v.inverse() % u.inverse(), 'Demazure product and inverses')
    sx.check((len(p) >= len(u)) and (len(p) >= len(v)) and (len(p) <= len(u) + len(v)), 'length of a Demazure product')
    sx.check((p == u * v) == (len(u * v) == len(u) + len(v)), 'ordinary product when lengths add')
    sx.check((u % Permutation() == u) and (Permutation() % v == v), 'unit')


def powers(sx, n, signed, lo, hi):
    xs = line(sx, n, signed)
    w = Permutation(*xs)
    k = sx.pick('k', lo, hi)
    p = Permutation()
    for _ in range(abs(k)):
        p = p * (w if k > 0 else w.inverse())
    sx.check(w ** k == p, 'power')


def reflections(sx, n):
    i, j = sx.pick('i', 1, n), sx.pick('j', 1, n)
    if i != j:
        is_map(sx, Permutation.transposition(i, j), lambda k: {i: j, j: i}.get(k, k), n, 'transposition')
    if i <= j:
        is_map(sx, Permutation.reflection_s(i, j), lambda k: {i: -j, j: -i}.get(k, k), n, 'negating reflection')
    is_map(sx, Permutation.reflection_s(i), lambda k: -i if k == i else k, n, 'sign change')
    m = sx.pick('m', 0, n)
    is_map(sx, Permutation.longest_element(m), lambda k: m + 1 - k if k <= m else k, n, 'longest element')
    is_map(sx, Permutation.longest_element(m, True), lambda k: -k if k <= m else k, n, 'longest signed element')
    if m % 2 == 0:
        is_map(sx, Permutation.minfpf(m), lambda k: k if k > m else (k + 1 if k % 2 else k - 1), n, 'minimal fixed-point-free involution')


def cycles(sx, n):
    k = sx.pick('k', 1, n)
    cs = [sx.pick('c%d' % t, 1, n) for t in range(k)]
    sx.assume(len(set(cs)) == k)
    is_map(sx, Permutation.cycle(*cs), lambda i: cs[(cs.index(i) + 1) % k] if i in cs else i, n, 'cycle')


def listing(sx, n, signed):
    """all(n) and involutions(n) list each element once"""
    xs = line(sx, n, signed)
    ws = [w.oneline for w in Permutation.all(n, signed)]
    full = [tuple(w) + tuple(range(len(w) + 1, n + 1)) for w in ws]
    sx.check(sum(b(all(x == y for x, y in zip(xs, t))) for t in full) == 1, 'every permutation is listed once')
    inv = all(at(xs, xs[i]) == i + 1 for i in range(n))
    for w in Permutation.involutions(n, signed):
        sx.check(w.is_involution(), 'involution')
    full = [tuple(w.oneline) + tuple(range(w.rank + 1, n + 1)) for w in Permutation.involutions(n, signed)]
    sx.check(sum(b(all(x == y for x, y in zip(xs, t))) for t in full) == b(inv), 'every involution is listed once')
    if not signed:
        fpf = inv and all(xs[i] != i + 1 for i in range(n))
        for gen in (Permutation.fpf_involutions(n), Permutation.involutions(n, fpf=True)):
            full = [tuple(w.oneline) for w in gen]
            sx.check(all(len(t) == n for t in full), 'full length')
            if n % 2:
                sx.check(not full, 'no fixed-point-free involution')
            else:
                sx.check(sum(b(all(x == y for x, y in zip(xs, t))) for t in full) == b(fpf), 'every fixed-point-free involution is listed once')


def covers(sx, n, signed):
    """y is listed as a cover exactly when y = w t for a reflection t and the length drops by one"""
    xs, ys = line(sx, n, signed, 'w'), line(sx, n, signed, 'y')
    w = Permutation(*xs)
    full = [tuple(c.oneline) + tuple(range(c.rank + 1, n + 1)) for c in w.bruhat_covers()]
    lines = []
    for i in range(n):
        for j in range(i + 1, n):
            lines.append(xs[:i] + [xs[j]] + xs[i + 1:j] + [xs[i]] + xs[j + 1:])
            if signed:
                lines.append(xs[:i] + [-xs[j]] + xs[i + 1:j] + [-xs[i]] + xs[j + 1:])
        if signed:
            lines.append(xs[:i] + [-xs[i]] + xs[i + 1:])
    want = any(all(p == y for p, y in zip(t, ys)) for t in lines)
    drop = ref_len(ys) == ref_len(xs) - 1
    sx.check(sum(b(all(p == y for p, y in zip(t, ys))) for t in full) == b(want & drop), 'Bruhat covers')


def transitions(sx, n):
    xs = line(sx, n, False)
    w = Permutation(*xs)
    r = sx.pick('r', 1, n + 1)
    up = list(w.upper_transitions(r))
    for j in range(r + 1, n + 4):
        sx.check((j in up) == ((at(xs, r) < at(xs, j)) and not any((at(xs, r) < at(xs, k)) & (at(xs, k) < at(xs, j)) for k in range(r + 1, j))), 'upper transitions')
    low = list(w.lower_transitions(r))
    for i in range(1, r):
        sx.check((i in low) == ((at(xs, i) < at(xs, r)) and not any((at(xs, i) < at(xs, k)) & (at(xs, k) < at(xs, r)) for k in range(i + 1, r))), 'lower transitions')
    sx.check(len(up) == len(set(up)) and len(low) == len(set(low)) and all(r < j for j in up) and all(0 < i < r for i in low), 'range of transitions')


def bruhat_le(x, y):
    """Bruhat order on permutations by the rank criterion"""
    n = max(x.rank, y.rank)
    return all(sum(1 if x(i) >= k else 0 for i in range(1, m + 1)) <= sum(1 if y(i) >= k else 0 for i in range(1, m + 1))
               for m in range(1, n) for k in range(1, n + 1))


def involution_order(sx, n):
    """involution covers are the Bruhat-comparable pairs of involutions whose lengths differ by one; transitions produce them"""
    xs, ys = line(sx, n, False, 'y'), line(sx, n, False, 'z')
    for i in range(n):
        sx.assume(at(xs, xs[i]) == i + 1)
        sx.assume(at(ys, ys[i]) == i + 1)
    y, z = Permutation(*xs), Permutation(*ys)
    cover = (y.involution_length + 1 == z.involution_length) and bruhat_le(y, z)
    sx.check(sum(1 if c == y else 0 for c in z.involution_bruhat_covers()) == (1 if cover else 0), 'involution Bruhat covers')
    taus = [y.tau(r, j) for r in range(1, n + 1) for j in y.upper_involution_transitions(r)]
    low = [y.tau(i, r) for r in range(1, n + 1) for i in y.lower_involution_transitions(r)]
    sx.check(any(t == z for t in taus) == cover, 'upper transitions reach exactly the covers')
    sx.check(any(t == z for t in low) == cover, 'lower transitions reach exactly the covers')
    if y.is_fpf_involution() and z.is_fpf_involution() and y.rank == n and z.rank == n and n % 2 == 0:
        cover = (y.fpf_involution_length + 1 == z.fpf_involution_length) and bruhat_le(y, z)
        got = []
        for c in z.fpf_involution_bruhat_covers():
            for k in range(c.rank, n, 2):
                c = c * Permutation.s_i(k + 1)
            got.append(c)
        sx.check(sum(1 if c == y else 0 for c in got) == (1 if cover else 0), 'fixed-point-free Bruhat covers')
        t = [Permutation.transposition(r, j) for r in range(1, n + 1) for j in y.upper_fpf_involution_transitions(r) if j <= n]
        sx.check(any(c * y * c == z for c in t) == cover, 'fixed-point-free transitions reach exactly the covers')
        t = [Permutation.transposition(i, r) for r in range(1, n + 1) for i in y.lower_fpf_involution_transitions(r)]
        sx.check(any(c * y * c == z for c in t) == cover, 'fixed-point-free lower transitions reach exactly the covers')


def inv_stats(t):
    """(inversions, two-cycles) of a one-line word"""
    return (sum(1 if t[i] > t[j] else 0 for i in range(len(t)) for j in range(i + 1, len(t))),
            sum(1 if t[i] > i + 1 else 0 for i in range(len(t))))


def conjugate(t, i, j):
    """one-line word of (i j) t (i j)"""
    s = list(range(1, len(t) + 1))
    s[i - 1], s[j - 1] = j, i
    return [s[t[s[k] - 1] - 1] for k in range(len(t))]


def transition_lists(sx, n):
    """the lists of transition indices, position by position, also those leaving 1..n"""
    ys = [sx.pick('y%d' % i, 1, n) for i in range(n)]
    for i in range(n):
        sx.assume(ys[ys[i] - 1] == i + 1)
    y = Permutation(*ys)
    m = y.rank
    inv, cyc = inv_stats(ys)
    sx.check(y.involution_length * 2 == inv + cyc, 'involution length')
    for r in range(1, n + 1):
        up, low = [], []
        for j in range(1, max(m, r) + 3):
            a, b = min(r, j), max(r, j)
            if a != b:
                z = y.tau(a, b)
                line = [z(k) for k in range(1, max(m, r) + 4)]
                ok = sum(inv_stats(line)) == inv + cyc + 2
                if ok:
                    (up if j > r else low).append(j)
        sx.check(list(y.upper_involution_transitions(r)) == up, 'upper involution transitions')
        sx.check(list(y.lower_involution_transitions(r)) == low, 'lower involution transitions')
    if m == n and all(ys[i] != i + 1 for i in range(n)):
        big = ys + [n + 2, n + 1, n + 4, n + 3]
        base = inv_stats(big)[0]
        for r in range(1, n + 1):
            up = [j for j in range(r + 1, n + 5) if inv_stats(conjugate(big, r, j))[0] == base + 2]
            low = [i for i in range(1, r) if inv_stats(conjugate(big, i, r))[0] == base + 2]
            sx.check(list(y.upper_fpf_involution_transitions(r)) == up, 'upper fixed-point-free transitions')
            sx.check(list(y.lower_fpf_involution_transitions(r)) == low, 'lower fixed-point-free transitions')


def parts(sx, n, top, strict):
    xs = [sx.pick('m%d' % i, 0, top) for i in range(n)]
    sx.assume(is_strict_part(xs) if strict else all(xs[i] >= xs[i + 1] for i in range(n - 1)))
    return tuple(x for x in xs if x)


def grassmannian(sx, n, top):
    mu = parts(sx, n, top, False)
    w = Permutation.get_grassmannian(*mu)
    sx.check(w.is_unsigned() and len(w.left_descent_set) <= 1 and w.shape() == mu and len(w) == sum(mu) and w.is_grassmannian(), 'Grassmannian permutation')


def inv_grassmannian(sx, n, top):
    mu = parts(sx, n, top, True)
    w = Permutation.get_inv_grassmannian(*mu)
    sx.check(w.is_involution() and w.involution_shape() == mu and w.involution_length == sum(mu) and w.is_inv_grassmannian(), 'I-Grassmannian involution')
    w = Permutation.get_fpf_grassmannian(*mu)
    sx.check(w.is_fpf_involution() and w.fpf_involution_shape() == mu and w.fpf_involution_length == sum(mu), 'FPF-Grassmannian involution')


def grassmannian_lists(sx, n, length):
    """one (I-, FPF-)Grassmannian element for each (strict) shape inside the staircase"""
    kind = sx.choose('kind', ['plain', 'involution', 'fpf'])
    m = n + n % 2 if kind == 'fpf' else n
    if kind == 'plain':
        got, delta = [w.shape() for w in Permutation.grassmannians(m)], list(range(m - 1, 0, -1))
        sx.check(all(w.is_grassmannian() for w in Permutation.grassmannians(m)), 'listed elements are Grassmannian')
    elif kind == 'involution':
        got, delta = [w.involution_shape() for w in Permutation.inv_grassmannians(m)], list(range(m - 1, 0, -2))
        sx.check(all(w.is_inv_grassmannian() for w in Permutation.inv_grassmannians(m)), 'listed elements are I-Grassmannian')
    else:
        got, delta = [w.fpf_involution_shape() for w in Permutation.fpf_grassmannians(m)], list(range(m - 2, 0, -2))
        sx.check(all(w.is_fpf_involution() for w in Permutation.fpf_grassmannians(m)), 'listed elements are fixed-point-free')
    x = sx.ints('x', length)
    delta = delta + [0] * length
    ok = all((x[i] > 0) & (x[i] <= delta[i]) for i in range(length))
    for i in range(length - 1):
        ok = ok & ((x[i] >= x[i + 1]) if kind == 'plain' else (x[i] > x[i + 1]))
    mine = [mu for mu in got if len(mu) == length]
    sx.check(sum([ind(all(a == b for a, b in zip(mu, x))) for mu in mine]) == ind(ok), 'each shape inside the staircase once')


def fpf_grassmannian_test(sx, n, signed):
    xs = line(sx, n, signed)
    w = Permutation(*xs)
    full = (w.is_unsigned() and w.is_fpf_involution())
    if w.is_fpf_grassmannian():
        sx.check(full, 'only fixed-point-free involutions are FPF-Grassmannian')


def jobs(tier):
    out = []
    big = tier != 'quick'

    def add(f, *a, **kw):
        out.append(dict({'f': f, 'args': list(a)}, **kw))
    for n, s in [(0, False), (1, True), (2, True), (3, False), (4, False), (3, True)]:
        add('elements', n, s)
        add('statistics', n, s)
        if n:
            add('steps', n, s)
        add('involution_stats', n, s)
        add('listing', n, s)
        if n < 4:
            add('powers', n, s, -4, 5)
    for lo in range(-20, 21, 10):
        add('powers', 3, False, lo, min(lo + 9, 20))
    for lo in range(6, 20, 2):
        add('powers', 4, False, lo, lo + 1)
    if big:
        add('powers', 4, False, 20, 45)
        add('powers', 2, True, -45, 45)
    add('statistics', 5, False)
    add('involution_stats', 5, False)
    add('listing', 5, False)
    add('involution_stats', 6, False)
    for n, s in [(1, True), (2, True), (3, False), (4, False)] + ([(3, True)] if big else []):
        add('products', n, s)
    for n, s in [(2, True), (3, False)] + ([(4, False)] if big else []):
        add('demazure2', n, s)
    add('demazure', 3, False)
    add('demazure', 2, True)
    for n in (1, 2, 3, 4):
        add('reflections', n)
        add('cycles', n)
    for n, s in [(2, True), (3, False), (4, False), (3, True)]:
        add('covers', n, s)
    for n in (1, 2, 3, 4):
        add('transitions', n)
        add('involution_order', n)
        add('transition_lists', n)
    add('transition_lists', 5)
    if big:
        add('transitions', 5)
        add('involution_order', 5)
        add('transition_lists', 6)
    add('grassmannian', 3, 4)
    add('inv_grassmannian', 3, 4)
    for n in range(0, 6):
        for length in range(0, n + 1):
            add('grassmannian_lists', n, length)
    for n, s in ((3, False), (4, False), (2, True)):
        add('fpf_grassmannian_test', n, s)
    return out
