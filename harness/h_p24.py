"""Printed forms show exactly the object: they can be read back."""
import crystals
from permutations import Permutation
from partitions import Partition
from tableaux import Tableau
from words import Word
from symmetric import SymmetricMonomial, SymmetricPolynomial
from polynomials import beta
from vst import ValuedSetTableau
from boxes import BoxOperator
from crystals import TableauCrystalGenerator, WordCrystalGenerator

BOUNDS = ('permutations of 4 letters and signed permutations of 3 letters (also of 11 letters with up to 2 arbitrary swaps); tableaux with up to 2 boxes at '
          'positions up to 3 and up to 2 entries a box in -2..11; partitions with up to 3 parts of size up to 3; diagrams of up to 2 boxes in positions up to 3; words '
          'of up to 3 letters in 1..3 (thorough 4); symmetric polynomials of up to 2 terms with coefficients in -2..2; valued-set tableaux of up to 3 boxes; box '
          'operators with up to 2 terms of 2 letters; crystals of up to 3 boxes')
OUTSIDE = 'larger objects; spacing that does not affect what is shown; the pictures made by graphviz'


def line(sx, n, signed, tag='w'):
    xs = []
    for i in range(n):
        x = sx.int('%s%d' % (tag, i + 1), -n if signed else 1, n)
        for y in xs:
            sx.assume((x != y) & (x != -y))
        if signed:
            sx.assume(x != 0)
        xs.append(x)
    return xs


def strip(xs):
    xs = list(xs)
    while xs and xs[-1] == len(xs):
        xs = xs[:-1]
    return tuple(xs)


def read_digits(s):
    if ',' in s:
        return tuple(int(c) for c in s.split(','))
    ans, sign = [], 1
    for c in s:
        if c == '-':
            sign = -1
        else:
            ans.append(sign * int(c))
            sign = 1
    return tuple(ans)


def read_cycles(s, n):
    if s == '1':
        return ()
    xs = list(range(1, n + 1))
    assert s[0] == '(' and s[-1] == ')'
    for c in s[1:-1].split(')('):
        c = [int(a) for a in c.split(', ')]
        for i in range(len(c)):
            xs[c[i] - 1] = c[(i + 1) % len(c)]
    return strip(xs)


def perm_texts(sx, w, xs):
    n = len(xs)
    want = strip(xs)
    if all(x > 0 for x in xs):
        sx.check(read_cycles(str(w), n) == want, 'cycles')
        sx.check(w.cycle_repr() == str(w), 'cycle form')
    else:
        sx.check(read_digits(str(w)) == want, 'one-line form')
    sx.check(read_digits(w.oneline_repr()) == want, 'one-line form on request')
    t = w.tex()
    if want:
        sx.check(t[0] == '$' and t[-1] == '$', 'tex')
        got = tuple(-int(a[4:]) if a[:4] == '\\bar' else int(a) for a in t[1:-1].split('\\hs '))
        sx.check(got == want, 'tex one-line form')


def perm_text(sx, n, signed):
    xs = line(sx, n, signed)
    perm_texts(sx, Permutation(*xs), [x for x in xs])


def long_perm_text(sx, n):
    xs = list(range(1, n + 1))
    for k in range(2):
        i = sx.pick('i%d' % k, 0, n - 1)
        if i:
            xs[i - 1], xs[i] = xs[i], xs[i - 1]
        elif k:
            xs[0] = -xs[0]
    perm_texts(sx, Permutation(*xs), xs)


def diagram_text(sx, boxes):
    diagram = []
    for k in range(boxes):
        diagram.append((sx.pick('a%d' % k, 1, 3), sx.pick('b%d' % k, 1, 3)))
    french = sx.pick('french', 0, 1) == 1
    sep = sx.choose('sep', [' ', '.'])
    s = Permutation.print_diagram(diagram, french=french, sep=sep)
    rows = s.split('\n') if s else []
    if french:
        rows = rows[::-1]
    got = sorted((i + 1, j + 1) for i in range(len(rows)) for j in range(len(rows[i])) if rows[i][j] == '*')
    sx.check(got == sorted(set(diagram)), 'boxes of the diagram')
    sx.check(all(c in ('*', sep) for r in rows for c in r), 'only boxes and separators')


def cell(v):
    return ','.join(str(-x) + "'" if x < 0 else str(x) for x in sorted(v, key=lambda x: (abs(x), x)))


def tableau_text(sx, sizes):
    boxes = {}
    for k in range(len(sizes)):
        b = (sx.pick('r%d' % k, 1, 3), sx.pick('c%d' % k, 1, 3))
        sx.assume(b not in boxes)
        v = tuple(sx.pick('v%d_%d' % (k, m), -2, 11) for m in range(sizes[k]))
        for x in v:
            sx.assume(x != 0)
        boxes[b] = v
    t = Tableau(dict(boxes))
    s = str(t)
    sx.check(str(Tableau(dict(reversed(list(boxes.items()))))) == s, 'same text from boxes in another order')
    rows = [r for r in s.split('\n') if r.strip()]
    m, n = max(b[0] for b in boxes), max(b[1] for b in boxes)
    sx.check(len(rows) == m and all(len(r.split()) == n for r in rows), 'one line a row, one cell a column')
    for i in range(m):
        cells = rows[m - 1 - i].split()
        for j in range(n):
            sx.check(cells[j] == (cell(boxes[i + 1, j + 1]) if (i + 1, j + 1) in boxes else '.'), 'cell (bottom row first)')
    # columns line up
    for i in range(m):
        for j in range(n):
            sx.check(start(rows[i], j) == start(rows[0], j), 'columns are aligned')
    # text input, top row first
    texts = [' '.join(cell(boxes[i, j]) if (i, j) in boxes else '.' for j in range(1, n + 1)) for i in range(1, m + 1)]
    sx.check(Tableau('; '.join(texts)) == t and Tableau('\n'.join(texts)) == t, 'tableau read from text')
    tex = t.tex().split('\n')
    sx.check(tex[0] == '\\begin{ytableau}' and tex[-1] == '\\end{ytableau}', 'tex frame')
    got = [r.split(' & ') for r in tex[1:-1] if r != '\\\\']
    want = [[','.join(str(x) for x in sorted(boxes[i, j])) for j in range(1, n + 1) if (i, j) in boxes] for i in range(m, 0, -1)]
    sx.check(got == [r for r in want if r], 'tex rows')


def start(s, j):
    """where the j-th cell of a line starts"""
    k = -1
    for i in range(len(s)):
        if s[i] != ' ' and (i == 0 or s[i - 1] == ' '):
            k += 1
            if k == j:
                return i


def part(sx, tag, n, top, strict):
    ans = []
    for i in range(n):
        hi = top if not ans else ans[-1] - (1 if strict else 0)
        if hi < 1:
            break
        x = sx.pick('%s%d' % (tag, i), 0, hi)
        if not x:
            break
        ans.append(x)
    return tuple(ans)


def shape_rows(nu, mu, shifted):
    ans = []
    for i, a in enumerate(nu):
        x = mu[i] if i < len(mu) else 0
        ans.append(((i * '  ') if shifted else '') + x * '. ' + (a - x) * '* ')
    return [r.rstrip() for r in reversed(ans)]


def shape_text(sx, n, top):
    shifted = sx.pick('shifted', 0, 1) == 1
    nu = part(sx, 'n', n, top, shifted)
    mu = part(sx, 'm', n, top, shifted)
    sx.assume(len(mu) <= len(nu) and all(mu[i] <= nu[i] for i in range(len(mu))))
    s = Partition.printable(nu, mu, shifted)
    sx.check([r.rstrip() for r in (s.split('\n') if s else [])] == shape_rows(nu, mu, shifted), 'skew diagram')
    sx.check(len({len(r) for r in s.split('\n')}) == 1, 'lines of one width')
    s = Partition.printable(nu, None, shifted)
    sx.check([r.rstrip() for r in (s.split('\n') if s else [])] == shape_rows(nu, (), shifted), 'diagram')


def shapes_text(sx, n, top):
    """diagrams side by side, bottom rows level"""
    shifted = sx.pick('shifted', 0, 1) == 1
    mus = [part(sx, tag, n, top, shifted) for tag in 'ab'[:sx.pick('count', 1, 2)]]
    s = (Partition.shifted_printables if shifted else Partition.printables)(*mus)
    rows = s.split('\n')
    sx.check(len(rows) == max([1] + [len(mu) for mu in mus]), 'number of lines')
    gap = '   ->    '
    for k in range(len(mus)):
        got = [r.split(gap)[k] for r in rows if len(r.split(gap)) == len(mus)]
        sx.check(len(got) == len(rows), 'each line shows all diagrams')
        want = shape_rows(mus[k], (), shifted)
        want = (len(rows) - len(want)) * [''] + want
        sx.check([r.rstrip() for r in got] == want, 'diagram in a row of diagrams')
        sx.check(k > 0 or len({len(r) for r in got}) == 1, 'gaps are aligned')


BAR, BOX, CROSS, ARC = '\u2502', '\u2588', '\u2573', '\u2570\u2500\u2500\u2500\u256f'


def wiring(sx, length, top, kind):
    """reading a wiring diagram from the bottom gives the word"""
    word = []
    for k in range(length):
        a = sx.pick('a%d' % k, 0 if kind == 'plain' else 1, top)
        word.append(a if a else None)
    word = tuple(word)
    letters = [a for a in word if a is not None]
    n = max(letters) + 1 if letters else 1
    labels = sx.pick('labels', 0, 1) == 1
    labels = ['L%d' % k for k in range(length + 1)] if labels else None
    if kind == 'fpf':
        sx.assume(all(a is not None for a in word))
        s = Word.fpf_involution_wiring_diagram(word, labels)
    elif kind == 'involution':
        s = Word.involution_wiring_diagram(word, labels)
    else:
        s = Word.wiring_diagram(word, labels)
    lines = s.split('\n')
    sx.check(lines[0] == '' and lines[-1] == '', 'blank lines around')
    size = n + n % 2 if kind == 'fpf' else n
    sx.check(lines[-2].split() == [str(i) for i in range(1, size + 1)], 'numbers of the wires')
    got = []
    extra = 3 if kind == 'fpf' else 0
    sx.check(len(lines) == 5 + 4 * length + extra, 'four lines a letter')
    for k in range(length):
        block = lines[2 + 4 * k: 6 + 4 * k]
        index = length - k
        sx.check(block[1].rstrip().endswith(str(index) + (': ' + labels[index] if labels else '')), 'number and label of the letter')
        at = [j for j in range(len(block[1])) if block[1][j] == CROSS]
        arc = [j for j in range(len(block[3])) if block[3][j:j + 5] == ARC]
        a = word[index - 1]
        if kind == 'involution' and arc:
            sx.check(not at and arc == [4 * (a - 1)], 'joined wires')
            sx.check(all(block[r][4 * (a - 1)] == BAR and block[r][4 * a] == BAR for r in range(3)), 'the joined wires go straight')
            got.append(arc[0] // 4 + 1)
        else:
            sx.check(at == ([4 * (a - 1) + 2] if a is not None else []), 'crossing')
            got.append((at[0] - 2) // 4 + 1 if at else None)
            if a is not None:
                sx.check(block[0][4 * (a - 1):4 * a + 1].rstrip() == ' \u2572 \u2571', 'top of the crossing')
                sx.check(block[2][4 * (a - 1):4 * a + 1].rstrip() == ' \u2571 \u2572', 'bottom of the crossing')
            if kind != 'involution':
                for i in range(1, size + 1):
                    if a is None or i not in (a, a + 1):
                        sx.check(all(block[r][4 * (i - 1)] == BAR for r in range(3)), 'other wires go straight')
                    sx.check(block[3][4 * (i - 1)] == BOX, 'nodes below the letter')
    sx.check(tuple(reversed(got)) == word, 'word of the diagram')
    if kind == 'involution':
        # wires are joined exactly where the letter commutes with the involution so far
        y = Permutation()
        for k in range(length):
            s = Permutation.s_i(word[k])
            block = lines[2 + 4 * (length - 1 - k): 6 + 4 * (length - 1 - k)]
            joins = any(block[3][j:j + 5] == ARC for j in range(len(block[3])))
            sx.check(joins == (s * y * s == y), 'wires joined at commuting letters')
            y = y * s if s * y * s == y else s * y * s
    if kind == 'fpf':
        y = Permutation()
        for i in range(1, size, 2):
            y = y * Permutation.s_i(i)
        cyc = [(i, i + 1) for i in range(1, size, 2)]
        for a in word:
            s = Permutation.s_i(a)
            cyc = [tuple(sorted((s(p), s(q)))) for p, q in cyc]
        bottom = lines[-4]
        for i in range(size // 2):
            crossed = any(cyc[i][0] < c[0] < cyc[i][1] for c in cyc)
            sx.check(bottom[8 * i: 8 * i + 5] == (ARC if crossed else BOX + '   ' + BOX), 'bottom wires joined')


def read_terms(s):
    """a linear combination of m[...]s as printed, with integer or beta coefficients"""
    if s == '0':
        return {}
    if s[0] == '-':
        s = ' - ' + s[1:]
    else:
        s = ' + ' + s
    ans = {}
    terms, depth, cur = [], 0, ''
    i = 0
    while i < len(s):
        if depth == 0 and s[i:i + 3] in (' + ', ' - '):
            if cur:
                terms.append(cur)
            cur = s[i + 1]
            i += 3
            continue
        if s[i] in '([':
            depth += 1
        if s[i] in ')]':
            depth -= 1
        cur += s[i]
        i += 1
    terms.append(cur)
    for t in terms:
        sign, t = (-1 if t[0] == '-' else 1), t[1:]
        c, key = t.rsplit('*', 1) if '*' in t else ('1', t)
        assert key not in ans
        ans[key] = (sign, c)
    return ans


def symmetric_text(sx, mus, n):
    cs = [sx.pick('c%d' % k, -2, 2) for k in range(len(mus))]
    b = sx.pick('beta', 0, 1)
    terms = [(SymmetricMonomial(n, tuple(mu)), c * beta if b and k == 0 and c else c) for k, (mu, c) in enumerate(zip(mus, cs))]
    f = SymmetricPolynomial(dict(terms))
    g = SymmetricPolynomial(dict(reversed(terms)))
    s = str(f)
    sx.check(f == g and s == str(g), 'same text whatever the order of the terms')
    got = read_terms(s)
    want = {}
    for (mon, c), k in zip(terms, cs):
        if k:
            key = 'm[%s;%d]' % (','.join(str(a) for a in mon.mu), n) if len(mon.mu) else '1'
            want[key] = c
    sx.check(sorted(got) == sorted(want), 'the monomials shown')
    for key in want:
        sign, c = got[key]
        c = c[1:-1] if c[0] == '(' else c
        if type(want[key]) == int:
            sx.check(sign * int(c) == want[key], 'integer coefficient')
        else:
            sx.check(str(want[key]) == ('-' if sign < 0 else '') + c, 'beta coefficient')


def vst_text(sx, cells, top):
    """two valued-set tableaux that print alike are equal; the text shows entries and joins"""
    boxes = {}
    cells = [tuple(c) for c in cells]
    for k, c in enumerate(cells):
        v = sx.pick('v%d' % k, -top, top)
        sx.assume(v != 0)
        boxes[c] = v
    flags = {}
    for k, (i, j) in enumerate(cells):
        flags[i, j] = sx.pick('f%d' % k, 0, 1)
        if flags[i, j]:
            nb = (i, j + 1) if boxes[i, j] > 0 else (i - 1, j)
            sx.assume(nb in boxes and boxes[nb] == boxes[i, j])
    t = ValuedSetTableau(Tableau(dict(boxes)), Tableau(dict(flags)))
    s = str(t)
    rows = s.split('\n')[2:-2]
    m, n = max(i for i, j in cells), max(j for i, j in cells)
    sx.check(len(rows) == 2 * m + 1, 'lines')
    rows = rows[::-1]
    w = max([2] + [len(cell((boxes[c],))) for c in cells])
    for (i, j) in cells:
        lo = 1 + (j - 1) * (w + 1)
        inside = rows[2 * i - 1][lo:lo + w]
        sx.check(inside.strip() == cell((boxes[i, j],)), 'entry')
        right = rows[2 * i - 1][lo + w]
        joined = (flags[i, j] and boxes[i, j] > 0) == 1
        sx.check(right == (' ' if joined else BAR), 'wall to the right')
        below = rows[2 * i - 2][lo:lo + w]
        joined = (flags[i, j] and boxes[i, j] < 0) == 1
        sx.check(below == (' ' if joined else '\u2500') * w, 'wall to the row before')
    sx.check(str(ValuedSetTableau(Tableau(dict(boxes)), Tableau(dict(flags)))) == s and str(t) == s, 'the text does not change')


def boxes_text(sx, lengths):
    keys = []
    for k in range(len(lengths)):
        keys.append((sx.pick('b%d' % k, 0, 2),) + tuple(sx.pick('l%d_%d' % (k, m), -2, 2) for m in range(lengths[k])))
    for i in range(len(keys)):
        for j in range(i):
            sx.assume(keys[i] != keys[j])
    cs = [sx.pick('c%d' % k, -2, 2) for k in range(len(keys))]
    f, g = BoxOperator(), BoxOperator()
    for key, c in zip(keys, cs):
        f = f + BoxOperator(*key) * c
    for key, c in reversed(list(zip(keys, cs))):
        g = g + BoxOperator(*key) * c
    sx.check(str(f) == str(g), 'same text whatever the order of the terms')
    want = {}
    for key, c in zip(keys, cs):
        if c:
            bb = ['', '\u03b2', '\u03b2^2'][key[0]]
            words = ([bb] if bb else []) + ['r%d' % a if a >= 0 else 'c%d' % -a for a in key[1:]]
            want[' '.join(words)] = c
    s = str(f)
    if '' in want:
        # the identity is shown by its coefficient alone
        c = want.pop('')
        rest = read_terms(s)
        lone = [k for k in rest if k not in want]
        sx.check(lone == [str(abs(c))] and rest.pop(lone[0])[0] == (1 if c > 0 else -1), 'multiple of the identity')
        got = rest
    else:
        got = read_terms(s)
    sx.check({k: v[0] * int(v[1]) for k, v in got.items()} == want, 'terms of the operator')


class Recorder:
    """stands in for a file and for graphviz: only records"""

    def __init__(self):
        self.files = {}
        self.calls = []

    def open(self, name, mode='r'):
        rec = self

        class F:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def write(self, s):
                rec.files[name] = rec.files.get(name, '') + s
        return F()

    def run(self, args, **kw):
        self.calls.append(list(args))


def dot_text(sx, kind):
    rec = Recorder()
    if kind == 'tableau':
        cg = TableauCrystalGenerator(sx.choose('mu', [(1,), (2,), (2, 1), (1, 1)]), 3 if sx.pick('top', 0, 1) else 2)
    else:
        cg = WordCrystalGenerator(*word_args(sx))
    crystals.open, old = rec.open, crystals.subprocess
    crystals.subprocess = rec
    try:
        cg.generate()
    finally:
        crystals.subprocess = old
        del crystals.open
    comps = cg.components
    sx.check(len(rec.files) == len(comps) + 1 and len(rec.calls) == len(comps) + 1, 'one file a component and one for all')
    sx.check(sorted(c[2] for c in rec.calls) == sorted(rec.files), 'a picture is requested of every file')
    shown = []
    for text in rec.files.values():
        sx.check(text.startswith('digraph G {') and text.endswith('}'), 'frame')
        shown.append(sorted(x.strip() for x in text.split('];') if ' -> ' in x))
    want = []
    for comp in list(comps) + [range(len(cg))]:
        want.append(sorted('"%s" -> "%s" [label="%s"' % (cg.node_label(x), cg.node_label(y), j) for (x, y, j) in cg.edges if x in comp))
    sx.check(sorted(shown) == sorted(want), 'arrows of each component')


def word_args(sx):
    w = sx.choose('w', [(2, 1), (3, 1, 2), (3, 2, 1)])
    return w, sx.pick('k', 1, 2), sx.pick('l', 2, 3), sx.pick('dec', 0, 1) == 1


def jobs(tier):
    out = []
    big = tier != 'quick'

    def add(f, *a, **kw):
        out.append(dict({'f': f, 'args': list(a)}, **kw))
    for n, s in [(0, False), (1, True), (2, True), (3, False), (4, False), (3, True)]:
        add('perm_text', n, s)
    add('long_perm_text', 11)
    for b in (0, 1, 2) + ((3,) if big else ()):
        add('diagram_text', b)
    for sizes in [(1,), (2,), (1, 1)] + ([(3,), (2, 1)] if big else []):
        add('tableau_text', sizes)
    add('shape_text', 3, 3)
    add('shapes_text', 3, 3)
    for kind in ('plain', 'involution', 'fpf'):
        for length in range(0, 4 + big):
            add('wiring', length, 3 + big, kind)
    for mus in ([()], [(1,)], [(2, 1), (1,)], [(), (3,)], [(1, 1), (2,)], [(2, 2), (3, 1)]):
        add('symmetric_text', mus, 3)
    for cells in [((1, 1),), ((1, 1), (1, 2)), ((1, 1), (1, 2), (2, 2)), ((1, 1), (1, 2), (1, 3)), ((1, 2), (1, 3), (2, 2))]:
        add('vst_text', cells, 2 if len(cells) < 3 else 1)
    add('vst_text', ((1, 1), (1, 2)), 11, soft=True)
    for lengths in [(), (0,), (1,), (2,), (1, 1), (0, 1)] + ([(2, 1)] if big else []):
        add('boxes_text', lengths)
    add('dot_text', 'tableau')
    add('dot_text', 'word')
    return out
