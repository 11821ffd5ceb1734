"""Symbolic values and the path-complete execution engine.

Integers are z3 mathematical integers (Python ints do not wrap, so this is
exact).  Truth tests on symbolic booleans ask the solver which outcomes are
feasible under the current path condition and fork when both are.
"""
import time
import z3

IntVal = z3.IntVal


class Control(BaseException):
    """Base of everything the engine raises to steer a path; never an Exception,
    so code under test cannot swallow it."""


class PathPruned(Control):
    """An assumption is unsatisfiable on this path."""


class PathCut(Control):
    """This path left the reach of the encoding (limit, timeout, unsupported)."""

    def __init__(self, why):
        self.why = why


class Violation(Control):
    def __init__(self, msg, model):
        self.msg = msg
        self.model = model


class Nondeterminism(Exception):
    pass


ENGINE = None  # current engine (one path explored at a time per process)


def set_engine(e):
    global ENGINE
    ENGINE = e


# ---------------------------------------------------------------- values

def _term(x):
    t = type(x)
    if t is SymInt:
        return x.e
    if t is int:
        return IntVal(x)
    if t is SymBool:
        return z3.If(x.e, IntVal(1), IntVal(0))
    if t is bool:
        return IntVal(int(x))
    return None


def _subst(e, fixed):
    """z3.substitute with prepared arrays; fixed: [(variable, value)] with the arrays cached at the end of the engine state"""
    eng = ENGINE
    n = len(fixed)
    if eng._sub is None or eng._sub[0] != n or eng._sub[3] is not fixed:
        a = (z3.Ast * n)(*[v.as_ast() for v, _ in fixed])
        b = (z3.Ast * n)(*[c.as_ast() for _, c in fixed])
        eng._sub = (n, a, b, fixed)
    return _wrap(z3.Z3_substitute(e.ctx.ref(), e.as_ast(), n, eng._sub[1], eng._sub[2]), e.ctx)


_wrap = z3.z3._to_expr_ref


def mk(e):
    """Wrap an integer term, folding constants."""
    if ENGINE is not None and ENGINE.fixed:
        e = _subst(e, ENGINE.fixed)
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkb(e):
    if ENGINE is not None and ENGINE.fixed:
        e = _subst(e, ENGINE.fixed)
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _bterm(x):
    t = type(x)
    if t is SymBool:
        return x.e
    if t is bool:
        return z3.BoolVal(x)
    return None


class SymInt:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    # arithmetic
    def __add__(self, o):
        t = _term(o)
        return NotImplemented if t is None else mk(self.e + t)

    __radd__ = __add__

    def __sub__(self, o):
        t = _term(o)
        return NotImplemented if t is None else mk(self.e - t)

    def __rsub__(self, o):
        t = _term(o)
        return NotImplemented if t is None else mk(t - self.e)

    def __mul__(self, o):
        if type(o) in (list, tuple, str):
            return o * self.__index__()
        t = _term(o)
        return NotImplemented if t is None else mk(self.e * t)

    __rmul__ = __mul__

    def __neg__(self):
        return mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return mk(-self.e - 1)

    def __floordiv__(self, o):
        if _term(o) is None:
            return NotImplemented
        return _fdiv(self, o)

    def __rfloordiv__(self, o):
        if _term(o) is None:
            return NotImplemented
        return _fdiv(o, self)

    def __mod__(self, o):
        if _term(o) is None:
            return NotImplemented
        return _fmod(self, o)

    def __rmod__(self, o):
        if _term(o) is None:
            return NotImplemented
        return _fmod(o, self)

    def __divmod__(self, o):
        return _fdiv(self, o), _fmod(self, o)

    def __rdivmod__(self, o):
        return _fdiv(o, self), _fmod(o, self)

    def __truediv__(self, o):
        if type(o) is float:
            return ENGINE.concretise(self) / o
        return NotImplemented if _term(o) is None else _ratio(self, o)

    def __rtruediv__(self, o):
        if type(o) is float:
            return o / ENGINE.concretise(self)
        return NotImplemented if _term(o) is None else _ratio(o, self)

    def __pow__(self, o, m=None):
        if _term(o) is None:
            return NotImplemented
        n = o if type(o) is int else ENGINE.concretise(o)
        if n < 0:
            raise PathCut('negative power of a symbolic integer')
        ans = 1
        for _ in range(n):
            ans = ans * self
        return ans if m is None else ans % m

    def __rpow__(self, o):
        if type(o) is int and o == -1:
            return mk(z3.If(self.e % 2 == 0, IntVal(1), IntVal(-1)))
        if type(o) is int and o == 1:
            return 1
        if _term(o) is None:
            return NotImplemented
        return o ** ENGINE.concretise(self)

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return mk(self.e % (o + 1))
        if _term(o) is None:
            return NotImplemented
        return ENGINE.concretise(self) & ENGINE.concretise(o)

    __rand__ = __and__

    def __or__(self, o):
        if _term(o) is None:
            return NotImplemented
        return ENGINE.concretise(self) | ENGINE.concretise(o)

    __ror__ = __or__

    def __xor__(self, o):
        if _term(o) is None:
            return NotImplemented
        return ENGINE.concretise(self) ^ ENGINE.concretise(o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * 2 ** ENGINE.concretise(o)

    def __rlshift__(self, o):
        return o << ENGINE.concretise(self)

    def __rshift__(self, o):
        return _fdiv(self, 2 ** ENGINE.concretise(o))

    def __rrshift__(self, o):
        return o >> ENGINE.concretise(self)

    # comparison
    def __lt__(self, o):
        t = _term(o)
        return _cmpfloat(self, o, '<') if t is None else mkb(self.e < t)

    def __le__(self, o):
        t = _term(o)
        return _cmpfloat(self, o, '<=') if t is None else mkb(self.e <= t)

    def __gt__(self, o):
        t = _term(o)
        return _cmpfloat(self, o, '>') if t is None else mkb(self.e > t)

    def __ge__(self, o):
        t = _term(o)
        return _cmpfloat(self, o, '>=') if t is None else mkb(self.e >= t)

    def __eq__(self, o):
        if o is self:
            return True
        t = _term(o)
        return NotImplemented if t is None else mkb(self.e == t)

    def __ne__(self, o):
        if o is self:
            return False
        t = _term(o)
        return NotImplemented if t is None else mkb(self.e != t)

    def __bool__(self):
        return ENGINE.decide(z3.simplify(self.e != 0))

    def __index__(self):
        return ENGINE.concretise(self)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(ENGINE.concretise(self))

    def __hash__(self):
        return hash(ENGINE.concretise(self))

    def __repr__(self):
        if ENGINE is None or ENGINE.quiet:
            return '<%s>' % self.e
        return repr(ENGINE.concretise(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(ENGINE.concretise(self), spec)

    def bit_length(self):
        return ENGINE.concretise(self).bit_length()

    def __floor__(self):
        return self

    __ceil__ = __floor__

    def __round__(self, k=None):
        return self if k is None or k >= 0 else round(ENGINE.concretise(self), k)

    def is_integer(self):
        return True

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self


def _cmpfloat(a, o, op):
    if type(o) is float:
        if o == float('inf'):
            return op in ('<', '<=')
        if o == float('-inf'):
            return op in ('>', '>=')
        import math
        if op == '<':
            return a < math.ceil(o)
        if op == '<=':
            return a <= math.floor(o)
        if op == '>':
            return a > math.floor(o)
        return a >= math.ceil(o)
    return NotImplemented


def _fdiv(a, b):
    if type(b) is bool:
        b = int(b)
    if type(b) is int:
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if b > 0:
            return mk(_term(a) / IntVal(b))          # z3 div = floor for b > 0
        return mk((-_term(a)) / IntVal(-b))
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if b > 0:
        return mk(_term(a) / _term(b))
    return mk((-_term(a)) / (-_term(b)))


def _fmod(a, b):
    if type(b) is bool:
        b = int(b)
    if type(b) is int:
        if b == 0:
            raise ZeroDivisionError('integer modulo by zero')
        if b > 0:
            return mk(_term(a) % IntVal(b))
        return mk(-((-_term(a)) % IntVal(-b)))
    if b == 0:
        raise ZeroDivisionError('integer modulo by zero')
    if b > 0:
        return mk(_term(a) % _term(b))
    return mk(-((-_term(a)) % (-_term(b))))


RATIO_LIMIT = 1 << 40


def _ratio(a, b):
    """The float a / b as an exact fraction: for |a|, |b| up to 2**40 truncation, rounding down or up and comparison
    with integers of the nearest double are those of the fraction; larger values leave the encoding."""
    if b == 0:
        raise ZeroDivisionError('division by zero')
    for x in (a, b):
        if not (sx_and(-RATIO_LIMIT <= x, x <= RATIO_LIMIT)):
            raise PathCut('float division of large integers')
    if b < 0:
        a, b = -a, -b
    return SymRatio(a, b)


class SymRatio:
    """num / den with den > 0; behaves as a float."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @property
    def __class__(self):
        return float

    def trunc(self):
        if self.n >= 0:
            return _fdiv(self.n, self.d)
        return -_fdiv(-self.n, self.d)

    def __floor__(self):
        return _fdiv(self.n, self.d)

    def __ceil__(self):
        return -_fdiv(-self.n, self.d)

    def __trunc__(self):
        return self.trunc()

    def __float__(self):
        return ENGINE.concretise(self.n) / ENGINE.concretise(self.d)

    def __int__(self):
        return int(float(self))

    def is_integer(self):
        return _fmod(self.n, self.d) == 0

    def __round__(self, k=None):
        return round(float(self), k)

    def __bool__(self):
        return bool(self.n != 0)

    def __hash__(self):
        return hash(float(self))

    def __repr__(self):
        return repr(float(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(float(self), spec)

    def _other(self, o):
        if type(o) is SymRatio:
            return o.n, o.d
        if _term(o) is not None:
            return o, 1
        if type(o) is float and o == int(o):
            return int(o), 1
        return None

    def _arith(self, o, op):
        p = self._other(o)
        if p is None:
            return op(float(self), o) if type(o) is float else NotImplemented
        return p

    def __add__(self, o):
        p = self._arith(o, lambda x, y: x + y)
        return SymRatio(self.n * p[1] + p[0] * self.d, self.d * p[1]) if type(p) is tuple else p

    __radd__ = __add__

    def __neg__(self):
        return SymRatio(-self.n, self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymRatio(abs(self.n), self.d)

    def __sub__(self, o):
        p = self._arith(o, lambda x, y: x - y)
        return SymRatio(self.n * p[1] - p[0] * self.d, self.d * p[1]) if type(p) is tuple else p

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        p = self._arith(o, lambda x, y: x * y)
        return SymRatio(self.n * p[0], self.d * p[1]) if type(p) is tuple else p

    __rmul__ = __mul__

    def __truediv__(self, o):
        p = self._arith(o, lambda x, y: x / y)
        if type(p) is not tuple:
            return p
        return _ratio(self.n * p[1], self.d * p[0])

    def __rtruediv__(self, o):
        p = self._arith(o, lambda x, y: y / x)
        if type(p) is not tuple:
            return p
        return _ratio(self.d * p[0], self.n * p[1])

    def __floordiv__(self, o):
        q = self / o
        return q if type(q) is float else SymRatio(q.__floor__(), 1)

    def __mod__(self, o):
        return self - o * (self // o)

    def __pow__(self, k):
        return float(self) ** k

    def _cmp(self, o):
        p = self._other(o)
        return None if p is None else (self.n * p[1], p[0] * self.d)

    def __eq__(self, o):
        c = self._cmp(o)
        return (float(self) == o if type(o) is float else NotImplemented) if c is None else c[0] == c[1]

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def __lt__(self, o):
        c = self._cmp(o)
        return (float(self) < o if type(o) is float else NotImplemented) if c is None else c[0] < c[1]

    def __le__(self, o):
        c = self._cmp(o)
        return (float(self) <= o if type(o) is float else NotImplemented) if c is None else c[0] <= c[1]

    def __gt__(self, o):
        c = self._cmp(o)
        return (float(self) > o if type(o) is float else NotImplemented) if c is None else c[0] > c[1]

    def __ge__(self, o):
        c = self._cmp(o)
        return (float(self) >= o if type(o) is float else NotImplemented) if c is None else c[0] >= c[1]


class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ENGINE.decide(self.e)

    def __and__(self, o):
        t = _bterm(o)
        if t is not None:
            return mkb(z3.And(self.e, t))
        return mk(_term(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        t = _bterm(o)
        if t is not None:
            return mkb(z3.Or(self.e, t))
        return mk(_term(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        t = _bterm(o)
        if t is not None:
            return mkb(z3.Xor(self.e, t))
        return mk(_term(self)) ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        t = _bterm(o)
        if t is not None:
            return mkb(self.e == t)
        t = _term(o)
        return NotImplemented if t is None else mkb(_term(self) == t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    def _i(self):
        return mk(_term(self))

    def __add__(self, o):
        return self._i() + o

    def __radd__(self, o):
        return o + self._i()

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    def __rmul__(self, o):
        return o * self._i()

    def __neg__(self):
        return -self._i()

    def __mod__(self, o):
        return self._i() % o

    def __floordiv__(self, o):
        return self._i() // o

    def __pow__(self, o):
        return self._i() ** o

    def __rpow__(self, o):
        return o ** self._i()

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        if ENGINE is None or ENGINE.quiet:
            return '<%s>' % self.e
        return repr(bool(self))


SYM = (SymInt, SymBool)


def is_sym(x):
    t = type(x)
    return t is SymInt or t is SymBool


def sx_not(x):
    if type(x) is SymBool:
        return mkb(z3.Not(x.e))
    return not x


def sx_and(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    return mkb(z3.And(*out)) if len(out) > 1 else SymBool(out[0])


def sx_or(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif x:
            return True
    if not out:
        return False
    return mkb(z3.Or(*out)) if len(out) > 1 else SymBool(out[0])


def sx_if(c, a, b):
    if type(c) is not SymBool:
        return a if c else b
    if a is b:
        return a
    ba, bb = _bterm(a), _bterm(b)
    if ba is not None and bb is not None:
        return mkb(z3.If(c.e, ba, bb))
    ta, tb = _term(a), _term(b)
    if ta is None or tb is None:
        return a if c else b
    return mk(z3.If(c.e, ta, tb))


# ---------------------------------------------------------------- engine

class Engine:
    """Depth-first path enumeration by re-execution with a recorded trail."""

    def __init__(self, seed=1, query_timeout_ms=20000, max_decisions=20000, conc_cap=40):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.solver.set('random_seed', seed)
        self.query_timeout_ms = query_timeout_ms
        self.max_decisions = max_decisions
        self.conc_cap = conc_cap
        self.trail = []          # [cond, value, forked, pending, altmodel]
        self.pos = 0
        self.quiet = False
        self.model = None
        self._sub = None
        self.fixed = []
        self.range = {}
        self.pinned = set()
        self.vars = {}
        self.queries = 0
        self.solver_s = 0.0
        self.forks = 0
        self.edges = 0
        self.nodes = 0
        self.unknown = 0
        self.checks = 0
        self.checks_solver = 0
        self.checks_syntactic = 0
        self.path_checks = 0
        self.base = 0
        self.observed = []
        self.order = []
        self.som = False

    # -- solver
    def _check(self, *extra):
        t = time.perf_counter()
        self.queries += 1
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        if r == z3.unknown:
            # once more, without incrementality
            s = z3.Solver()
            s.set('timeout', self.query_timeout_ms)
            s.add(*self.solver.assertions())
            s.add(*[z3.simplify(x, som=True) for x in extra])
            self.queries += 1
            r = s.check()
            m = s.model() if r == z3.sat else None
        self.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.unknown += 1
        return r, m

    def _same(self, a, b):
        """Equivalent conditions (the simplifier orders operands by node age)."""
        s = z3.Solver()
        s.set('timeout', self.query_timeout_ms)
        s.add(a != b)
        return s.check() == z3.unsat

    # -- path control
    def start_path(self):
        self.pos = 0
        self.observed = []
        self.path_checks = 0
        self.order = []
        self.vars = {}
        self.fixed = []
        self.range = {}
        self.pinned = set()

    def load_prefix(self, prefix):
        """prefix: list of (value, forked, candidate), decided by another worker."""
        self.trail = [[None, v, f, False, None, c] for v, f, c in prefix]
        self.base = len(self.trail)

    def next_path(self):
        """Backtrack to the deepest pending alternative; False when exhausted."""
        while len(self.trail) > self.base:
            ent = self.trail[-1]
            if ent[3]:
                self.solver.pop()
                self.solver.push()
                v = not ent[1]
                self.solver.add(ent[0] if v else z3.Not(ent[0]))
                self.trail[-1] = [ent[0], v, True, False, None, ent[5]]
                self.model = ent[4]
                return True
            if ent[2]:
                self.solver.pop()
            self.trail.pop()
        return False

    def frontier(self):
        """Remaining work as decision prefixes (and forget it here)."""
        out = []
        pre = []
        for ent in self.trail:
            if ent[3]:
                out.append(pre + [(not ent[1], True, ent[5])])
                ent[3] = False
            pre = pre + [(ent[1], ent[2], ent[5])]
        return out

    def decide(self, cond, cand=None):
        if type(cond) is bool:
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.fixed:
            cond = z3.simplify(_subst(cond, self.fixed))
            if z3.is_true(cond):
                return True
            if z3.is_false(cond):
                return False
        val = self._decide(cond, cand)
        self.note(cond, val)
        return val

    def note(self, cond, val):
        """Track bounds of single variables on this path; a variable with one value left is replaced by it from here on."""
        while z3.is_not(cond):
            cond, val = cond.arg(0), not val
        k = cond.decl().kind()
        if k == z3.Z3_OP_AND:
            if val:
                for c in cond.children():
                    self.note(c, True)
            return
        if k == z3.Z3_OP_OR:
            if not val:
                for c in cond.children():
                    self.note(c, False)
            return
        if k == z3.Z3_OP_EQ:
            op = '='
        elif k == z3.Z3_OP_LE:
            op = '<' if val else '>+'
        elif k == z3.Z3_OP_GE:
            op = '>' if val else '<-'
        else:
            return
        a, b = cond.arg(0), cond.arg(1)
        if z3.is_int_value(a):
            a, b = b, a
            op = {'=': '=', '<': '>', '>': '<', '>+': '<-', '<-': '>+'}[op]
        if not z3.is_int_value(b) or a.num_args() or a.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return
        c = b.as_long()
        key = a.get_id()
        lo, hi, _ = self.range.get(key, (None, None, a))
        if op == '=':
            if val:
                lo = hi = c
            elif lo == c:
                lo = c + 1
            elif hi == c:
                hi = c - 1
        elif op == '<':
            hi = c if hi is None else min(hi, c)
        elif op == '>':
            lo = c if lo is None else max(lo, c)
        elif op == '>+':
            lo = c + 1 if lo is None else max(lo, c + 1)
        else:
            hi = c - 1 if hi is None else min(hi, c - 1)
        self.range[key] = (lo, hi, a)
        if lo is not None and lo == hi and key not in self.pinned:
            self.pinned.add(key)
            self.fixed.append((a, IntVal(lo)))

    def _decide(self, cond, cand):
        pos = self.pos
        if self.som:
            c2 = z3.simplify(cond, som=True)
            if z3.is_true(c2):
                return True
            if z3.is_false(c2):
                return False
        if pos < len(self.trail):
            ent = self.trail[pos]
            if ent[0] is None:
                # replaying a handed-over prefix
                ent[0] = cond
                if ent[2]:
                    self.solver.push()
                    self.solver.add(cond if ent[1] else z3.Not(cond))
                    self.model = None
            elif not ent[0].eq(cond) and not self._same(ent[0], cond):
                raise Nondeterminism('re-execution diverged: %s vs %s' % (ent[0], cond))
            self.pos += 1
            return ent[1]
        if pos >= self.max_decisions:
            raise PathCut('decision limit')
        self.nodes += 1
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathPruned()
            self.model = m
        first = None
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if z3.is_true(v):
                first = True
            elif z3.is_false(v):
                first = False
        if first is None:
            r, m = self._check(cond)
            first = r != z3.unsat
            self.model = m
        other = z3.Not(cond) if first else cond
        r, m = self._check(other)
        self.pos += 1
        if r == z3.unsat:
            self.edges += 1
            self.trail.append([cond, first, False, False, None, cand])
            return first
        self.forks += 1
        self.edges += 2
        self.solver.push()
        self.solver.add(cond if first else z3.Not(cond))
        self.trail.append([cond, first, True, True, m, cand])
        return first

    def assume(self, cond):
        c = _bterm(cond) if is_sym(cond) or type(cond) is bool else None
        if c is None:
            c = z3.BoolVal(bool(cond))
        if self.fixed:
            c = _subst(c, self.fixed)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathPruned()
        self.note(c, True)
        pos = self.pos
        if pos < len(self.trail):
            ent = self.trail[pos]
            if ent[0] is None:
                ent[0] = c
                self.solver.push()
                self.solver.add(c)
                self.model = None
            elif not ent[0].eq(c) and not self._same(ent[0], c):
                raise Nondeterminism('re-execution diverged at an assumption')
            self.pos += 1
            return
        self.solver.push()
        self.solver.add(c)
        self.trail.append([c, True, True, False, None, None])
        self.pos += 1
        self.model_stale(c)

    def model_stale(self, c):
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return
        r, m = self._check()
        if r == z3.unsat:
            raise PathPruned()
        self.model = m

    def concretise(self, x):
        """Fork over the feasible values of x on this path."""
        t = type(x)
        if t is int:
            return x
        if t is SymBool or t is bool:
            return int(bool(x))
        e = x.e
        n = 0
        while True:
            if self.fixed:
                e = z3.simplify(_subst(e, self.fixed))
                if z3.is_int_value(e):
                    return e.as_long()
            if self.pos < len(self.trail):
                v = self.trail[self.pos][5]
                if v is None:
                    raise Nondeterminism('re-execution diverged at a concretisation')
            else:
                v = self._candidate(e)
            if self.decide(z3.simplify(e == IntVal(v)), v):
                return v
            n += 1
            if n > self.conc_cap:
                raise PathCut('concretisation limit')

    def _candidate(self, e):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathPruned()
            if r != z3.sat:
                raise PathCut('solver unknown while concretising')
            self.model = m
        return self.model.eval(e, model_completion=True).as_long()

    # -- properties
    def check(self, cond, msg):
        self.checks += 1
        self.path_checks += 1
        if type(cond) is SymInt:
            cond = cond != 0
        if type(cond) is not SymBool:
            if cond:
                self.checks_syntactic += 1
                return
            r, m = self._check()
            if r == z3.unsat:
                raise PathPruned()
            raise Violation(msg, m)
        self.checks_solver += 1
        if self.pos < len(self.trail):
            # this prefix was already decided on the path that created it
            return
        neg = z3.Not(cond.e)
        if self.som:
            neg = z3.simplify(neg, som=True)
            if z3.is_false(neg):
                self.checks_syntactic += 1
                self.checks_solver -= 1
                return
        r, m = self._check(neg)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            raise PathCut('solver unknown on: ' + msg)
        raise Violation(msg, m)

    def path_model(self):
        r, m = self._check()
        if r == z3.unsat:
            raise PathPruned()
        return m

    def values(self, m):
        out = {}
        for name, v in self.vars.items():
            if m is None:
                out[name] = 0
            else:
                out[name] = m.eval(v, model_completion=True).as_long()
        return out
