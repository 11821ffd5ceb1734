"""Load /repo's current source with symbolic-aware semantics.

The source text is parsed afresh on every run; comparisons, displays and a few
builtins are redirected to versions that accept symbolic values.  On concrete
values each redirection is the builtin itself.
"""
import ast
import builtins
import collections
import os
import sys
import types
import z3
from . import core
from .core import (SymInt, SymBool, sx_and, sx_or, sx_not, sx_if, mk, mkb, _term, is_sym, PathCut, SymRatio)
from .containers import (SymDict, SymSet, SymFrozenSet, SymDefaultDict, SymCounter, SymKeys,
                         sym_lru_cache, has_sym, sx_eq, sx_ne)

# ---------------------------------------------------------------- builtins


def sx_type(*args):
    if len(args) == 1:
        t = type(args[0])
        if t is SymInt:
            return int
        if t is SymBool:
            return bool
        if t is SymRatio:
            return float
        return t
    return type(*args)


def sx_isinstance(x, c):
    t = type(x)
    if t is SymInt:
        x = 0
    elif t is SymBool:
        x = True
    elif t is SymRatio:
        x = 0.0
    if type(c) is tuple:
        return builtins.any(sx_isinstance(x, y) for y in c)
    if c is sx_type:
        c = type
    if c is SymDict and isinstance(x, dict):
        return True
    if c is SymSet and isinstance(x, set):
        return True
    if c is SymFrozenSet and isinstance(x, frozenset):
        return True
    return isinstance(x, c)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        if self.step > 0:
            while i < self.stop:
                yield i
                i = i + self.step
        else:
            while i > self.stop:
                yield i
                i = i + self.step

    def __reversed__(self):
        return reversed([x for x in self])

    def sx_contains(self, x):
        if self.step == 1:
            return sx_and(self.start <= x, x < self.stop)
        if self.step == -1:
            return sx_and(self.start >= x, x > self.stop)
        return sx_or(*[sx_eq(x, y) for y in self])

    def __contains__(self, x):
        return bool(self.sx_contains(x))

    def __len__(self):
        return sum(1 for _ in self.__iter__())

    def __getitem__(self, i):
        return [x for x in self][i]


def sx_range(*args):
    for a in args:
        if type(a) is SymInt or type(a) is SymBool:
            break
    else:
        return range(*args)
    if len(args) == 1:
        return SymRange(0, args[0], 1)
    step = args[2] if len(args) == 3 else 1
    if is_sym(step):
        step = core.ENGINE.concretise(step)
    return SymRange(args[0], args[1], step)


def sx_len(x):
    t = type(x)
    if t in (list, tuple, str, dict):
        return len(x)
    f = getattr(t, '__len__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return len(x)


def _minmax(name, native, better):
    def f(*args, **kw):
        if kw.get('key') is None and not (set(kw) - {'key', 'default'}):
            xs = list(args[0]) if len(args) == 1 else list(args)
            sym = False
            for x in xs:
                if type(x) is SymInt:
                    sym = True
                elif type(x) is not int:
                    sym = False
                    break
            if sym:
                ans = xs[0]
                for x in xs[1:]:
                    c = better(x, ans)
                    ans = sx_if(c, x, ans)
                return ans
            if not xs and 'default' in kw:
                return kw['default']
            kw.pop('default', None)
            kw.pop('key', None)
            return native(xs, **kw)
        return native(*args, **kw)
    f.__name__ = name
    return f


sx_min = _minmax('min', min, lambda a, b: a < b)
sx_max = _minmax('max', max, lambda a, b: a > b)


def sx_all(it):
    acc = []
    it = iter(it)
    while True:
        try:
            x = next(it)
        except StopIteration:
            return sx_and(*acc)
        except Exception:
            if not acc or bool(sx_and(*acc)):
                raise
            return False
        if type(x) is SymInt:
            x = x != 0
        if type(x) is SymBool:
            acc.append(x)
        elif not x:
            return False


def sx_any(it):
    acc = []
    it = iter(it)
    while True:
        try:
            x = next(it)
        except StopIteration:
            return sx_or(*acc)
        except Exception:
            if not acc or not bool(sx_or(*acc)):
                raise
            return True
        if type(x) is SymInt:
            x = x != 0
        if type(x) is SymBool:
            acc.append(x)
        elif x:
            return True


def sx_sum(it, start=0):
    ans = start
    terms = []
    const = 0
    plain = type(start) in (int, SymInt)
    for x in it:
        if plain:
            t = type(x)
            if t is int:
                const += x
                continue
            if t is SymInt:
                terms.append(x.e)
                continue
            if t is SymBool or t is bool:
                terms.append(_term(x))
                continue
            # leave the fast path, keeping left-to-right order of addition
            if terms:
                ans = ans + mk(z3.Sum(*terms) if len(terms) > 1 else terms[0])
                terms = []
            ans = ans + const
            const = 0
            plain = False
        ans = ans + x
    if plain:
        if terms:
            ans = ans + mk(z3.Sum(*terms) if len(terms) > 1 else terms[0])
        ans = ans + const
    return ans


def sx_int(*args, **kw):
    if len(args) == 1 and not kw:
        if type(args[0]) is SymInt:
            return args[0]
        if type(args[0]) is SymBool:
            return mk(_term(args[0]))
        if type(args[0]) is SymRatio:
            return args[0].trunc()
    return int(*args, **kw)


def sx_bool(*args):
    if args and type(args[0]) is SymBool:
        return args[0]
    if args and type(args[0]) is SymInt:
        return args[0] != 0
    return bool(*args)


def sx_print(*a, **k):
    return None


def sx_input(*a, **k):
    raise RuntimeError('input() called')


def sx_hash(x):
    return hash(x)


def sx_dict_display(pairs):
    d = SymDict()
    for k, v in pairs:
        if k is _STAR:
            d.update(v)
        else:
            d[k] = v
    return d


_STAR = object()


def sx_getitem(o, k):
    if type(k) is SymInt:
        t = type(o)
        if t is list or t is tuple:
            n = len(o)
            if n and builtins.all(type(x) is int or type(x) is SymInt for x in o):
                if not (sx_and(-n <= k, k < n)):
                    raise IndexError('index out of range')
                if k >= 0:
                    base = 0
                else:
                    base = -n
                ans = o[n - 1]
                for i in range(n - 2, -1, -1):
                    ans = sx_if(k == i + base, o[i], ans)
                return ans
    return o[k]


def sx_contains(c, x):
    t = type(c)
    if t is list or t is tuple:
        acc = []
        for y in c:
            if y is x:
                return True
            r = sx_eq(y, x)
            if type(r) is SymBool:
                acc.append(r)
            elif r:
                return True
        return sx_or(*acc)
    f = getattr(t, 'sx_contains', None)
    if f is not None:
        return f(c, x)
    f = getattr(t, '__contains__', None)
    if isinstance(f, types.FunctionType):
        return f(c, x)
    if t in (set, frozenset, dict) or isinstance(c, (dict, set, frozenset)) or t.__name__ == 'dict_keys':
        if has_sym(x) and t in (set, frozenset, dict):
            return sx_or(*[sx_eq(y, x) for y in c])
        return x in c
    if t is range and type(x) is SymInt:
        if c.step == 1:
            return sx_and(c.start <= x, x < c.stop)
        return sx_or(*[x == y for y in c])
    return x in c


def sx_notin(c, x):
    return sx_not(sx_contains(c, x))


_OPS = {
    'Eq': sx_eq, 'NotEq': sx_ne,
    'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b,
    'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b,
    'Is': lambda a, b: a is b, 'IsNot': lambda a, b: a is not b,
    'In': lambda a, b: sx_contains(b, a), 'NotIn': lambda a, b: sx_notin(b, a),
}


def sx_chain(ops, first, *rest):
    acc = []
    left = first
    for op, th in zip(ops, rest):
        try:
            right = th()
            r = _OPS[op](left, right)
        except Exception:
            if acc and not bool(sx_and(*acc)):
                return False
            raise
        if type(r) is SymBool:
            acc.append(r)
        elif not r:
            return r if not acc else False
        left = right
    return sx_and(*acc)


def sx_and2(a, th):
    if type(a) is SymBool:
        try:
            b = th()
        except Exception:       # the right hand side only has a value where the left one holds
            return th() if a else False
        if type(b) is SymBool or type(b) is bool:
            return sx_and(a, b)
        return b if a else False
    return a and th()


def sx_or2(a, th):
    if type(a) is SymBool:
        try:
            b = th()
        except Exception:
            return True if a else th()
        if type(b) is SymBool or type(b) is bool:
            return sx_or(a, b)
        return True if a else b
    return a or th()


def sx_ifexp(c, ta, tb):
    if type(c) is not SymBool:
        return ta() if c else tb()
    try:
        a, b = ta(), tb()
    except Exception:
        return ta() if c else tb()
    return sx_if(c, a, b)


def sx_count(flags):
    return sx_sum(1 if f is True else (0 if f is False else (f if type(f) is SymBool else int(bool(f)))) for f in flags)


class Coverage:
    def __init__(self):
        self.names = []
        self.hit = set()


COV = Coverage()

HELPERS = {
    '_sx_eq': sx_eq, '_sx_ne': sx_ne, '_sx_contains': sx_contains, '_sx_notin': sx_notin,
    '_sx_chain': sx_chain, '_sx_and2': sx_and2, '_sx_or2': sx_or2, '_sx_not': sx_not,
    '_sx_if': sx_ifexp, '_sx_getitem': sx_getitem, '_sx_dict': sx_dict_display, '_sx_STAR': _STAR,
    '_sx_set': SymSet, '_sx_int': sx_int, '_sx_bool': sx_bool, '_sx_count': sx_count, '_sx_hit': COV.hit.add,
}


# ---------------------------------------------------------------- AST

SIMPLE = (ast.Name, ast.Constant)


def _simple(n):
    """Side-effect free and non-raising for practical purposes."""
    if isinstance(n, ast.Name) or isinstance(n, ast.Constant):
        return True
    if isinstance(n, ast.UnaryOp):
        return _simple(n.operand)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
        return _simple(n.left) and _simple(n.right)
    if isinstance(n, ast.Compare):
        return all(isinstance(o, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in n.ops) and \
            _simple(n.left) and all(_simple(c) for c in n.comparators)
    if isinstance(n, ast.BoolOp):
        return all(_simple(v) for v in n.values)
    return False


def _call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


def _lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


class Instrumenter(ast.NodeTransformer):
    def __init__(self, modname, symkeys=True, cover=True):
        self.modname = modname
        self.symkeys = symkeys
        self.cover = cover
        self.scope = []

    def _func(self, node):
        self.scope.append(('f', node.name))
        # defaults and decorators belong to the outer scope, but renaming is harmless
        self.generic_visit(node)
        if self.cover:
            name = self.modname + '.' + '.'.join(s for _, s in self.scope)
            hit = ast.Expr(_call('_sx_hit', ast.Constant(name)))
            body = node.body
            k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
                isinstance(body[0].value.value, str) else 0
            node.body = body[:k] + [hit] + body[k:]
        self.scope.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.scope.append(('c', node.name))
        self.generic_visit(node)
        self.scope.pop()
        return node

    def _in_class_body(self):
        return bool(self.scope) and self.scope[-1][0] == 'c'

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            node.type = ast.Name(id='Exception', ctx=ast.Load())
        return node

    def visit_Compare(self, node):
        ops = [type(o).__name__ for o in node.ops]
        self.generic_visit(node)
        if len(ops) == 1:
            a, b = node.left, node.comparators[0]
            m = {'Eq': '_sx_eq', 'NotEq': '_sx_ne'}.get(ops[0])
            if m:
                return _call(m, a, b)
            if ops[0] == 'In':
                return self._swapped('_sx_contains', a, b)
            if ops[0] == 'NotIn':
                return self._swapped('_sx_notin', a, b)
            return node
        if self._in_class_body() or any(isinstance(x, ast.NamedExpr) for x in ast.walk(node)):
            return node
        return _call('_sx_chain', ast.Tuple(elts=[ast.Constant(o) for o in ops], ctx=ast.Load()),
                     node.left, *[_lam(c) for c in node.comparators])

    def _swapped(self, name, a, b):
        # evaluation order of `a in b` is a then b
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[],
                        keywords=[ast.keyword(arg='x', value=a), ast.keyword(arg='c', value=b)])

    def visit_BoolOp(self, node):
        simple = [_simple(v) for v in node.values]
        self.generic_visit(node)
        if self._in_class_body() or not all(simple[1:]):
            return node
        name = '_sx_and2' if isinstance(node.op, ast.And) else '_sx_or2'
        ans = node.values[0]
        for v in node.values[1:]:
            ans = _call(name, ans, _lam(v))
        return ans

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return _call('_sx_not', node.operand)
        return node

    def visit_IfExp(self, node):
        ok = _simple(node.body) and _simple(node.orelse)
        self.generic_visit(node)
        if ok and not self._in_class_body():
            return _call('_sx_if', node.test, _lam(node.body), _lam(node.orelse))
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)) and \
                not (isinstance(node.slice, ast.UnaryOp)):
            if isinstance(node.slice, ast.Tuple):
                return node
            return _call('_sx_getitem', node.value, node.slice)
        return node

    def visit_Call(self, node):
        # len([e for t in it if c])  ->  sum of indicator values
        if isinstance(node.func, ast.Name) and node.func.id == 'len' and len(node.args) == 1 and not node.keywords \
                and isinstance(node.args[0], ast.ListComp) and len(node.args[0].generators[-1].ifs) == 1 \
                and _simple(node.args[0].elt if not isinstance(node.args[0].elt, ast.Tuple) else ast.Constant(0)):
            gens = node.args[0].generators
            cond = gens[-1].ifs[0]
            gens[-1].ifs = []
            new = _call('_sx_count', ast.GeneratorExp(elt=cond, generators=gens))
            return self.generic_visit(new)
        if isinstance(node.func, ast.Name) and node.func.id in ('int', 'bool'):
            node.func.id = '_sx_' + node.func.id
        return self.generic_visit(node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.symkeys:
            return node
        pairs = []
        for k, v in zip(node.keys, node.values):
            kk = ast.Name(id='_sx_STAR', ctx=ast.Load()) if k is None else k
            pairs.append(ast.Tuple(elts=[kk, v], ctx=ast.Load()))
        return _call('_sx_dict', ast.List(elts=pairs, ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not self.symkeys:
            return node
        return _call('_sx_dict', ast.GeneratorExp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        if not self.symkeys:
            return node
        return _call('_sx_set', ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if not self.symkeys:
            return node
        return _call('_sx_set', ast.GeneratorExp(elt=node.elt, generators=node.generators))


# ---------------------------------------------------------------- loader

class _Shim(types.ModuleType):
    pass


def _shims(symkeys):
    import collections
    import functools
    out = {}
    if symkeys:
        c = _Shim('collections')
        c.__dict__.update({k: v for k, v in vars(collections).items() if not k.startswith('__')})
        c.defaultdict, c.Counter, c.OrderedDict = SymDefaultDict, SymCounter, SymDict
        out['collections'] = c
        f = _Shim('functools')
        f.__dict__.update({k: v for k, v in vars(functools).items() if not k.startswith('__')})
        f.lru_cache = sym_lru_cache
        f.cache = lambda fn: sym_lru_cache(None)(fn)
        out['functools'] = f
    return out


class Loader:
    """A private module namespace for one instrumented copy of the repository."""

    def __init__(self, roots, symkeys=True, instrument=True, extra=None):
        self.roots = roots
        self.symkeys = symkeys
        self.mods = {}
        self.shims = _shims(symkeys)
        b = dict(vars(builtins))
        b.update({
            'type': sx_type, 'isinstance': sx_isinstance, 'range': sx_range, 'len': sx_len,
            'min': sx_min, 'max': sx_max, 'all': sx_all, 'any': sx_any, 'sum': sx_sum,
            'print': sx_print, 'input': sx_input,
            '__import__': self._import,
        })
        if symkeys:
            b.update({'dict': SymDict, 'set': SymSet, 'frozenset': SymFrozenSet})
        b.update(HELPERS)
        self.builtins = b

    def _find(self, name):
        for r in self.roots:
            p = os.path.join(r, *name.split('.')) + '.py'
            if os.path.isfile(p):
                return p
            p = os.path.join(r, *name.split('.'), '__init__.py')
            if os.path.isfile(p):
                return p
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name in self.mods:
            return self.mods[name]
        p = self._find(name)
        if p is not None:
            return self.load(name)
        if name in self.shims:
            return self.shims[name]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self._find(name)
        src = open(p, encoding='utf-8').read()
        tree = ast.parse(src, p)
        tree = Instrumenter(name, self.symkeys).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        exec(compile(tree, p, 'exec'), m.__dict__)
        return m


class Snapshot:
    """Contents of every mutable container reachable from module state (globals,
    class attributes, function defaults, closures), restored before each path so
    that caches start the same on every path."""

    def __init__(self, mods):
        self.saved = []
        self.memo = []
        seen = set()

        def add(c, depth=0):
            if id(c) in seen:
                return
            inner = ()
            if isinstance(c, SymDict):
                seen.add(id(c))
                self.saved.append((c, dict(c._ix), None if c._sy is None else [list(e) for e in c._sy]))
                inner = c._ix.values()
            elif isinstance(c, dict):
                seen.add(id(c))
                self.saved.append((c, dict(c), None))
                inner = c.values()
            elif isinstance(c, (list, collections.deque)):
                seen.add(id(c))
                self.saved.append((c, list(c), None))
                inner = c
            elif isinstance(c, set):
                seen.add(id(c))
                self.saved.append((c, set(c), None))
            elif isinstance(c, SymSet):
                add(c.d)
            if depth < 3:
                for v in inner:
                    if isinstance(v, (dict, list, set, collections.deque, SymDict, SymSet)):
                        add(v, depth + 1)

        def fn(f, depth=0):
            f = getattr(f, '__func__', f)
            if isinstance(f, property):
                for g in (f.fget, f.fset):
                    if g is not None:
                        fn(g, depth)
                return
            st = getattr(f, '__sx_store__', None)
            if st is not None:
                add(st)
            elif callable(getattr(f, 'cache_clear', None)) and callable(getattr(f, 'cache_info', None)):
                self.memo.append(f)
            w = getattr(f, '__wrapped__', None)
            if w is not None and depth < 4:
                fn(w, depth + 1)
            if not isinstance(f, types.FunctionType):
                return
            for d in (f.__defaults__ or ()):
                add(d)
            for d in (f.__kwdefaults__ or {}).values():
                add(d)
            for k, v in vars(f).items():
                add(v)
            for c in (f.__closure__ or ()):
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                add(v)
                if isinstance(v, types.FunctionType) and depth < 4:
                    fn(v, depth + 1)

        self.scalars = []
        for m in mods:
            for k, v in list(vars(m).items()):
                if k.startswith('__'):
                    continue
                add(v)
                if isinstance(v, type):
                    if getattr(v, '__module__', None) == m.__name__:
                        for kk, w in list(vars(v).items()):
                            if kk.startswith('__') and not callable(w) and not isinstance(w, (classmethod, staticmethod)):
                                continue
                            add(w)
                            fn(w)
                            if type(w) in (int, bool, str, type(None), tuple):
                                self.scalars.append((v, kk, w))
                else:
                    fn(v)
                    if type(v) in (int, bool, str, type(None), tuple):
                        self.scalars.append((m, k, v))

    def restore(self):
        for c, content, sy in self.saved:
            if isinstance(c, SymDict):
                c._ix = dict(content)
                c._sy = None
            elif isinstance(c, list):
                c[:] = content
            elif isinstance(c, collections.deque):
                c.clear()
                c.extend(content)
            elif isinstance(c, dict):
                c.clear()
                c.update(content)
            else:
                c.clear()
                c.update(content)
        for f in self.memo:
            f.cache_clear()
        for o, k, w in self.scalars:
            if getattr(o, k, None) is not w:
                setattr(o, k, w)
