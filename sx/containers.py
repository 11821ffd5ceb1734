"""dict / set replacements whose keys may contain symbolic integers.

Concrete keys use a native hash index.  A key with symbolic content is compared
(==) with the entries, forking where the solver finds both outcomes feasible,
which is the meaning of a dict lookup whenever hash agrees with ==.
"""
from collections.abc import KeysView, MutableMapping, MutableSet, Set
from .core import SymInt, SymBool, SymRatio, sx_and, sx_or, sx_not, is_sym

_ATOM = (int, str, bool, type(None), float, bytes)
_MISSING = object()


def has_sym(x, depth=0):
    t = type(x)
    if t is int or t is str:
        return False
    if t is SymInt or t is SymBool or t is SymRatio:
        return True
    if t is tuple or t is list:
        for y in x:
            ty = type(y)
            if ty is int:
                continue
            if has_sym(y, depth + 1):
                return True
        return False
    if t in _ATOM:
        return False
    if isinstance(x, SymDict):
        for k, v in x.items():
            if has_sym(k, depth + 1) or has_sym(v, depth + 1):
                return True
        return False
    if isinstance(x, (SymSet, frozenset, set)):
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(k) or has_sym(v) for k, v in x.items())
    if depth > 6 or isinstance(x, type) or callable(x):
        return False
    d = getattr(x, '__dict__', None)
    if d is not None:
        for v in d.values():
            if has_sym(v, depth + 1):
                return True
        return False
    for s in getattr(t, '__slots__', ()):
        if has_sym(getattr(x, s, None), depth + 1):
            return True
    return False


def sx_eq(a, b):
    """== with the element comparisons of tuples and lists merged."""
    ta, tb = type(a), type(b)
    if (ta is tuple and tb is tuple) or (ta is list and tb is list):
        if len(a) != len(b):
            return False
        acc = []
        for x, y in zip(a, b):
            if x is y:
                continue
            r = sx_eq(x, y)
            if type(r) is SymBool:
                acc.append(r)
            elif not r:
                return False
        return sx_and(*acc)
    return a == b


def sx_ne(a, b):
    ta, tb = type(a), type(b)
    if (ta is tuple and tb is tuple) or (ta is list and tb is list):
        return sx_not(sx_eq(a, b))
    return a != b


class SymDict(MutableMapping):
    __slots__ = ('_ix', '_sy', '__dict__')
    # _ix: native dict key -> value for concrete keys (insertion order kept in it)
    # _sy: None, or list of [key, value] for all entries once a symbolic key is in

    def __init__(self, *args, **kw):
        self._ix = {}
        self._sy = None
        self._fill(*args, **kw)

    def _fill(self, *args, **kw):
        if args:
            src = args[0]
            if isinstance(src, SymDict) and src._sy is None and self._sy is None and not self._ix:
                self._ix.update(src._ix)
            elif isinstance(src, (SymDict, dict)) or hasattr(src, 'keys'):
                for k in src.keys():
                    SymDict.__setitem__(self, k, src[k])
            else:
                for k, v in src:
                    SymDict.__setitem__(self, k, v)
        for k, v in kw.items():
            SymDict.__setitem__(self, k, v)

    def _locate(self, key):
        """The stored key equal to `key`, or _MISSING; may fork."""
        if self._sy is None:
            if not has_sym(key):
                try:
                    return key if key in self._ix else _MISSING
                except TypeError:
                    raise
            for k in self._ix:
                if sx_eq(k, key):
                    return k
            return _MISSING
        if not has_sym(key) and key in self._ix:
            return key
        for ent in self._sy:
            if ent[0] is key:
                return ent
        for ent in self._sy:
            if sx_eq(ent[0], key):
                return ent
        return _MISSING

    def __getitem__(self, key):
        if self._sy is None:
            if not has_sym(key):
                if key in self._ix:
                    return self._ix[key]
                return self._miss(key)
            k = self._locate(key)
            if k is _MISSING:
                return self._miss(key)
            return self._ix[k]
        k = self._locate(key)
        if k is _MISSING:
            return self._miss(key)
        return k[1] if type(k) is list else self._ix[k][1]

    def _miss(self, key):
        m = getattr(type(self), '__missing__', None)
        if m is not None:
            return m(self, key)
        raise KeyError('key')

    def __setitem__(self, key, value):
        if self._sy is None:
            if not has_sym(key):
                self._ix[key] = value
                return
            k = self._locate(key)
            if k is not _MISSING:
                self._ix[k] = value
                return
            self._sy = []
            for kk in list(self._ix):
                ent = [kk, self._ix[kk]]
                self._ix[kk] = ent
                self._sy.append(ent)
            self._sy.append([key, value])
            return
        k = self._locate(key)
        if k is _MISSING:
            ent = [key, value]
            self._sy.append(ent)
            if not has_sym(key):
                self._ix[key] = ent
        elif type(k) is list:
            k[1] = value
        else:
            self._ix[k][1] = value

    def __delitem__(self, key):
        k = self._locate(key)
        if k is _MISSING:
            raise KeyError('key')
        if self._sy is None:
            del self._ix[k]
            return
        ent = k if type(k) is list else self._ix[k]
        self._sy = [e for e in self._sy if e is not ent]
        if not has_sym(ent[0]) and ent[0] in self._ix:
            del self._ix[ent[0]]

    def __contains__(self, key):
        r = self.sx_contains(key)
        return bool(r)

    def sx_contains(self, key):
        if self._sy is None:
            if not has_sym(key):
                return key in self._ix
            return sx_or(*[sx_eq(k, key) for k in self._ix])
        if not has_sym(key) and key in self._ix:
            return True
        for ent in self._sy:
            if ent[0] is key:
                return True
        return sx_or(*[sx_eq(ent[0], key) for ent in self._sy])

    def __iter__(self):
        if self._sy is None:
            return iter(self._ix)
        return iter([e[0] for e in self._sy])

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __len__(self):
        return len(self._ix) if self._sy is None else len(self._sy)

    def __bool__(self):
        return len(self) > 0

    def keys(self):
        return SymKeys(self)

    def values(self):
        if self._sy is None:
            return self._ix.values()
        return [e[1] for e in self._sy]

    def items(self):
        if self._sy is None:
            return self._ix.items()
        return [(e[0], e[1]) for e in self._sy]

    def get(self, key, default=None):
        if self._sy is None and not has_sym(key):
            return self._ix.get(key, default)
        k = self._locate(key)
        if k is _MISSING:
            return default
        if self._sy is None:
            return self._ix[k]
        return k[1] if type(k) is list else self._ix[k][1]

    def copy(self):
        ans = SymDict()
        ans._fill(self)
        return ans

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        ans = type(self).__new__(type(self))
        SymDict.__init__(ans)
        for k, v in self.items():
            SymDict.__setitem__(ans, k, copy.deepcopy(v, memo))
        return ans

    def pop(self, key, *default):
        if SymDict.sx_contains(self, key):
            v = self[key]
            del self[key]
            return v
        if default:
            return default[0]
        raise KeyError('key')

    def popitem(self):
        for k in list(self)[::-1]:
            v = self[k]
            del self[k]
            return k, v
        raise KeyError('popitem(): dictionary is empty')

    def setdefault(self, key, default=None):
        if SymDict.sx_contains(self, key):
            return self[key]
        self[key] = default
        return default

    def update(self, *args, **kw):
        self._fill(*args, **kw)

    def clear(self):
        self._ix = {}
        self._sy = None

    @classmethod
    def fromkeys(cls, it, value=None):
        ans = cls()
        for k in it:
            ans[k] = value
        return ans

    def __or__(self, o):
        ans = SymDict(self)
        ans.update(o)
        return ans

    def __ror__(self, o):
        ans = SymDict(o)
        ans.update(self)
        return ans

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, (SymDict, dict)):
            return NotImplemented
        if len(self) != len(o):
            return False
        if self._sy is None and isinstance(o, SymDict) and o._sy is None:
            acc = []
            keys_sym = False
            for k, v in self._ix.items():
                if k not in o._ix:
                    return False
                r = sx_eq(v, o._ix[k])
                if type(r) is SymBool:
                    acc.append(r)
                elif not r:
                    return False
            return sx_and(*acc)
        # symbolic keys: every entry of self must be matched in o
        acc = []
        oi = list(o.items())
        for k, v in self.items():
            acc.append(sx_or(*[sx_and(sx_eq(k, k2), sx_eq(v, v2)) for k2, v2 in oi]))
        return sx_and(*acc)

    def __ne__(self, o):
        r = SymDict.__eq__(self, o)
        return r if r is NotImplemented else sx_not(r)

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join('%r: %r' % kv for kv in self.items()) + '}'


class SymKeys:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return bool(self.d.sx_contains(k))

    def sx_contains(self, k):
        return self.d.sx_contains(k)

    def __or__(self, o):
        return SymSet(self) | o

    def __ror__(self, o):
        return SymSet(o) | self

    def __and__(self, o):
        return SymSet(self) & o

    def __rand__(self, o):
        return SymSet(o) & self

    def __sub__(self, o):
        return SymSet(self) - o

    def __rsub__(self, o):
        return SymSet(o) - self

    def __xor__(self, o):
        return SymSet(self) ^ o

    def __eq__(self, o):
        return SymSet(self) == o

    def __ne__(self, o):
        return sx_not(SymSet(self) == o)

    __hash__ = None

    def isdisjoint(self, o):
        return SymSet(self).isdisjoint(o)

    def __repr__(self):
        return 'dict_keys(%r)' % list(self)


_SETLIKE = None


def _setlike(o):
    return isinstance(o, (SymSet, SymKeys, set, frozenset, Set))


class SymSet:
    __slots__ = ('d', 'frozen')
    _frozen = False

    def __init__(self, it=()):
        self.d = SymDict()
        d = self.d
        for x in it:
            if d._sy is None and not has_sym(x):
                d._ix.setdefault(x)
            elif not d.sx_contains(x):
                d[x] = None

    @classmethod
    def _of(cls, it):
        return cls(it)

    def __iter__(self):
        if self.d._sy is None:
            # native iteration order of the same concrete contents
            return iter(set(self.d._ix))
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def __contains__(self, k):
        return bool(self.d.sx_contains(k))

    def sx_contains(self, k):
        return self.d.sx_contains(k)

    def add(self, x):
        if not self.d.sx_contains(x):
            self.d[x] = None

    def discard(self, x):
        if self.d.sx_contains(x):
            del self.d[x]

    def remove(self, x):
        if not self.d.sx_contains(x):
            raise KeyError('element')
        del self.d[x]

    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        self.d.clear()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return type(self)(self)

    def union(self, *its):
        ans = type(self)(self)
        for it in its:
            for x in it:
                SymSet.add(ans, x)
        return ans

    def __or__(self, o):
        return self.union(o) if _setlike(o) else NotImplemented

    def __ror__(self, o):
        return type(self)(o).union(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, *its):
        ans = self
        for it in its:
            other = it if isinstance(it, SymSet) else SymSet(it)
            ans = type(self)(x for x in ans if other.sx_contains(x))
        return ans

    def __and__(self, o):
        return self.intersection(o) if _setlike(o) else NotImplemented

    __rand__ = __and__

    def __iand__(self, o):
        keep = self.intersection(o)
        self.d = keep.d
        return self

    def difference(self, *its):
        ans = self
        for it in its:
            other = it if isinstance(it, SymSet) else SymSet(it)
            ans = type(self)(x for x in ans if not other.sx_contains(x))
        return ans

    def __sub__(self, o):
        return self.difference(o) if _setlike(o) else NotImplemented

    def __rsub__(self, o):
        return type(self)(o).difference(self)

    def __isub__(self, o):
        self.d = self.difference(o).d
        return self

    def difference_update(self, *its):
        self.d = self.difference(*its).d

    def intersection_update(self, *its):
        self.d = self.intersection(*its).d

    def symmetric_difference(self, o):
        o = SymSet(o)
        return (self - o) | (o - self)

    __xor__ = symmetric_difference

    def sx_subset(self, o):
        o = o if isinstance(o, (SymSet, SymKeys)) else SymSet(o)
        return sx_and(*[o.sx_contains(x) for x in self])

    def issubset(self, o):
        return self.sx_subset(o)

    def issuperset(self, o):
        return SymSet(o).sx_subset(self)

    def isdisjoint(self, o):
        return sx_not(sx_or(*[self.sx_contains(x) for x in o]))

    def __le__(self, o):
        return self.sx_subset(o)

    def __ge__(self, o):
        return SymSet(o).sx_subset(self)

    def __lt__(self, o):
        return False if len(self) >= len(o) else self.sx_subset(o)

    def __gt__(self, o):
        return False if len(self) <= len(o) else SymSet(o).sx_subset(self)

    def __eq__(self, o):
        if not _setlike(o):
            return NotImplemented
        if len(self) != len(o):
            return False
        return self.sx_subset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)

    __hash__ = None

    def __repr__(self):
        return '{' + ', '.join(repr(x) for x in self) + '}' if len(self) else 'set()'


class SymFrozenSet(SymSet):
    __slots__ = ()

    def __hash__(self):
        return hash(frozenset(iter(self)))


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *args, **kw):
        SymDict.__init__(self)
        self.default_factory = factory
        self._fill(*args, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError('key')
        v = self.default_factory()
        self[key] = v
        return v

    def copy(self):
        return SymDefaultDict(self.default_factory, self)


class SymCounter(SymDict):
    def __init__(self, it=(), **kw):
        SymDict.__init__(self)
        self.update(it, **kw)

    def __missing__(self, key):
        return 0

    def update(self, it=(), **kw):
        if isinstance(it, (SymDict, dict)):
            for k, v in it.items():
                self[k] = self.get(k, 0) + v
        else:
            for x in it:
                self[x] = self.get(x, 0) + 1
        for k, v in kw.items():
            self[k] = self.get(k, 0) + v

    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

    def total(self):
        return sum(self.values())

    def copy(self):
        return SymCounter(self)


def sym_lru_cache(maxsize=128, typed=False):
    def deco(f):
        import functools
        store = SymDict()

        @functools.wraps(f)
        def g(*args, **kw):
            key = (args, tuple(sorted(kw.items())))
            if store.sx_contains(key):
                return store[key]
            v = f(*args, **kw)
            store[key] = v
            return v
        g.cache_clear = store.clear
        g.__sx_store__ = store
        return g
    if callable(maxsize):
        f, maxsize = maxsize, None
        return deco(f)
    return deco
