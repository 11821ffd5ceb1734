"""Concrete runs of a harness against the unmodified repository.

Used for two things: checking that each symbolic path agrees with the real code
on a concrete instance of it, and replaying a counterexample in a fresh process
before it is reported.  No solver and no instrumentation here.
"""
import importlib
import json
import os
import signal
import sys
import traceback

REPO = os.environ.get('SX_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class NativeViolation(BaseException):
    def __init__(self, msg):
        self.msg = msg


class Mismatch(BaseException):
    pass


class NativeTimeout(BaseException):
    pass


class Known(BaseException):
    pass


def plain(x, depth=0):
    """Comparable, printable form of an observed value."""
    t = type(x)
    if x is None or t in (int, str, bool, float):
        return int(x) if t is bool else x
    if t in (list, tuple):
        return [plain(y, depth + 1) for y in x]
    name = t.__name__
    if hasattr(x, 'keys') and hasattr(x, 'items') and name in ('dict', 'SymDict', 'HashableDict', 'defaultdict'):
        return {'dict': sorted(([plain(k), plain(v)] for k, v in x.items()), key=repr)}
    if name in ('set', 'frozenset', 'SymSet', 'SymFrozenSet'):
        return {'set': sorted((plain(y) for y in x), key=repr)}
    if hasattr(x, '__dict__') and depth < 8:
        return {name: sorted(([k, plain(v, depth + 1)] for k, v in vars(x).items() if not callable(v)), key=repr)}
    return '?' + name


class ConcreteSx:
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.observed = []
        self.checks = 0
        self.used = {}

    def int(self, name, lo=None, hi=None):
        v = self.values.get(name, lo if lo is not None else 0)
        self.used[name] = v
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Mismatch('value of %s outside its range' % name)
        return v

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def ints(self, name, n, lo=None, hi=None):
        return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi)

    def choose(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, c):
        if not c:
            raise Mismatch('assumption')

    def check(self, c, msg):
        self.checks += 1
        if not c:
            raise NativeViolation(msg)

    def raises(self, exc, thunk, msg=''):
        try:
            thunk()
        except exc:
            return True
        return False

    def known(self, kid, cond):
        if cond:
            raise Known(kid)

    def observe(self, v):
        self.observed.append(v)


_native_mods = {}
_snapshot = None


def native_modules():
    """Plain imports of the repository and of the harness modules."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    h = os.path.join(VERIF, 'harness')
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if h not in sys.path:
        sys.path.insert(1, h)


def load_harness(mod):
    native_modules()
    return importlib.import_module(mod)


def _alarm(signum, frame):
    raise NativeTimeout()


class _Null:
    def write(self, *a):
        return 0

    def flush(self):
        pass

    def isatty(self):
        return False


def _no_input(*a):
    raise RuntimeError('input() called')


def run(mod, fname, args, values, timeout=30):
    """-> (verdict, detail, observed)   verdict: ok | violation | exception | mismatch | timeout | known"""
    import builtins
    sx = ConcreteSx(values)
    old = signal.signal(signal.SIGALRM, _alarm)
    so, inp = sys.stdout, builtins.input
    sys.stdout = _Null()
    builtins.input = _no_input
    prev = signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        try:
            h = load_harness(mod)
            if hasattr(h, 'warm'):
                h.warm()
            r = getattr(h, fname)(sx, *args)
            if r is not None:
                sx.observe(r)
            return 'ok', '', sx.observed, sx
        except NativeViolation as e:
            return 'violation', e.msg, sx.observed, sx
        except Mismatch as e:
            return 'mismatch', str(e), sx.observed, sx
        except Known as e:
            return 'known', str(e.args[0]), sx.observed, sx
        except NativeTimeout:
            return 'timeout', 'no result within %gs' % timeout, sx.observed, sx
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if '/harness/' not in f.filename] or list(tb)
            fr = where[-1] if where else None
            loc = '%s in %s' % (os.path.basename(fr.filename), fr.name) if fr else ''
            return 'exception', '%s: %s (%s)' % (type(e).__name__, e, loc), sx.observed, sx
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout = so
        builtins.input = inp
        if prev and prev[0]:
            signal.setitimer(signal.ITIMER_REAL, max(prev[0], 0.01))


def main():
    """python native.py REPLAY.json: exit 1 when the recorded input breaks the property."""
    sys.setrecursionlimit(20000)
    with open(sys.argv[1]) as f:
        d = json.load(f)
    v, detail, obs, sx = run(d['module'], d['harness'], d['args'], d['inputs'], d.get('timeout', 60))
    print(json.dumps({'verdict': v, 'detail': detail, 'inputs': sx.used}))
    sys.exit(1 if v in ('violation', 'exception', 'timeout') else 0)


if __name__ == '__main__':
    main()
