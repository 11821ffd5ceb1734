"""Explore every path of the harnesses of one property and decide its assertions."""
import importlib.util
import json
import multiprocessing as mp
import os
import queue as queue_mod
import random
import signal
import subprocess
import sys
import time
import traceback
import z3

from . import core, native
from .core import Engine, PathCut, PathPruned, Violation, SymInt, SymBool, mk
from .instrument import Loader, Snapshot, COV

REPO = native.REPO
VERIF = native.VERIF
NPROC = int(os.environ.get('SX_PROCS', '8'))
# development only: another place for the evidence, and only the harness functions named
EVIDENCE = os.environ.get('SX_EVIDENCE', os.path.join(VERIF, 'evidence'))
ONLY = os.environ.get('SX_ONLY')


class PathTimeout(core.Control):
    pass


class SymSx:
    symbolic = True

    def __init__(self, eng):
        self.eng = eng

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        v = z3.Int(name)
        self.eng.vars[name] = v
        x = SymInt(v)
        if lo is not None or hi is not None:
            c = []
            if lo is not None:
                c.append(v >= lo)
            if hi is not None:
                c.append(v <= hi)
            self.eng.assume(SymBool(z3.And(*c)))
        return x

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def ints(self, name, n, lo=None, hi=None):
        return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

    def choose(self, name, options):
        if len(options) == 1:
            return options[0]
        k = self.int(name, 0, len(options) - 1)
        lo, hi = 0, len(options) - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if k <= mid:
                hi = mid
            else:
                lo = mid + 1
        return options[lo]

    def pick(self, name, lo, hi):
        """An integer of a small range, concrete on each path."""
        return self.eng.concretise(self.int(name, lo, hi))

    def assume(self, c):
        self.eng.assume(c)

    def check(self, c, msg):
        self.eng.check(c, msg)

    def raises(self, exc, thunk, msg=''):
        try:
            thunk()
        except exc:
            return True
        return False

    def known(self, kid, cond):
        """Inputs of a recorded finding: counted and left out of this harness."""
        if cond:
            raise KnownPath(kid)

    def observe(self, v):
        self.eng.observed.append(v)


class KnownPath(core.Control):
    def __init__(self, kid):
        self.kid = kid


def concrete(x, m):
    """Value of an observed (possibly symbolic) object under a model, in plain form."""
    t = type(x)
    if t is SymInt:
        return m.eval(x.e, model_completion=True).as_long()
    if t is core.SymRatio:
        return concrete(x.n, m) / concrete(x.d, m)
    if t is SymBool:
        return int(z3.is_true(m.eval(x.e, model_completion=True)))
    if x is None or t in (int, str, bool, float):
        return int(x) if t is bool else x
    if t in (list, tuple):
        return [concrete(y, m) for y in x]
    name = t.__name__
    if hasattr(x, 'keys') and hasattr(x, 'items'):
        return {'dict': sorted(([concrete(k, m), concrete(v, m)] for k, v in x.items()), key=repr)}
    if name in ('set', 'frozenset', 'SymSet', 'SymFrozenSet'):
        return {'set': sorted((concrete(y, m) for y in x), key=repr)}
    if hasattr(x, '__dict__'):
        return {name: sorted(([k, concrete(v, m)] for k, v in vars(x).items() if not callable(v)), key=repr)}
    return '?' + name


# ---------------------------------------------------------------- worker

_state = {}


def _alarm(signum, frame):
    raise PathTimeout()


def _load(mod, symkeys):
    key = (mod, symkeys)
    if key not in _state:
        ld = Loader([REPO, os.path.join(VERIF, 'harness')], symkeys=symkeys)
        h = ld.load(mod)
        if hasattr(h, 'warm'):
            h.warm()
        snap = Snapshot(list(ld.mods.values()))
        _state[key] = (ld, h, snap)
    return _state[key]


def _native_snapshot(mod):
    key = ('native', mod)
    if key not in _state:
        h = native.load_harness(mod)
        so = sys.stdout
        sys.stdout = native._Null()
        try:
            if hasattr(h, 'warm'):
                h.warm()
        finally:
            sys.stdout = so
        mods = [m for m in list(sys.modules.values())
                if getattr(m, '__file__', None) and os.path.dirname(m.__file__) in (REPO, os.path.join(VERIF, 'harness'))]
        _state[key] = Snapshot(mods)
    return _state[key]


def run_chunk(task):
    """Explore from a prefix for at most `budget` seconds; return stats + frontier."""
    mod, job, prefix, budget, opt = task
    sys.setrecursionlimit(12000)
    res = {'job': job['key'], 'paths': 0, 'pruned': 0, 'violations': [], 'cut': [], 'known': [], 'checks': 0, 'solver_checks': 0,
           'syntactic': 0, 'queries': 0, 'solver_s': 0.0, 'nodes': 0, 'edges': 0, 'validated': 0, 'validate_tried': 0,
           'mismatch': [], 'frontier': [], 'functions': [], 'sample': None, 'unknown': 0, 'reached': 0}
    t0 = time.perf_counter()
    try:
        ld, h, snap = _load(mod, job.get('symkeys', True))
    except Exception as e:
        # the repository does not load: the real import decides
        res['violations'].append({'msg': 'import failed: %s: %s' % (type(e).__name__, e), 'inputs': {}, 'kind': 'load'})
        return res
    fn = getattr(h, job['f'])
    eng = Engine(seed=opt['seed'], conc_cap=job.get('conc_cap', 40))
    eng.som = job.get('som', False)
    eng.load_prefix(prefix)
    sx = SymSx(eng)
    COV.hit.clear()
    core.set_engine(eng)
    path_timeout = job.get('path_timeout', 60)
    signal.signal(signal.SIGALRM, _alarm)
    n = 0
    while True:
        snap.restore()
        eng.start_path()
        outcome = 'ok'
        detail = None
        model = None
        try:
            signal.setitimer(signal.ITIMER_REAL, path_timeout)
            try:
                r = fn(sx, *job['args'])
                if r is not None:
                    sx.observe(r)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except PathPruned:
            outcome = 'pruned'
        except Violation as e:
            outcome, detail, model = 'violation', e.msg, e.model
        except KnownPath as e:
            outcome, detail = 'known', e.kid
        except PathCut as e:
            outcome, detail = 'cut', e.why
        except PathTimeout:
            outcome, detail = 'cut', 'path timeout'
        except core.Nondeterminism as e:
            outcome, detail = 'cut', 'nondeterminism: %s' % e
            res['nondet'] = True
        except Exception as e:
            outcome = 'exception'
            tb = traceback.extract_tb(e.__traceback__)
            detail = '%s: %s @ %s' % (type(e).__name__, e, ' < '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in tb[-6:][::-1]))
        n += 1
        eng.quiet = True
        if outcome == 'pruned':
            res['pruned'] += 1
        else:
            res['paths'] += 1
            if eng.path_checks:
                res['reached'] += 1
            if model is None and outcome != 'violation':
                try:
                    model = eng.path_model()
                except PathPruned:
                    outcome = 'pruned'
                    res['paths'] -= 1
                    res['pruned'] += 1
        if outcome != 'pruned':
            inputs = eng.values(model)
            if outcome in ('violation', 'exception'):
                res['violations'].append({'msg': detail, 'inputs': inputs, 'kind': outcome})
            elif outcome == 'cut':
                res['cut'].append({'why': detail, 'inputs': inputs})
            elif outcome == 'known':
                res['known'].append(detail)
            stride = job.get('validate_every', 1)
            if outcome == 'cut' and detail not in ('path timeout', 'decision limit'):
                # outside the encoding from here on: the rest of the path is followed on the real code for one input
                ns = _native_snapshot(mod)
                ns.restore()
                v, d, obs, _ = native.run(mod, job['f'], job['args'], inputs, timeout=min(60, path_timeout))
                ns.restore()
                if v in ('violation', 'exception', 'timeout'):
                    res['violations'].append({'msg': 'on the real code: ' + d, 'inputs': inputs, 'kind': 'native-' + v})
            if outcome in ('ok', 'known') and model is not None and n % stride == 0:
                res['validate_tried'] += 1
                ns = _native_snapshot(mod)
                ns.restore()
                v, d, obs, _ = native.run(mod, job['f'], job['args'], inputs, timeout=min(60, path_timeout))
                ns.restore()
                if v == 'known' and outcome == 'known':
                    res['validated'] += 1
                elif v == 'ok' and outcome == 'ok':
                    a = [concrete(o, model) for o in eng.observed]
                    b = [native.plain(o) for o in obs]
                    if a == b:
                        res['validated'] += 1
                        if res['sample'] is None or n % 50 == 0:
                            res['sample'] = {'harness': job['f'], 'args': job['args'], 'path_condition_size': len(eng.solver.assertions()),
                                             'model': inputs, 'observed': json.loads(json.dumps(b))[:2]}
                    else:
                        res['mismatch'].append({'inputs': inputs, 'symbolic': repr(a)[:600], 'native': repr(b)[:600]})
                elif v in ('violation', 'exception', 'timeout'):
                    res['violations'].append({'msg': 'on the real code: ' + d, 'inputs': inputs, 'kind': 'native-' + v})
                else:
                    res['mismatch'].append({'inputs': inputs, 'symbolic': outcome, 'native': v + ' ' + d})
        eng.quiet = False
        if res['violations'] and len(res['violations']) >= 3:
            break
        if res.get('nondet'):
            break
        if not eng.next_path():
            break
        if time.perf_counter() - t0 > budget:
            # hand back everything still pending, including the path just selected
            last = eng.trail[-1]
            sel = [(e[1], e[2], e[5]) for e in eng.trail]
            res['frontier'] = [sel] + eng.frontier()
            break
    core.set_engine(None)
    res['queries'] = eng.queries
    res['solver_s'] = eng.solver_s
    res['nodes'] = eng.nodes
    res['edges'] = eng.edges
    res['checks'] = eng.checks
    res['solver_checks'] = eng.checks_solver
    res['syntactic'] = eng.checks_syntactic
    res['unknown'] = eng.unknown
    res['functions'] = sorted(COV.hit)
    res['time'] = time.perf_counter() - t0
    return res


def _worker(inq, outq):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        task = inq.get()
        if task is None:
            return
        try:
            outq.put(('ok', run_chunk(task)))
        except BaseException as e:
            outq.put(('err', {'job': task[1]['key'], 'err': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())}))


# ---------------------------------------------------------------- driver

def replay_fresh(mod, job, inputs, pid, n, timeout=60):
    d = os.path.join(EVIDENCE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, n))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'module': mod, 'harness': job['f'], 'args': job['args'], 'inputs': inputs,
                   'timeout': timeout, 'how': 'python3 /verif/sx/native.py ' + path}, f, indent=1)
    py = '/opt/venv/bin/python'
    if not os.path.exists(py):
        py = sys.executable
    try:
        p = subprocess.run([py, os.path.join(VERIF, 'sx', 'native.py'), path], capture_output=True, text=True,
                           timeout=timeout + 60, env=dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'))
        out = p.stdout.strip().splitlines()
        v = json.loads(out[-1]) if out else {'verdict': 'error', 'detail': p.stderr[-500:]}
    except subprocess.TimeoutExpired:
        v = {'verdict': 'timeout', 'detail': 'killed'}
    return path, v


def run_property(pid, mod, tier, seed, level_info):
    t0 = time.time()
    spec_path = os.path.join(VERIF, 'harness', mod + '.py')
    # job lists come from the plain module: they are concrete data
    native.native_modules()
    try:
        h = native.load_harness(mod)
        jobs = h.jobs(tier)
        if ONLY:
            jobs = [j for j in jobs if j['f'] in ONLY.split(',')]
    except Exception as e:
        # repository import failure is a failure of every harness
        src = open(spec_path).read()
        job = {'key': 'import', 'f': 'jobs', 'args': [tier]}
        print('error: %s failed to load: %s: %s' % (mod, type(e).__name__, e))
        return 2
    for i, j in enumerate(jobs):
        j.setdefault('args', [])
        j['key'] = i
        j.setdefault('soft', False)
    budget_soft = getattr(h, 'SOFT_SECONDS', {}).get(tier, 100 if tier == 'quick' else 1800)
    budget_hard = getattr(h, 'HARD_SECONDS', {}).get(tier, 780 if tier == 'quick' else 7200)
    opt = {'seed': seed}
    inq, outq = mp.Queue(), mp.Queue()
    sys.stdout.flush()
    procs = [mp.Process(target=_worker, args=(inq, outq), daemon=True) for _ in range(NPROC)]
    for p in procs:
        p.start()
    pending = []
    for j in jobs:
        pending.append((j['key'], []))
    pending.reverse()           # a stack: first job first
    inflight = 0
    S = {k: 0 for k in ('paths', 'pruned', 'checks', 'solver_checks', 'syntactic', 'queries', 'nodes', 'edges',
                        'validated', 'validate_tried', 'unknown', 'reached')}
    S['solver_s'] = 0.0
    funcs, samples = set(), []
    per = {j['key']: {'paths': 0, 'reached': 0, 'left': 0, 'time': 0.0, 'tasks': 1} for j in jobs}
    viol, cuts, mism, errs, known = [], [], [], [], {}
    confirmed = None
    unconfirmed = []
    nrep = 0
    incomplete = {}
    stop = False
    dbg = os.environ.get('SX_DEBUG')
    sample_jobs = set()

    def drop(cond):
        nonlocal pending
        keep = []
        for k, pre in pending:
            if cond(jobs[k]):
                incomplete[k] = incomplete.get(k, 0) + 1
            else:
                keep.append((k, pre))
        pending = keep

    while (pending or inflight) and not stop:
        el = time.time() - t0
        if el > budget_hard:
            drop(lambda j: True)
        elif el > budget_soft:
            drop(lambda j: j['soft'])
        while pending and inflight < NPROC + 2:
            k, pre = pending.pop()
            b = 2.0 if len(pending) < NPROC else 6.0
            inq.put((mod, jobs[k], pre, b, opt))
            inflight += 1
        if not inflight:
            break
        try:
            kind, r = outq.get(timeout=1.0)
        except queue_mod.Empty:
            if not any(p.is_alive() for p in procs):
                errs.append('all workers died')
                break
            dead = [p for p in procs if not p.is_alive()]
            if dead:
                errs.append('a worker died (exit %s)' % dead[0].exitcode)
                break
            if time.time() - t0 > budget_hard + 60:
                errs.append('hard deadline passed with work in flight')
                break
            continue
        inflight -= 1
        if kind == 'err':
            errs.append(r['err'])
            if dbg:
                print(r['err'])
            continue
        k = r['job']
        for s in S:
            S[s] += r[s]
        per[k]['paths'] += r['paths']
        per[k]['reached'] += r['reached']
        per[k]['time'] += r.get('time', 0)
        funcs.update(r['functions'])
        for kid in r['known']:
            known[kid] = known.get(kid, 0) + 1
        if r['sample'] is not None and (k not in sample_jobs) and len(samples) < 12:
            sample_jobs.add(k)
            samples.append(r['sample'])
        for c in r['cut']:
            cuts.append((k, c))
        for m in r['mismatch']:
            mism.append((k, m))
        for pre in r['frontier']:
            pending.append((k, pre))
        for v in r['violations']:
            viol.append((k, v))
            if len(viol) <= 12 and not confirmed:
                path, nv = replay_fresh(mod, jobs[k], v['inputs'], pid, nrep)
                nrep += 1
                if nv['verdict'] in ('violation', 'exception', 'timeout'):
                    confirmed = (path, k, v, nv)
                    stop = True
                    break
                unconfirmed.append((k, v, nv))
                if dbg:
                    print('UNCONFIRMED', jobs[k], v, nv)
        # a path that did not end: does the real code end?
        if not confirmed:
            for c in r['cut']:
                if c['why'] in ('path timeout', 'decision limit') and nrep < 6:
                    path, nv = replay_fresh(mod, jobs[k], c['inputs'], pid, nrep, timeout=90)
                    nrep += 1
                    if nv['verdict'] in ('violation', 'exception', 'timeout'):
                        confirmed = (path, k, {'msg': c['why'], 'inputs': c['inputs']}, nv)
                        stop = True
                        break
        if len(unconfirmed) >= 6:
            stop = True
    for _ in procs:
        inq.put(None)
    for p in procs:
        p.join(timeout=0.3)
        if p.is_alive():
            p.kill()
    wall = time.time() - t0
    vacuous = [k for k in per if per[k]['paths'] and not per[k]['reached'] and not jobs[k].get('may_be_vacuous')
               and k not in incomplete]
    notes = []
    if cuts:
        notes.append('%d paths left the encoding: %s' % (len(cuts), '; '.join(sorted({c['why'][:80] for _, c in cuts}))[:400]))
    if incomplete:
        notes.append('%d harness instances not finished within the time limit' % len(incomplete))
    full = [jobs[k] for k in per if k not in incomplete and not any(kk == k for kk, _ in cuts)]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level_info['level'],
        'coverage': {
            'states': S['nodes'] + S['paths'],
            'transitions': S['edges'],
            'traces_validated_against_impl': S['validated'],
            'paths_explored': S['paths'],
            'paths_pruned_by_assumptions': S['pruned'],
            'paths_reaching_an_assertion': S['reached'],
            'assertions_checked': S['checks'],
            'assertions_decided_by_solver_query': S['solver_checks'],
            'assertions_true_after_simplification': S['syntactic'],
            'solver_queries': S['queries'],
            'solver_seconds': round(S['solver_s'], 3),
            'solver_unknown': S['unknown'],
            'solver': 'z3 ' + z3.get_version_string(),
            'functions_encoded': sorted(f for f in funcs if not f.startswith(mod) and not f.startswith('ref')),
            'harness_instances': len(jobs),
            'harness_instances_complete': len(full),
            'bounds': getattr(h, 'BOUNDS', ''),
            'outside': getattr(h, 'OUTSIDE', ''),
            'samples': samples,
            'instances': [{'harness': jobs[k]['f'], 'args': jobs[k]['args'], 'paths': per[k]['paths'],
                           'complete': k not in incomplete, 'cpu_s': round(per[k]['time'], 2)} for k in per][:400],
            'exhaustive': not incomplete and not cuts and confirmed is None,
            'incomplete_notes': notes,
            'known_findings_met': known,
        },
        'assumptions': getattr(h, 'ASSUMPTIONS', []) + [
            'hash agrees with == for dictionary keys that hold symbolic integers (lookups compare with ==)',
            'loops, sizes and structure are bounded as stated; nothing is claimed outside the bounds'],
        'wall_s': round(wall, 2),
        'violations': 1 if confirmed else 0,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if dbg:
        for k in per:
            if per[k]['time'] > 1 or dbg == '2':
                print('   job', jobs[k]['f'], jobs[k]['args'], per[k], 'INCOMPLETE' if k in incomplete else '')
    print('%s %s: %d paths, %d states, %d assertions (%d by query), %d queries, solver %.1fs, validated %d/%d, %.1fs wall%s' % (
        pid, tier, S['paths'], ev['coverage']['states'], S['checks'], S['solver_checks'], S['queries'], S['solver_s'],
        S['validated'], S['validate_tried'], wall, ''.join(' [' + x + ']' for x in notes)))
    for kid in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (pid, level_info['known'].get(kid, kid)))
    if confirmed:
        path, k, v, nv = confirmed
        ev['coverage']['counterexample'] = {'harness': jobs[k]['f'], 'args': jobs[k]['args'], 'inputs': v['inputs'],
                                            'message': v['msg'], 'real_code': nv}
        with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('  %s%s: %s' % (jobs[k]['f'], jobs[k]['args'], v['msg']))
        print('  inputs: %s' % json.dumps(v['inputs']))
        print('  real code: %s' % json.dumps(nv)[:500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    bad = False
    if errs:
        print('error: ' + errs[0][:3000])
        bad = True
    if unconfirmed:
        k, v, nv = unconfirmed[0]
        print('error: counterexample did not reproduce on the real code: %s%s %s -> %s' % (jobs[k]['f'], jobs[k]['args'], json.dumps(v)[:900], nv))
        bad = True
    if mism:
        k, m = mism[0]
        print('error: encoding disagrees with the real code: %s%s %s' % (jobs[k]['f'], jobs[k]['args'], json.dumps(m)[:1500]))
        bad = True
    if vacuous:
        k = vacuous[0]
        print('error: no path of %s%s reaches an assertion' % (jobs[k]['f'], jobs[k]['args']))
        bad = True
    if S['paths'] == 0 and not errs:
        print('error: no path explored')
        bad = True
    return 2 if bad else 0
