"""Runs the harnesses of one check: symbolic exploration in parallel workers,
concrete replay of counterexamples and of sample paths, evidence."""
import importlib
import json
import multiprocessing
import os
import resource
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VP_EVID') or os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.json')


class H(object):
    """One harness: fn(E, U) over engine E and module universe U."""

    def __init__(self, name, fn, modules=(), bounds='', stubs=None,
                 tier='quick', paths=3000, seconds=150, replays=4,
                 assumes='', query_ms=20000, tolerance=(1e-5, 1e-6),
                 thorough_paths=None, thorough_seconds=None, setup=None):
        self.name = name
        self.fn = fn
        self.modules = list(modules)
        self.bounds = bounds
        self.stubs = stubs          # fn(symbolic) -> {modname: module}
        self.tier = tier
        self.paths = paths
        self.seconds = seconds
        self.replays = replays
        self.assumes = assumes
        self.query_ms = query_ms
        self.tolerance = tolerance
        self.thorough_paths = thorough_paths or paths * 8
        self.thorough_seconds = thorough_seconds or max(seconds * 4, 600)
        self.setup = setup


_UNI = {}


def universe(symbolic, stubs=None):
    from .loader import Universe
    k = (symbolic, stubs)
    if k not in _UNI:
        u = Universe(symbolic, stubs(symbolic) if stubs else None)
        _UNI[k] = u
    return _UNI[k]


def _preload(hs):
    errs = {}
    for h in hs:
        for sym in (False, True):
            u = universe(sym, h.stubs)
            for m in h.modules:
                try:
                    u.load('cgpm.' + m)
                except Exception as e:
                    errs[h.name] = '%s: %s' % (type(e).__name__, e)
    return errs


def concrete(h, values, choices):
    from .engine import ConcEngine
    u = universe(False, h.stubs)
    E = ConcEngine(values, choices, *h.tolerance)
    import numpy as np
    import warnings
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        E.run(lambda e: h.fn(e, u))
    return E


def _work(h, tier, seed, known, conn):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    if os.environ.get('VP_DUMP'):
        import faulthandler
        faulthandler.dump_traceback_later(int(os.environ['VP_DUMP']),
                                          repeat=True)
    from .engine import SymEngine, Limits, Budget
    from .sym import Unsupported
    from . import sym as S
    t0 = time.time()
    res = {'name': h.name, 'status': 'ok', 'why': '', 'violations': [],
           'unreproduced': [], 'witness': False, 'samples': [],
           'replays': 0}
    try:
        us = universe(True, h.stubs)
        us.py2.functions.clear()
        sec = h.seconds if tier == 'quick' else h.thorough_seconds
        pth = h.paths if tier == 'quick' else h.thorough_paths
        E = SymEngine(Limits(pth, sec, h.query_ms), seed)
        E.known_labels = set(known)
        nrep = h.replays if tier == 'quick' else h.replays * 4
        state = {'n': 0, 'next': 1}

        def replay(values, choices, passing):
            c = concrete(h, values, choices)
            E.stats.replays += 1
            return c

        def on_path(eng, ended):
            state['n'] += 1
            if ended != 'done' or not eng.path_checks:
                return
            # spread replays over the exploration: paths 1, 2, 4, 8, ...
            if not res['witness'] or (
                    state['n'] >= state['next'] and E.stats.replays < nrep):
                state['next'] = state['n'] * 2
                vals = eng.path_model()
                if vals is None:
                    return
                res['witness'] = True
                ch = dict(eng.choices)
                S.CTX.engine = None
                c = replay(vals, ch, True)
                S.CTX.engine = eng
                if len(res['samples']) < 3:
                    res['samples'].append({
                        'harness': h.name, 'choices': ch,
                        'values': {k: str(v) for k, v in vals.items()},
                        'checks': dict(eng.path_labels),
                        'replay': 'ok' if not c.failures else
                        str(c.failures[:1])})
                for f in c.failures:
                    res['violations'].append({
                        'label': f[0], 'detail': str(f[1])[:600],
                        'tb': [str(x) for x in f[2]],
                        'values': vals, 'choices': ch,
                        'origin': 'replay of a path the solver passed'})
        try:
            E.explore(lambda e: h.fn(e, us), on_path)
        except Budget as e:
            res['status'] = 'bounded'
            res['why'] = str(e)
        except Unsupported as e:
            res['status'] = 'undecided'
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if '/vp/' not in f.filename][-1:]
            res['why'] = '%s @ %s' % (e, ['%s:%s' % (f.filename, f.lineno)
                                          for f in loc])
            try:
                v = E.path_model()
            except BaseException:
                v = None
            for vals in [v or {}]:
                S.CTX.engine = None
                c = replay(vals, dict(E.choices), False)
                for f in c.failures:
                    res['violations'].append({
                        'label': f[0], 'detail': str(f[1])[:600],
                        'tb': [str(x) for x in f[2]],
                        'values': vals, 'choices': dict(E.choices),
                        'origin': 'replay of a path left undecided'})
        S.CTX.engine = None
        for cx in E.cex:
            hit = None
            for vals in cx.values:
                c = replay(vals, cx.choices, False)
                for f in c.failures:
                    if hit is None or f[0] == cx.label:
                        hit = {'label': f[0], 'detail': str(f[1])[:600],
                               'tb': [str(x) for x in f[2]], 'values': vals,
                               'choices': cx.choices,
                               'origin': 'solver counterexample (%s)'
                                         % cx.detail[:300]}
                        if f[0] == cx.label:
                            break
                if hit is not None and hit['label'] == cx.label:
                    break
            if hit is not None:
                res['violations'].append(hit)
            else:
                res['unreproduced'].append(
                    {'label': cx.label, 'detail': cx.detail[:900],
                     'choices': cx.choices, 'values': [
                         {k: str(x) for k, x in v.items()}
                         for v in cx.values[:2]]})
        if res['unreproduced'] and res['status'] in ('ok', 'bounded'):
            res['status'] = 'undecided'
            res['why'] = 'counterexample did not reproduce: %s' % (
                res['unreproduced'][0]['label'])
        if not res['witness'] and not res['violations'] and \
                res['status'] in ('ok',):
            res['status'] = 'undecided'
            res['why'] = 'vacuous: no feasible path reached an assertion'
        st = E.stats.to_dict()
        st.pop('samples')
        res['stats'] = st
        res['functions'] = us.functions()
    except MemoryError:
        res['status'] = 'undecided'
        res['why'] = 'out of memory'
    except BaseException as e:
        res['status'] = 'undecided'
        res['why'] = 'internal: %s: %s' % (type(e).__name__, e)
        res['tb'] = traceback.format_exc()
    res['wall_s'] = round(time.time() - t0, 2)
    try:
        conn.send(json.loads(json.dumps(res, default=str)))
    finally:
        conn.close()
        os._exit(0)


def load_known(pid):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f) if k.get('property') == pid and
                    k.get('status') == 'known']
    except IOError:
        return []


def _is_known(known, h, v):
    for k in known:
        if k['harness'] == h and k['label'] == v['label'] and \
                all(v['choices'].get(a) == b
                    for a, b in k.get('choices', {}).items()):
            return k
    return None


def run(pid, tier, only=None, jobs=8, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('checks.%s' % pid.lower())
    hs = [h for h in mod.harnesses() if tier == 'thorough' or
          h.tier == 'quick']
    if only:
        hs = [h for h in hs if only in h.name]
    known = load_known(pid)
    if only is None and tier == 'quick':
        rdir = os.path.join(EVID, 'replay')
        if os.path.isdir(rdir):
            for f in os.listdir(rdir):
                if f.startswith(pid + '-'):
                    os.unlink(os.path.join(rdir, f))
    load_errors = _preload(hs)
    ctx = multiprocessing.get_context('fork')
    pending = list(hs)
    pending.sort(key=lambda h: -h.seconds)
    running = {}
    results = []
    hard = 840 if tier == 'quick' else 6 * 3600
    while pending or running:
        while pending and len(running) < jobs:
            h = pending.pop(0)
            a, b = ctx.Pipe(False)
            kl = [k['label'] for k in known if k['harness'] == h.name]
            p = ctx.Process(target=_work, args=(h, tier, seed, kl, b))
            p.start()
            b.close()
            sec = h.seconds if tier == 'quick' else h.thorough_seconds
            running[p] = (h, a, time.time() + sec + 60)
        done = multiprocessing.connection.wait(
            [a for _, a, _ in running.values()], timeout=1.0)
        for p, (h, a, dl) in list(running.items()):
            r = None
            if a in done:
                try:
                    r = a.recv()
                except EOFError:
                    r = {'name': h.name, 'status': 'undecided',
                         'why': 'worker died', 'violations': [],
                         'unreproduced': [], 'samples': []}
            elif time.time() > dl or time.time() - t0 > hard:
                r = {'name': h.name, 'status': 'undecided',
                     'why': 'wall-clock limit', 'violations': [],
                     'unreproduced': [], 'samples': []}
            if r is not None:
                try:
                    p.kill()
                except Exception:
                    pass
                p.join()
                a.close()
                del running[p]
                r['bounds'] = h.bounds
                r['assumes'] = h.assumes
                if h.name in load_errors and not r['violations']:
                    r['why'] += ' load: ' + load_errors[h.name]
                results.append(r)
                if os.environ.get('VP_FAST') and any(
                        _is_known(known, r['name'], v) is None
                        for v in r['violations']):
                    # development only: the first violation will do
                    pending = []
                    for q in running:
                        q.kill()
                        q.join()
                    running = {}
                    break
                if verbose:
                    s = r.get('stats') or {}
                    print('  %-44s %-9s %6.1fs paths=%s queries=%s solver=%.1f'
                          ' %s' % (h.name, r['status'], r.get('wall_s', 0),
                                   s.get('paths'), s.get('queries'),
                                   s.get('solver_s', 0), r['why'][:200]))
                    for u in r['unreproduced']:
                        print('      unreproduced %s %s' % (
                            u['label'], u['detail'][:400]))
                        print('          %s' % (u['choices'],))
                        print('          %s' % (u['values'][:1],))
                    if 'tb' in r:
                        print(r['tb'])
                    sys.stdout.flush()
    return finish(pid, tier, seed, mod, hs, results, known, t0, verbose)


def finish(pid, tier, seed, mod, hs, results, known, t0, verbose):
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    bad = []
    seen_known = {}
    for r in results:
        for v in r['violations']:
            k = _is_known(known, r['name'], v)
            if k is not None:
                seen_known[json.dumps(k, sort_keys=True)] = k
                continue
            bad.append((r['name'], v))
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    undecided = [r for r in results if r['status'] == 'undecided']
    stats = {'paths': 0, 'decisions': 0, 'queries': 0, 'verdicts': 0,
             'solver_s': 0., 'replays': 0, 'unknown': 0, 'assumed_out': 0}
    funcs = set()
    samples = []
    labels = {}
    for r in results:
        s = r.get('stats') or {}
        for k in stats:
            stats[k] += s.get(k, 0)
        funcs |= set(r.get('functions') or [])
        samples.extend(r['samples'][:1])
        for k, n in (s.get('checks') or {}).items():
            labels[k] = labels.get(k, 0) + n
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': stats['paths'], 'transitions': stats['decisions'],
            'traces_validated_against_impl': stats['replays'],
            'samples': samples[:8] or [{'note': 'none'}],
            'solver_queries': stats['queries'],
            'assertions_discharged': stats['verdicts'],
            'solver_seconds': round(stats['solver_s'], 2),
            'solver_unknown_fallbacks': stats['unknown'],
            'paths_cut_by_assumptions': stats['assumed_out'],
            'functions_encoded': sorted(funcs),
            'assertion_labels': labels,
            'harnesses': [{
                'name': r['name'], 'status': r['status'], 'why': r['why'],
                'bounds': r.get('bounds', ''),
                'assumes': r.get('assumes', ''),
                'paths': (r.get('stats') or {}).get('paths', 0),
                'wall_s': r.get('wall_s', 0)} for r in results],
            'undecided': [{'harness': r['name'], 'why': r['why']}
                          for r in undecided],
            'exhaustive': False,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'floating point is modelled by exact real arithmetic; '
            'the sampled concrete replays use the real float numerics',
            'paths explored within the structural bounds listed per harness',
        ],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for i, (h, v) in enumerate(bad[:5]):
        path = os.path.join(rdir, '%s-%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'harness': h, 'violation': v}, f,
                      indent=1, default=str)
        print('  harness=%s label=%s %s' % (h, v['label'], v['detail'][:500]))
        print('    choices=%s' % (v['choices'],))
        print('    values=%s' % (v['values'],))
        print('    origin=%s' % (v['origin'],))
        for t in v.get('tb', [])[-6:]:
            print('    | %s' % t)
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for r in undecided:
        print('INCONCLUSIVE harness=%s %s' % (r['name'], r['why'][:300]))
    print('%s: %d harnesses, %d paths, %d queries, %d assertions, %d replays,'
          ' solver %.1fs, wall %.1fs' % (
              pid, len(results), stats['paths'], stats['queries'],
              stats['verdicts'], stats['replays'], stats['solver_s'],
              time.time() - t0))
    if bad:
        return 1
    if undecided and 2 * len(undecided) > len(results):
        return 2
    return 0


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module('checks.%s' % d['property'].lower())
    for h in mod.harnesses():
        if h.name == d['harness']:
            _preload([h])
            c = concrete(h, d['violation']['values'],
                         d['violation']['choices'])
            for f in c.failures:
                print(f)
            print('reproduced' if c.failures else 'not reproduced')
            return 1 if c.failures else 0
    print('no such harness')
    return 2
