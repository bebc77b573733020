"""Exploration engine shared by all checks.

A check module enumerates a finite, deterministic list of scenarios (the
bounded space) and runs every one of them on the real code imported from
/repo.  The engine spreads the scenarios over forked workers, guards each one
with a watchdog, collects violations, filters known findings and writes the
evidence and replay files.
"""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import hashlib
import fnmatch
from mc import cov

FAST = os.environ.get('MC_FAST')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVID, 'replays')


class Violation(Exception):
    """Raised by a scenario as soon as the property is seen to fail."""

    def __init__(self, kind, msg, **detail):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.detail = detail


class ScenarioTimeout(Exception):
    pass


class Rec(object):
    """Per-scenario recorder handed to the scenario function."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = set()
        self.violations = []
        self.sample = None
        self.extra = {}

    def state(self, n=1):
        self.states += n

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def evaluation(self, n=1):
        self.evaluations += n

    def outcome(self, *val):
        self.outcomes.add(digest(val))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def violate(self, kind, msg, **detail):
        """Record a violation and carry on exploring the scenario."""
        if len(self.violations) < 20:
            self.violations.append((kind, msg, detail))


def digest(val):
    h = hashlib.sha1()

    def upd(v):
        import numpy as np
        if isinstance(v, np.ndarray):
            if v.dtype.kind in 'fc':
                w = np.round(v.astype(np.complex128), 7) + 0.0
                h.update(repr(w.shape).encode())
                h.update(w.tobytes())
            else:
                h.update(repr((v.shape, v.tolist())).encode())
        elif isinstance(v, (tuple, list)):
            h.update(b'(')
            for x in v:
                upd(x)
            h.update(b')')
        elif isinstance(v, float):
            h.update(('%.7e' % v).encode())
        else:
            h.update(repr(v).encode())
    upd(val)
    return h.hexdigest()[:16]


def _alarm(sig, frm):
    raise ScenarioTimeout()


def run_scenario(mod, scn, limit):
    rec = Rec()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        mod.run(scn, rec)
    except Violation as e:
        rec.violations.append((e.kind, e.msg, e.detail))
    except ScenarioTimeout:
        rec.violations.append((
            'no-termination', 'scenario did not finish within %d s' % limit,
            {}))
    except BaseException as e:
        tb = traceback.format_exc().splitlines()
        rec.violations.append((
            'unexpected-exception',
            '%s: %s' % (type(e).__name__, str(e)[:300]),
            {'traceback': tb[-8:]}))
        if isinstance(e, KeyboardInterrupt):
            raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return rec


def _worker(wid, mod, scns, nxt, cur, outq, limit, deadline):
    try:
        if hasattr(mod, 'worker_init'):
            mod.worker_init(wid)
        while True:
            if time.time() > deadline:
                break
            with nxt.get_lock():
                i = nxt.value
                if i >= len(scns):
                    break
                nxt.value = i + 1
            cur[wid] = i
            rec = run_scenario(mod, scns[i], limit)
            outq.put((i, rec.states, rec.transitions, rec.traces,
                      rec.evaluations, rec.outcomes, rec.violations,
                      rec.sample, rec.extra))
            cur[wid] = -1
        if hasattr(mod, 'worker_done'):
            mod.worker_done(wid)
        cov.save()
    except BaseException:
        outq.put(('fatal', traceback.format_exc()))
    finally:
        outq.put(('done', wid))
        outq.close()
        outq.join_thread()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)


def load_known(prop):
    fn = os.path.join(VERIF, 'known_findings.json')
    with open(fn) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e['property'] == prop]


def jsonable(v):
    try:
        json.dumps(v)
        return v
    except (TypeError, ValueError):
        if isinstance(v, dict):
            return {str(k): jsonable(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [jsonable(x) for x in v]
        return repr(v)[:2000]


def explore(mod, tier, seed, nworkers=None):
    prop = mod.PROPERTY
    t0 = time.time()
    scns = list(mod.scenarios(tier))
    if os.environ.get("MC_ONLY"):       # development: some scenarios only
        scns = [s for s in scns if os.environ["MC_ONLY"] in s["key"]]
    limit = getattr(mod, 'SCENARIO_LIMIT', 120)
    budget = getattr(mod, 'BUDGET', {}).get(
        tier, 600 if tier == 'quick' else 6 * 3600)
    nworkers = nworkers or int(os.environ.get('MC_WORKERS', '8'))
    nworkers = max(1, min(nworkers, getattr(mod, 'MAX_WORKERS', 8),
                          len(scns)))
    ctx = mp.get_context('fork')
    nxt = ctx.Value('l', 0)
    cur = ctx.Array('l', [-1] * nworkers)
    outq = ctx.Queue()
    deadline = t0 + budget
    procs = [ctx.Process(target=_worker,
                         args=(w, mod, scns, nxt, cur, outq, limit,
                               deadline))
             for w in range(nworkers)]
    for p in procs:
        p.start()

    tot = dict(states=0, transitions=0, traces=0, evaluations=0)
    outcomes = set()
    viols = []
    samples = []
    extra = {}
    ndone = 0
    nfin = 0
    alive = set(range(nworkers))
    fatal = []
    import queue as _q
    while alive:
        try:
            r = outq.get(timeout=1.0)
        except _q.Empty:
            for w in list(alive):
                if not procs[w].is_alive():
                    # drain once more before declaring the worker dead
                    try:
                        r = outq.get(timeout=0.5)
                        break
                    except _q.Empty:
                        pass
                    alive.discard(w)
                    if cur[w] >= 0:
                        viols.append((cur[w], (
                            'process-died',
                            'the process running the scenario died '
                            '(exit code %s)' % procs[w].exitcode, {})))
            else:
                continue
            if not alive:
                break
        if r[0] == 'done':
            alive.discard(r[1])
            continue
        if r[0] == 'fatal':
            fatal.append(r[1])
            continue
        i, st, tr, tc, ev, oc, vs, smp, ex = r
        ndone += 1
        tot['states'] += st
        tot['transitions'] += tr
        tot['traces'] += tc
        tot['evaluations'] += ev
        outcomes |= oc
        for k, v in ex.items():
            extra[k] = extra.get(k, 0) + v
        for v in vs:
            viols.append((i, v))
        if FAST and any(not any(fnmatch.fnmatchcase('%s|%s' % (
                scns[i].get('key', ''), v[0]), e['match'])
                for e in load_known(prop)) for v in vs):
            # development aid: stop at the first violation
            for p in procs:
                p.terminate()
            break
        if smp is not None and len(samples) < 400:
            samples.append((i, smp))
    for p in procs:
        p.join(2.0)
        if p.is_alive():
            p.terminate()
    if fatal:
        sys.stderr.write('\n'.join(fatal))
        # an error in the machinery, not a verdict
        sys.exit(3)

    known = load_known(prop)
    seen_known = {}
    real = []
    for i, v in sorted(viols, key=lambda x: (x[0], x[1][0], x[1][1])):
        key = '%s|%s' % (scns[i].get('key', ''), v[0])
        for e in known:
            if fnmatch.fnmatchcase(key, e['match']):
                seen_known.setdefault(e['match'], e)
                break
        else:
            real.append((i, v, key))
    for m, e in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))

    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(REPLAYS, f))
    for n, (i, v, key) in enumerate(real[:10]):
        rp = os.path.join(REPLAYS, '%s-%d.json' % (prop, n))
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'scenario': scns[i],
                       'key': key, 'kind': v[0], 'message': v[1],
                       'detail': jsonable(v[2]),
                       'how_to_replay': 'cd /verif && ./check %s --replay %s'
                                        % (prop, rp)}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  %s: %s' % (key, v[1][:600]))
    if os.environ.get('MC_DUMP'):
        with open(os.environ['MC_DUMP'], 'w') as f:
            for i, v, key in real:
                f.write('%s\t%s\n' % (key, v[1][:400].replace('\n', ' ')))
    if len(real) > 10:
        print('  ... and %d more violations' % (len(real) - 10))

    samples.sort(key=lambda x: x[0])
    step = max(1, len(samples) // 6)
    smp = [{'scenario': scns[i], 'observed': jsonable(s)}
           for i, s in samples[::step][:6]]
    if not smp:
        smp = [{'scenario': scns[0]}]
    cov = {'scenarios_enumerated': len(scns), 'scenarios_executed': ndone,
           'exhausted': ndone == len(scns), 'samples': smp}
    if mod.LEVEL == 'model_checking':
        cov.update(states=tot['states'], transitions=tot['transitions'],
                   traces_validated_against_impl=tot['traces'],
                   distinct_outcomes=len(outcomes))
    else:
        cov.update(evaluations=tot['evaluations'],
                   distinct_nontrivial=len(outcomes), rule=mod.RULE,
                   states=tot['states'] or None,
                   transitions=tot['transitions'] or None)
        cov = {k: v for k, v in cov.items() if v is not None}
    cov['bounds'] = mod.BOUNDS[tier]
    cov['violations'] = len(real)
    cov['known_findings_seen'] = sorted(seen_known)
    if extra:
        cov['counters'] = extra
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d scenarios, %s, outcomes=%d, violations=%d, %.1f s'
          % (prop, tier, ndone, len(scns),
             ' '.join('%s=%d' % kv for kv in tot.items()), len(outcomes),
             len(real), time.time() - t0))
    return 1 if real else 0


def replay(mod, path):
    with open(path) as f:
        r = json.load(f)
    if hasattr(mod, 'worker_init'):
        mod.worker_init(0)
    rec = run_scenario(mod, r['scenario'], 3600)
    for v in rec.violations:
        print('%s: %s' % (v[0], v[1]))
        for k, x in v[2].items():
            print('   %s = %s' % (k, x))
    print('replayed: %d violation(s)' % len(rec.violations))
    return 1 if rec.violations else 0
