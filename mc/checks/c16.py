"""C16: a solve stops exactly where its stopping rules say."""
import numpy as np
from mc.checks.c02 import ents, devs, build, snap, same, DLOPT

PROPERTY = 'C16'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 600
N = {'quick': 5, 'thorough': 7}
DEEP = {'quick': (24, 4), 'thorough': (50, 1)}
BOUNDS = {
    'quick': 'every solver and dictionary learning class, base configuration '
             'plus each single non-default option, 5 iterations: every '
             'distinguishable value of the relative and absolute tolerances '
             '(all intervals between the thresholds of the observed '
             'residuals), every iteration limit, every callback stop '
             'iteration, with FastSolve on and off, and the next call after '
             'every stop; for the base configuration of every class also '
             '24 iterations, every fourth tolerance value, limit and '
             'callback iteration; the tolerances themselves (their factors '
             'of AbsStopTol and RelStopTol) in every iteration',
    'thorough': '7 iterations, all pairs of non-default options; 50 '
                'iterations with every tolerance value, limit and callback '
                'iteration'}

TRUE = (True, 1, 'stop', [0])
FALSE = (None, False, 0, '')


def scenarios(tier):
    out = []
    for nm, e in ents().items():
        ps = e.probs(tier)
        if tier == 'quick':
            ps = ps[:1]
        for p in ps:
            if p is ps[0]:
                q = {'key': '%s/%s/deep' % (nm, p['key']), 'e': nm, 'p': p,
                     'tier': tier, 'deep': DEEP[tier]}
                if nm[0] == 'd':
                    out.append(dict(q, dl=0))
                else:
                    ax = e.axes(tier, p)
                    out.append(dict(q, o={k: ax[k][0] for k in ax}))
            if nm[0] == 'd':
                for i in range(len(DLOPT)):
                    out.append({'key': '%s/%s/%d' % (nm, p['key'], i),
                                'e': nm, 'p': p, 'dl': i, 'tier': tier})
                continue
            ax = e.axes(tier, p)
            for o in devs(ax, 1 if tier == 'quick' else 2):
                if hasattr(e, 'valid') and not e.valid(p, o):
                    continue
                out.append({'key': '%s/%s/%s' % (
                    nm, p['key'], ','.join('%s=%s' % (k, o[k]) for k in o
                                           if o[k] != ax[k][0])),
                    'e': nm, 'p': p, 'o': o, 'tier': tier})
    return out


def norms(b):
    """the factors of AbsStopTol and RelStopTol in the tolerances"""
    nc, nx = np.sqrt(np.size(b.U)), np.sqrt(np.size(b.X))
    rn, sn = b.rsdl_rn(b.AXnr, b.Y), b.rsdl_sn(b.U)
    if b.opt['AutoRho', 'StdResiduals']:
        return nc, nx, rn, sn
    return nc / (rn or 1.0), nx / (sn or 1.0), 1.0, 1.0


class Run(object):
    """one solver and everything observed while it runs"""
    def __init__(self, nm, e, scn, extra, stop=None, vals=(True, None),
                 nrm=False):
        self.seen = []
        self.norms = []
        self.nm, self.e = nm, e

        def cb(obj):
            n = len(self.seen)
            self.seen.append((obj.j if nm[0] == 'd' else obj.k,
                              len(obj.itstat), snap(nm, e, self.b)))
            if nm[0] == 'a' and nrm and hasattr(obj, 'AXnr') and \
                    not hasattr(obj, 'U1'):
                self.norms.append(norms(obj))
            return vals[0] if n == stop else vals[1]
        self.b = build(nm, e, scn, dict(extra, Callback=cb))
        self.core = self.b if nm[0] != 'a' else e.core(self.b)

    def solve(self):
        self.ret = self.b.solve()

    @property
    def k(self):
        return self.core.j if self.nm[0] == 'd' else self.core.k


def thresholds(lst):
    """all values that distinguish different subsets of the list"""
    v = sorted(set(x for x in lst if np.isfinite(x) and x > 0))
    if not v:
        return []
    out = [v[0] * 0.5]
    for a, b in zip(v, v[1:]):
        if b > a * (1 + 1e-5):
            out.append(np.sqrt(a * b))
    out.append(v[-1] * 2)
    return out


def field(nt, f):
    return np.asarray(getattr(nt, f))


class Ctx(object):
    pass


def run(scn, rec):
    nm = scn['e']
    e = ents()[nm]
    n, step = scn.get('deep', (N[scn['tier']], 1))
    c = Ctx()
    c.step, c.deep = step, 'deep' in scn
    c.every = 4 if scn['tier'] == 'quick' else 2
    c.nm, c.e, c.n, c.scn, c.rec = nm, e, n, scn, rec
    try:
        explore(c)
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        rec.violate('solver-exception', '%s: %s: %s (%s:%d)' % (
            scn['key'], type(ex).__name__, ex, tb.filename, tb.lineno))


def tolopts(nm, A, R):
    if nm[0] == 'a':
        return {'AbsStopTol': A, 'RelStopTol': R}
    if nm[0] == 'p':
        return {'RelStopTol': R}
    return {}


def explore(c):
    nm, e, n, scn, rec = c.nm, c.e, c.n, c.scn, c.rec
    fast = scn.get('o', {}).get('FastSolve', False)
    big = 2 * n + 2
    # reference course, far past every explored stop
    g = Run(nm, e, scn, dict(tolopts(nm, 0.0, 1e-30), MaxMainIter=big,
                             **({} if nm[0] == 'd' else {'FastSolve': False})),
            nrm=True)
    g.solve()
    c.ref = [s[2] for s in g.seen]
    big = len(c.ref)
    st = g.core.itstat
    if nm[0] == 'a':
        g2 = Run(nm, e, scn, {'AbsStopTol': 1e-30, 'RelStopTol': 0.0,
                              'MaxMainIter': big, 'FastSolve': False})
        g2.solve()
        big = min(big, len(g2.seen))
        c.r = np.array([t.PrimalRsdl for t in st[:big]], float)
        c.s = np.array([t.DualRsdl for t in st[:big]], float)
        c.pr = np.array([t.EpsPrimal for t in st[:big]], float) * 1e30
        c.dr = np.array([t.EpsDual for t in st[:big]], float) * 1e30
        s2 = g2.core.itstat
        c.pa = np.array([t.EpsPrimal for t in s2[:big]], float) * 1e30
        c.da = np.array([t.EpsDual for t in s2[:big]], float) * 1e30
        for k, q in enumerate(g.norms[:big]):
            for v, w, what in zip((c.pa[k], c.da[k], c.pr[k], c.dr[k]), q, (
                    'primal tolerance is AbsStopTol',
                    'dual tolerance is AbsStopTol',
                    'primal tolerance is RelStopTol',
                    'dual tolerance is RelStopTol')):
                rec.state()
                if abs(v - w) > 1e-6 * abs(w):
                    rec.violate('tolerance', '%s iteration %d: %s times %r '
                                'instead of %r' % (scn['key'], k, what, v, w))
                    return
        arho = bool(g.core.opt['AutoRho', 'Enabled'])
    elif nm[0] == 'p':
        c.r = np.array([t.Rsdl for t in st[:big]], float)
    c.big = big
    # ---------------------------------------------------- iteration limit
    for lim in range(0, n + 1, c.step):
        check(c, {'MaxMainIter': lim}, (0.0, 1e-30), None, (True, None),
              lambda k0, lim=lim: min(k0 + lim, big))
    # ----------------------------------------------------------- callback
    for j in range(c.deep, n, c.step):
        for vals in ((True, None),) if j else zip(TRUE, FALSE):
            check(c, {'MaxMainIter': n}, (0.0, 1e-30), j, vals,
                  lambda k0, j=j: min(k0 + n, big if k0 else j + 1, big))
    if nm[0] == 'd':
        rec.outcome(c.ref[0][0])
        return
    # --------------------------------------------------------- tolerances
    grid = []
    if nm[0] == 'a':
        with np.errstate(all='ignore'):
            m = n + 1
            tr = np.concatenate(((c.r / c.pr)[:m], (c.s / c.dr)[:m]))
            ta = np.concatenate(((c.r / c.pa)[:m], (c.s / c.da)[:m]))
        R, A = thresholds(tr), thresholds(ta)
        grid = [(0.0, v) for v in R[::c.step]] + \
            [(v, 0.0) for v in A[1::c.step]]
        grid += [] if c.deep else [(a, r) for a in A[::c.every] for r in R[::c.every]]
    else:
        grid = [(0.0, v) for v in thresholds(c.r)[::c.step]]
    turn = 0
    for A, R in grid:
        if nm[0] == 'a':
            ep = A * c.pa + R * c.pr
            ed = A * c.da + R * c.dr
            if np.any(np.abs(c.r - ep) <= 1e-6 * ep) or \
                    np.any(np.abs(c.s - ed) <= 1e-6 * ed):
                rec.count('ties_skipped')
                continue
            met = (c.r < ep) & (c.s < ed)
        else:
            if np.any(np.abs(c.r - R) <= 1e-6 * R):
                rec.count('ties_skipped')
                continue
            met = c.r < R

        def end(k0, lim, active=True):
            for k in range(k0, min(k0 + lim, big)):
                if active and met[k]:
                    return k + 1
            return min(k0 + lim, big)
        check(c, {'MaxMainIter': n, 'FastSolve': False}, (A, R), None,
              (True, None), lambda k0: end(k0, n))
        mixed = A > 0 and R > 0
        turn = turn + 1 if mixed else 0
        if not mixed or turn % 3 == 0:
            act = nm[0] == 'a' and arho
            check(c, {'MaxMainIter': n, 'FastSolve': True}, (A, R), None,
                  (True, None), lambda k0: end(k0, n, act))
        # a callback that stops earlier or later, a smaller limit
        if not mixed or turn % 3 == 1:
            check(c, {'MaxMainIter': n, 'FastSolve': False}, (A, R), 2,
                  (True, None),
                  lambda k0: min(end(k0, n), big if k0 > 2 else 3))
        if not mixed or turn % 3 == 2:
            check(c, {'MaxMainIter': 2, 'FastSolve': False}, (A, R), None,
                  (True, None), lambda k0: end(k0, 2))
    if nm[0] == 'p':
        # the automatic stopping tolerance Tau0 / (1 + k)
        q = c.r * (1.0 + np.arange(big))
        for t0 in thresholds(q)[::c.step]:
            if np.any(np.abs(q - t0) <= 1e-6 * t0):
                continue
            met = q < t0

            def end(k0):
                for k in range(k0, min(k0 + n, big)):
                    if met[k]:
                        return k + 1
                return min(k0 + n, big)
            check(c, {'MaxMainIter': n, 'FastSolve': False,
                      'AutoStop': {'Enabled': True, 'Tau0': t0}},
                  (0.0, 1e3 if t0 < np.median(q) else 1e-30), None,
                  (True, None), end)
    rec.outcome(c.ref[0][0])
    rec.sample = {'solver': nm, 'tolerances': len(grid)}


def check(c, extra, tol, stop, vals, end):
    """two consecutive calls of solve"""
    nm, e, scn, rec = c.nm, c.e, c.scn, c.rec
    fs = extra.get('FastSolve', scn.get('o', {}).get('FastSolve', False))
    x = dict(extra, **tolopts(nm, *tol))
    if nm[0] == 'd':
        x = {k: v for k, v in x.items() if k != 'FastSolve'}
    what = '%s [%s, callback stop %s]' % (scn['key'], ', '.join(
        '%s=%r' % (k, x[k]) for k in sorted(x)), stop)
    r = Run(nm, e, scn, x, stop, vals)
    k0 = 0
    for call in range(2):
        want = end(k0)
        if want - k0 > 0 and want > len(c.ref):
            return
        if k0 >= c.big:
            return
        r.solve()
        rec.trace()
        rec.step(max(want - k0, 1))
        rec.state()
        msg = None
        if len(r.seen) != want:
            msg = 'call %d ran iterations %d to %d instead of %d to %d' % (
                call, k0, len(r.seen), k0, want)
        elif r.k != want:
            msg = 'call %d left the iteration counter at %d instead of %d' % (
                call, r.k, want)
        elif [s[0] for s in r.seen] != list(range(want)):
            msg = 'callback saw iterations %s' % [s[0] for s in r.seen]
        elif not fs or nm[0] == 'd':
            if len(r.core.itstat) != want:
                msg = '%d statistics entries after %d iterations' % (
                    len(r.core.itstat), want)
            elif [t.Iter for t in r.core.itstat] != list(range(want)):
                msg = 'iteration numbers %s' % [
                    t.Iter for t in r.core.itstat]
            elif [s[1] for s in r.seen] != list(range(1, want + 1)):
                msg = 'callback saw %s statistics entries' % [
                    s[1] for s in r.seen]
            elif want:
                gi = r.core.getitstat()
                for f in gi._fields:
                    v = getattr(gi, f)
                    w = [getattr(t, f) for t in r.core.itstat]
                    if len(v) != want or any(
                            a != b and not (a != a and b != b)
                            for a, b in zip(list(v), w)):
                        msg = 'getitstat() %s %s instead of %s' % (f, v, w)
        elif len(r.core.itstat):
            msg = 'FastSolve recorded statistics'
        if msg is None and want:
            msg = same(snap(nm, e, r.b), c.ref[want - 1])
            if msg:
                msg = 'state after call %d: %s' % (call, msg)
        if msg:
            rec.violate('stopping', '%s: %s' % (what, msg))
            return
        k0 = want
