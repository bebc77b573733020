"""C02: stopping, copying and resuming a solver never changes its course."""
import copy
import inspect
import itertools
import pickle
import numpy as np
from mc import conform

PROPERTY = 'C02'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 600
N = {'quick': 4, 'thorough': 6}
DEEP = {'quick': 24, 'thorough': 60}
BOUNDS = {
    'quick': 'every solver and dictionary learning class, base configuration '
             'plus each single non-default option, every split of 4 '
             'iterations into calls (including calls of zero iterations), '
             'stopped by iteration limit or callback, with and without a '
             'deep copy at every boundary or a pickle copy at the start, '
             'and every dictionary/coefficient replacement history of '
             'depth 3; for the base configuration of every class also every '
             'split of 24 iterations into two calls',
    'thorough': '6 iterations, all pairs of non-default options; every '
                'split of 60 iterations into two calls'}


# classes that hold local functions, for which pickling is not supported
NOPICKLE = ('a:AddMaskSim', 'a:CnstrMOD', 'a:PPP', 'a:PPPConsensus',
            'p:CnstrMOD', 'p:WeightedCnstrMOD', 'p:PPP')


def setmax(nm, e, b, n):
    (e.core(b) if nm[0] == 'a' else b).opt['MaxMainIter'] = n


def compositions(n, zeros):
    out = []
    for k in range(1, n + 1):
        for cuts in itertools.combinations(range(1, n), k - 1):
            b = (0,) + cuts + (n,)
            out.append(tuple(b[i + 1] - b[i] for i in range(k)))
    if zeros:
        out += [(0, n), (n - 2, 0, 2), (1, 0, 0, n - 1)]
    return out


def ents():
    from mc import cat_admm2, cat_pgm, cat_dl
    out = {}
    for e in cat_admm2.ENTRIES:
        out['a:' + e.__name__] = e()
    for e in cat_pgm.ENTRIES:
        out['p:' + e.__name__] = e()
    for e in cat_dl.entries() + [cat_dl.Par(False), cat_dl.Par(True)]:
        out['d:' + e.name] = e
    return out


def base(axes):
    return {k: axes[k][0] for k in axes}


def devs(axes, n):
    names = list(axes)
    for r in range(n + 1):
        for c in itertools.combinations(names, r):
            for vals in itertools.product(*[axes[k][1:] for k in c]):
                o = base(axes)
                o.update(zip(c, vals))
                yield o


DLOPT = [({}, {}, {}), ({'AccurateDFid': True}, {}, {}),
         ({}, {'MaxMainIter': 2}, {}), ({}, {}, {'MaxMainIter': 3})]


def scenarios(tier):
    out = []
    for nm, e in ents().items():
        ps = e.probs(tier)
        if tier == 'quick':
            ps = ps[:1] + [p for p in ps[1:] if p['key'] in ('2dCdK',)]
        for p in ps:
            if p is ps[0]:
                q = {'key': '%s/%s/deep' % (nm, p['key']), 'e': nm, 'p': p,
                     'tier': tier, 'deep': DEEP[tier]}
                if nm[0] == 'd':
                    out.append(dict(q, dl=0))
                else:
                    out.append(dict(q, o=base(e.axes(tier, p))))
            if nm[0] == 'd':
                for i in range(len(DLOPT)):
                    out.append({'key': '%s/%s/%d' % (nm, p['key'], i),
                                'e': nm, 'p': p, 'dl': i, 'tier': tier})
            else:
                ax = e.axes(tier, p)
                for i, o in enumerate(devs(ax, 1 if tier == 'quick' else 2)):
                    if hasattr(e, 'valid') and not e.valid(p, o):
                        continue
                    out.append({'key': '%s/%s/%s' % (
                        nm, p['key'], ','.join('%s=%s' % (k, o[k]) for k in o
                                               if o[k] != ax[k][0])),
                        'e': nm, 'p': p, 'o': o, 'tier': tier})
    return out


def build(nm, e, scn, extra):
    if nm[0] == 'd':
        d, x, dd = DLOPT[scn['dl']]
        return e.make(scn['p'], dict(d, Verbose=False, **extra), x, dd)
    o = scn['o']
    ex = {'RelStopTol': 1e-12, 'AbsStopTol': 1e-12} if nm[0] == 'a' \
        else {'RelStopTol': 1e-14}
    ex.update(extra)
    return e.build(scn['p'], o, ex)


def snap(nm, e, b):
    if nm[0] == 'd':
        return e.state(b)
    if nm[0] == 'a':
        s = [np.array(v) for v in e.get(b)]
        s.append(float(e.core(b).rho))
    else:
        s = list(e.get(b)) + [float(b.L)]
    return s


def stats(b):
    out = []
    for it in b.itstat:
        out.append({f: getattr(it, f) for f in it._fields if f != 'Time'})
    return out


def same(a, b):
    if isinstance(a, (tuple, list)):
        for x, y in zip(a, b):
            r = same(x, y)
            if r:
                return r
        return None
    ok, msg = conform.close(a, b, 1e-9)
    return None if ok else msg


def run(scn, rec):
    nm = scn['e']
    e = ents()[nm]
    deep = 'deep' in scn
    n = scn['deep'] if deep else N[scn['tier']]
    try:
        b = build(nm, e, scn, {'MaxMainIter': n})
        ret = b.solve()
        done = len(b.itstat) if not scn.get('o', {}).get('FastSolve') else n
        if deep and 2 < done < n:
            # converged to the point where the residual vanishes
            n = done - 1
            b = build(nm, e, scn, {'MaxMainIter': n})
            ret = b.solve()
        ref, rst = snap(nm, e, b), stats(b)
        ret = copy.deepcopy(ret)
    except Exception as ex:
        rec.violate('solver-exception', '%s: %s: %s' % (
            scn['key'], type(ex).__name__, ex))
        return
    if not rst and not scn.get('o', {}).get('FastSolve'):
        rec.violate('no-statistics', scn['key'])
    comps = [(k, n - k) for k in range(1, n)] + [(1,) * n] if deep else \
        compositions(n, True)
    for comp in comps:
        for how in ('limit', 'callback', 'copy', 'pickle'):
            if how == 'callback' and 0 in comp:
                continue
            if how == 'pickle' and (comp not in ((n,), (1,) * n) or
                                    nm[0] == 'd' or nm in NOPICKLE):
                continue
            if how == 'copy' and nm.startswith('d:prlcnscdl'):
                continue
            if deep and how in ('callback', 'copy') and len(comp) == 2 and \
                    comp[0] not in (n // 3, n - 5):
                continue
            if deep and how == 'copy' and len(comp) > 2:
                continue
            rec.trace()
            err = history(nm, e, scn, comp, how, n, ref, rst, ret, rec)
            if err:
                rec.violate(err[0], '%s split %s (%s): %s' % (
                    scn['key'], comp, how, err[1]), split=comp, how=how)
                if len(rec.violations) > 6:
                    return
    if nm[0] in 'ap' and not deep:
        replacement(nm, e, scn, rec)
    rec.outcome(ref[0], ref[1])
    rec.sample = {'solver': nm, 'problem': scn['p']['key'],
                  'splits': len(comps)}


def history(nm, e, scn, comp, how, n, ref, rst, ret, rec):
    cnt = [0, 0]

    def cb(obj):
        cnt[0] += 1
        return cnt[0] >= cnt[1]
    try:
        b = build(nm, e, scn, {'MaxMainIter': n + 3, 'Callback': cb}
                  if how == 'callback' else {'MaxMainIter': comp[0]})
        if how == 'pickle':
            b = pickle.loads(pickle.dumps(b))
        olds = []
        r = None
        for part in comp:
            if how == 'callback':
                cnt[0], cnt[1] = 0, part
            else:
                setmax(nm, e, b, part)
            if how == 'copy':
                olds.append((b, part))
                b = copy.deepcopy(b)
            r = b.solve()
            rec.step()
            rec.state()
    except Exception as ex:
        return ('resume-exception', '%s: %s' % (type(ex).__name__, ex))
    m = same(snap(nm, e, b), ref)
    if m:
        return ('state-differs', m)
    m = same(r, ret)
    if m:
        return ('returned-value-differs', m)
    st = stats(b)
    if len(st) != len(rst):
        return ('statistics-differ', '%d entries instead of %d' % (
            len(st), len(rst)))
    for i, (p, q) in enumerate(zip(st, rst)):
        for k in q:
            u, v = p[k], q[k]
            if (u is None) != (v is None) or (
                    u is not None and abs(u - v) > 1e-7 * abs(v) + 1e-9):
                return ('statistics-differ', 'iteration %d %s: %r instead '
                        'of %r' % (i, k, u, v))
    if how == 'copy':
        # the solver the copies were made from still is where it was
        b0 = olds[0][0]
        try:
            setmax(nm, e, b0, n)
            b0.solve()
        except Exception as ex:
            return ('copy-exception', '%s: %s' % (type(ex).__name__, ex))
        m = same(snap(nm, e, b0), ref)
        if m:
            return ('copy-not-independent', m)
    return None


# ------------------------------------------------------------ replacements
def setter(nm, e, p, i):
    """(method name, i-th alternative argument) of the data replacement"""
    r = np.random.RandomState(5 + i)
    return r


def replacement(nm, e, scn, rec):
    """after b.setdict(D) / b.setcoef(Z) the solver behaves as one built with
    D or Z: replacing the data and replacing it back is the identity, and
    the last replacement alone decides the continuation"""
    o = scn['o']
    b = build(nm, e, scn, {'MaxMainIter': 1})
    D = None
    if hasattr(b, 'setdict'):
        meth, attr = 'setdict', 'D'
    elif hasattr(b, 'setcoef'):
        meth, attr = 'setcoef', 'Z'
    else:
        return
    try:
        D = np.array(getattr(b, attr))
    except Exception:
        return
    if D.dtype.kind not in 'fc':
        return
    alts = [D, np.roll(D, 1, axis=0) * 0.7, D[::-1] * 1.2 + 0.05]
    arg = [a.astype(D.dtype) for a in alts]

    bs = None
    if hasattr(b, 'B') and 'B' in inspect.signature(b.setdict).parameters:
        B = np.array(b.B)
        bs = [B, np.roll(B, 1, axis=0) * 1.3, (B[::-1] - 0.2).astype(B.dtype)]

    def fresh():
        c = build(nm, e, scn, {'MaxMainIter': 1})
        return c

    def go(seq, refill=False):
        c = fresh()
        buf = np.empty_like(arg[0])
        for s in seq:
            if s == 'S':
                c.solve()
                rec.step()
            elif isinstance(s, tuple):
                c.setdict(B=bs[s[1]].copy())
            elif refill:
                # always the same array object with new content
                buf[...] = arg[s]
                getattr(c, meth)(buf)
            else:
                getattr(c, meth)(arg[s].copy())
        return c
    try:
        # the last replacement decides: (i) vs (j, i), before and between steps
        for i in range(3):
            want = snap(nm, e, go((i, 'S', i, 'S')))
            for j in range(3):
                for seq in ((j, i, 'S', 'S'), (i, 'S', j, i, 'S'),
                            (i, 'S', j, j, i, 'S')):
                    for refill in (False, True)[:1 + (len(seq) == 5)]:
                        rec.trace()
                        got = snap(nm, e, go(seq, refill))
                        m = same(got, want)
                        if m:
                            rec.violate('replacement', '%s %s sequence %s%s: '
                                        '%s' % (scn['key'], meth, seq,
                                                ' (same array refilled)' *
                                                refill, m))
                            return
        # whether the new value is passed in the array of the old one or not
        for i, j in itertools.permutations(range(3), 2):
            rec.trace()
            seq = (i, 'S', j, 'S')
            m = same(snap(nm, e, go(seq, True)), snap(nm, e, go(seq)))
            if m:
                rec.violate('replacement', '%s %s sequence %s (same array '
                            'refilled): %s' % (scn['key'], meth, seq, m))
                return
        # two factors: the last of each counts, in any order
        if bs is not None:
            for i, j in itertools.product(range(3), repeat=2):
                want = snap(nm, e, go(('S', ('B', j), i, 'S')))
                seqs = [('S', i, ('B', j), 'S')]
                for k in range(3):
                    seqs += [('S', ('B', k), i, ('B', j), 'S'),
                             ('S', k, ('B', j), i, 'S'),
                             ('S', k, ('B', k), i, ('B', j), 'S')]
                if i == 0:
                    seqs += [('S', ('B', j), 'S')]
                if j == 0:
                    seqs += [('S', i, 'S')]
                for seq in seqs:
                    rec.trace()
                    m = same(snap(nm, e, go(seq)), want)
                    if m:
                        rec.violate('replacement', '%s %s sequence %s: %s' % (
                            scn['key'], meth, seq, m))
                        return
        # replacing by the current value is the identity
        m = same(snap(nm, e, go(('S', 0, 'S'))), snap(nm, e, go(('S', 'S'))))
        if m:
            rec.violate('replacement', '%s %s with the current value: %s' % (
                scn['key'], meth, m))
    except Exception as ex:
        rec.violate('replacement-exception', '%s: %s: %s' % (
            scn['key'], type(ex).__name__, ex))
