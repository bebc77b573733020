"""C17: performance and diagnostic options never change a result."""
import contextlib
import io
import itertools
import re
import numpy as np
from mc.checks.c02 import ents, devs, build, snap, same, stats

PROPERTY = 'C17'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 600
N = {'quick': 3, 'thorough': 5}
DEEP = {'quick': 20, 'thorough': 60}
BOUNDS = {
    'quick': 'every solver and dictionary learning class, base configuration '
             'plus each single non-default option, 3 iterations: every '
             'combination of FastSolve, Verbose, StatusHeader, IterTimer, '
             'Callback, LinSolveCheck, HighMemSolve, AuxVarObj and (for '
             'dictionary learning) AccurateDFid and the inner diagnostic '
             'options, with the iterate sequence, results, statistics and '
             'printed status compared; for the base configuration of every '
             'class also 20 iterations, each option alone and all together; '
             'each option switched on or off between two calls of solve, '
             'after every number of iterations up to 9, for every '
             'penalty/step size policy and for every single non-default '
             'option after 2',
    'thorough': '5 iterations, all pairs of non-default options; 60 '
                'iterations for the base configurations; options switched '
                'up to iteration 15'}
TOGGLE = {'quick': 9, 'thorough': 15}

# meaning of the columns of the status display
LABEL = {'Itn': 'Iter', 'Fnc': 'ObjFun', 'DFid': 'DFid', 'r': 'PrimalRsdl',
         's': 'DualRsdl', u'\u03c1': 'Rho', 'Rsdl': 'Rsdl', 'F': 'F_Btrack',
         'Q': 'Q_Btrack', 'It_Bt': 'IterBTrack', 'L': 'L', 'Cnstr': 'Cnstr',
         'r_X': 'XPrRsdl', 's_X': 'XDlRsdl', u'\u03c1_X': 'XRho',
         'r_D': 'DPrRsdl', 's_D': 'DDlRsdl', u'\u03c1_D': 'DRho',
         u'Reg\u21131': 'RegL1', u'Reg\u21132': 'RegL2', 'RegTV': 'RegTV',
         'RegGrad': 'RegGrad', u'Reg\u21132,1': 'RegL21'}


def scenarios(tier):
    out = []
    for nm, e in ents().items():
        ps = e.probs(tier)
        if tier == 'quick':
            ps = ps[:1]
        for p in ps:
            if p is ps[0]:
                q = {'key': '%s/%s/deep' % (nm, p['key']), 'e': nm, 'p': p,
                     'tier': tier, 'deep': DEEP[tier]}
                if nm[0] == 'd':
                    out.append(q)
                else:
                    ax = e.axes(tier, p)
                    out.append(dict(q, first=True,
                                    o={k: ax[k][0] for k in ax}))
            if nm[0] != 'd' or not nm.startswith('d:prlcnscdl'):
                out += toggles(nm, e, p, tier)
            if nm[0] == 'd':
                out.append({'key': '%s/%s' % (nm, p['key']), 'e': nm, 'p': p,
                            'tier': tier})
                continue
            ax = e.axes(tier, p)
            for i, o in enumerate(devs(ax, 1 if tier == 'quick' else 2)):
                if hasattr(e, 'valid') and not e.valid(p, o):
                    continue
                out.append({'key': '%s/%s/%s' % (
                    nm, p['key'], ','.join('%s=%s' % (k, o[k]) for k in o
                                           if o[k] != ax[k][0])),
                    'e': nm, 'p': p, 'o': o, 'first': i == 0, 'tier': tier})
    return out


def toggles(nm, e, p, tier):
    q = {'e': nm, 'p': p, 'tier': tier, 'first': True}
    n = TOGGLE[tier]
    if nm[0] == 'd':
        return [dict(q, key='%s/%s/toggle' % (nm, p['key']), toggle=n)]
    ax = e.axes(tier, p)
    out = []
    for o in devs(ax, 1):
        if hasattr(e, 'valid') and not e.valid(p, o):
            continue
        dv = [k for k in o if o[k] != ax[k][0]]
        if dv and o.get('FastSolve'):
            continue
        long = not dv or dv[0] in ('AutoRho', 'Backtrack', 'StepSizePolicy',
                                   'Momentum')
        out.append(dict(q, key='%s/%s/toggle/%s' % (
            nm, p['key'], ','.join('%s=%s' % (k, o[k]) for k in dv)),
            toggle=n if long else 4, o=o))
    return out


def switched(nm, e, scn, rec):
    """options changed between two calls of solve"""
    n = scn['toggle']
    try:
        b = make(nm, e, scn, {'MaxMainIter': 0})
        ax = [(k, v) for k, v in axes(nm, e, scn, b)
              if k in ('FastSolve', 'Verbose', 'StatusHeader', 'AuxVarObj',
                       'LinSolveCheck') or
              isinstance(k, tuple)]
        if scn.get('o', {}).get('FastSolve'):
            return
        ref = go(nm, e, scn, {'cb': 1}, n)
        n = len(ref[3])
    except Exception as ex:
        rec.violate('solver-exception', '%s: %s: %s' % (
            scn['key'], type(ex).__name__, ex))
        return
    for k, v in ax:
        for i in range(1, n) if n > 4 else (2,):
            if i >= n:
                continue
            for a, c in ((0, 1), (1, 0)):
                rec.trace()
                err = switch(nm, e, scn, k, v[a], v[c], i, n, ref, rec)
                if err:
                    rec.violate(err[0], '%s %s from %s to %s after %d '
                                'iterations: %s' % (
                                    scn['key'], k, v[a], v[c], i, err[1]))
                    if len(rec.violations) > 5:
                        return
    rec.outcome(ref[4][0])
    rec.sample = {'solver': nm, 'options': [str(k) for k, v in ax],
                  'iterations': n}


def switch(nm, e, scn, k, u, v, i, n, ref, rec):
    seen, box = [], []

    def cb(obj):
        seen.append(snap(nm, e, box[0]))
        return False
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            b = make(nm, e, scn, {k: u, 'MaxMainIter': i, 'Callback': cb})
            box.append(b)
            core = e.core(b) if nm[0] == 'a' else b
            b.solve()
            if isinstance(k, tuple):
                (core.xstep if k[0] == 'x' else core.dstep).opt[k[1]] = v
            else:
                core.opt[k] = v
            core.opt['MaxMainIter'] = n - i
            ret = b.solve()
    except Exception as ex:
        return ('solver-exception', '%s: %s' % (type(ex).__name__, ex))
    rec.step(n)
    rec.state()
    if len(seen) < n:
        return ('iterations', '%d instead of %d' % (len(seen), n))
    for j in range(n):
        m = same(seen[j], ref[3][j])
        if m:
            return ('iterate', 'iteration %d: %s' % (j, m))
    m = same(ret, ref[2])
    if m and len(seen) == n:
        return ('result', m)
    st = stats(core)
    its = [t['Iter'] for t in st]
    want = list(range(n))
    if k == 'FastSolve':
        want = want[:i] if v else want[i:]
    if nm[0] != 'd' and its[:len(want)] != want:
        return ('statistics', 'entries for the iterations %r' % (its,))
    if isinstance(k, tuple):
        return None
    R = {t['Iter']: t for t in ref[5]}
    for t in st:
        q = R.get(t['Iter'])
        if q is None:
            continue
        for f in q:
            if f.endswith('SlvRelRes') or not (
                    k in ('FastSolve', 'Verbose', 'StatusHeader',
                          'LinSolveCheck') or 'Rsdl' in f or
                    f.endswith('Rho') or f in ('Iter', 'L', 'EpsPrimal',
                                               'EpsDual')):
                continue
            x, y = t[f], q[f]
            if (x is None) != (y is None) or (
                    x is not None and abs(x - y) > 1e-7 * abs(y) + 1e-9):
                return ('statistics', 'iteration %d %s: %r instead of %r' % (
                    t['Iter'], f, x, y))
    return None


def make(nm, e, scn, d):
    if nm[0] != 'd':
        return build(nm, e, scn, d)
    top = {k: v for k, v in d.items() if not isinstance(k, tuple)}
    x = {k[1]: v for k, v in d.items() if isinstance(k, tuple) and k[0] == 'x'}
    dd = {k[1]: v for k, v in d.items() if isinstance(k, tuple) and
          k[0] == 'd'}
    return e.make(scn['p'], top, x, dd)


def axes(nm, e, scn, b):
    n = N[scn['tier']]
    if nm[0] == 'd':
        ax = [('Verbose', [False, True]), ('StatusHeader', [True, False]),
              ('IterTimer', ['solve', 'solve_wo_eval']), ('cb', [1, 0])]
        if 'AccurateDFid' in b.opt:
            ax.append(('AccurateDFid', [False, True]))
        for s, q in (('x', getattr(b, 'xstep', None)),
                     ('d', getattr(b, 'dstep', None))):
            if q is None:
                continue
            ax.append(((s, 'FastSolve'), [False, True]))
            if 'LinSolveCheck' in q.opt:
                ax.append(((s, 'LinSolveCheck'), [False, True]))
            if 'AuxVarObj' in q.opt:
                ax.append(((s, 'AuxVarObj'), [False, True]))
        return ax
    opt = (e.core(b) if nm[0] == 'a' else b).opt
    ax = [('FastSolve', [False, True]), ('Verbose', [False, True]),
          ('StatusHeader', [True, False])]
    for k in ('LinSolveCheck', 'HighMemSolve', 'AuxVarObj'):
        if k in opt:
            ax.append((k, [False, True]))
    if scn['first'] or scn['tier'] != 'quick':
        ax += [('IterTimer', ['solve', 'solve_wo_func', 'solve_wo_rsdl']),
               ('cb', [1, 0])]
        if nm[0] == 'a' and 'AuxVarObj' not in opt:
            for k in ('fEvalX', 'gEvalY'):
                if k in opt:
                    ax.append((k, [True, False]))
    return ax


def go(nm, e, scn, d, n):
    d = dict(d, MaxMainIter=n)
    seen = []
    box = []
    if d.pop('cb', 1):
        def cb(obj):
            seen.append(snap(nm, e, box[0]))
            return False
        d['Callback'] = cb
    b = make(nm, e, scn, d)
    box.append(b)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ret = b.solve()
    core = e.core(b) if nm[0] == 'a' else b
    return b, core, ret, seen, snap(nm, e, b), stats(core), out.getvalue()


# statistics fields that legitimately depend on the diagnostic options
def skip(nm, k, a, b):
    return a is None or b is None


def run(scn, rec):
    nm = scn['e']
    e = ents()[nm]
    if 'toggle' in scn:
        return switched(nm, e, scn, rec)
    n = scn.get('deep', N[scn['tier']])
    try:
        b = make(nm, e, scn, {'MaxMainIter': 0})
        ax = axes(nm, e, scn, b)
        ref = go(nm, e, scn, {k: v[0] for k, v in ax}, n)
    except Exception as ex:
        rec.violate('solver-exception', '%s: %s: %s' % (
            scn['key'], type(ex).__name__, ex))
        return
    if ref[6]:
        rec.violate('output', '%s: output %r with Verbose False' % (
            scn['key'], ref[6][:60]))
    names = [k for k, _ in ax]
    for vals in itertools.product(*[v for _, v in ax]):
        d = dict(zip(names, vals))
        if 'deep' in scn and 1 < sum(u != v[0] for u, (_, v) in zip(
                vals, ax)) < len(names):
            continue
        if 'StatusHeader' in d and not d['Verbose'] and \
                not d['StatusHeader']:
            continue
        err = one(nm, e, scn, d, n, ref, rec)
        if err:
            rec.violate(err[0], '%s [%s]: %s' % (
                scn['key'], ', '.join('%s=%s' % (
                    '.'.join(k) if isinstance(k, tuple) else k, d[k])
                    for k, v in ax if d[k] != v[0]), err[1]))
            if len(rec.violations) > 5:
                return
    rec.outcome(ref[4][0])
    rec.sample = {'solver': nm, 'options': [str(k) for k in names]}


def one(nm, e, scn, d, n, ref, rec):
    try:
        b, core, ret, seen, fin, st, txt = go(nm, e, scn, d, n)
    except Exception as ex:
        return ('solver-exception', '%s: %s' % (type(ex).__name__, ex))
    rec.trace()
    rec.step(n)
    rec.state()
    if seen:
        if len(seen) != len(ref[3]):
            return ('iterations', '%d instead of %d' % (len(seen),
                                                        len(ref[3])))
        for i, (p, q) in enumerate(zip(seen, ref[3])):
            m = same(p, q)
            if m:
                return ('iterate', 'iteration %d: %s' % (i, m))
    m = same(fin, ref[4])
    if m:
        return ('state', m)
    m = same(ret, ref[2])
    if m:
        return ('result', m)
    # statistics
    if st and not d.get(('x', 'FastSolve')) and not d.get(('d', 'FastSolve')):
        loose = d.get('AuxVarObj') or d.get(('x', 'AuxVarObj')) or \
            d.get(('d', 'AuxVarObj')) or d.get('AccurateDFid') or \
            d.get('fEvalX') is False or d.get('gEvalY') is False
        for i, (p, q) in enumerate(zip(st, ref[5])):
            for k in q:
                if k == 'XSlvRelRes' or k.endswith('SlvRelRes'):
                    continue
                if loose and not ('Rsdl' in k or k.endswith('Rho') or
                                  k in ('Iter', 'L', 'EpsPrimal', 'EpsDual')):
                    continue
                u, v = p[k], q[k]
                if (u is None) != (v is None) or (
                        u is not None and abs(u - v) > 1e-7 * abs(v) + 1e-9):
                    return ('statistics', 'iteration %d %s: %r instead of %r'
                            % (i, k, u, v))
    # printed status
    if not d['Verbose']:
        return ('output', 'output %r' % txt[:60]) if txt else None
    return display(nm, core, d, st, txt)


def display(nm, core, d, st, txt):
    lines = txt.splitlines()
    hdr = d.get('StatusHeader', True)
    labels = None
    if hdr:
        if len(lines) < 3 or set(lines[1]) != {'-'} or \
                set(lines[-1]) != {'-'}:
            return ('display', 'no header or rules: %r' % txt[:200])
        labels = re.split(r' {2,}', lines[0].strip())
        lines = lines[2:-1]
    if d.get('FastSolve'):
        return None
    if len(lines) != len(st):
        return ('display', '%d rows for %d iterations' % (len(lines),
                                                          len(st)))
    for i, ln in enumerate(lines):
        vals = ln.split()
        if int(vals[0]) != st[i]['Iter']:
            return ('display', 'row %d numbered %s' % (i, vals[0]))
        if labels is None:
            continue
        if len(vals) != len(labels):
            return ('display', 'row %d has %d columns for %d labels' % (
                i, len(vals), len(labels)))
        hv = core.isc.hdrmap if nm[0] == 'd' and hasattr(core, 'isc') else \
            type(core).hdrval() if hasattr(type(core), 'hdrval') else {}
        for lb, v in zip(labels, vals):
            f = LABEL.get(lb)
            if f is None or f not in st[i]:
                f = hv.get(lb)
            if f is None:
                continue
            w = st[i][f]
            if w is None:
                return ('display', 'column %s shown without a value' % lb)
            if abs(float(v) - w) > 0.006 * abs(w) + 1e-12:
                return ('display', 'row %d column %s: %s for %s=%r' % (
                    i, lb, v, f, w))
    return None
