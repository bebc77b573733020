"""Step-by-step conformance of ADMM solver traces with the reference model."""
import itertools
import numpy as np
from mc import ref
from mc.core import Violation
from mc.cat_admm import ar

_M = {}


def cfgs(axes):
    names = list(axes)
    for vals in itertools.product(*[axes[n] for n in names]):
        yield dict(zip(names, vals))


def close(a, b, tol):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False, 'shape %s != %s' % (a.shape, b.shape)
    if a.size == 0:
        return True, ''
    if not np.all(np.isfinite(a)):
        return False, 'non-finite values'
    e = float(np.max(np.abs(a - b)))
    s = 1.0 + float(np.max(np.abs(b)))
    return e <= tol * s, 'max difference %.3g (scale %.3g)' % (e, s)


def enlarged(p):
    """variants of a problem that are larger in one respect each"""
    out = []

    def var(tag, **kw):
        q = dict(p)
        q.update(kw)
        if q != p:
            q['key'] = p['key'] + tag
            out.append(q)
    if 'dsz' in p:
        return out
    if 'M' in p:
        up = {1: 12, 2: 5, 3: 2}[len(p['N'])]
        full = p['d'] == p['N']
        N = [n + up for n in p['N']]
        kw = {'N': N, 'd': N if full else [n + min(up, 3) for n in p['d']]}
        if 'd2' in p:
            kw['d2'] = [n + 2 for n in p['d2']]
        var('+N', **kw)
        var('+M', M=p['M'] + 6)
        if p.get('K'):
            var('+K', K=p['K'] + 4)
        if 'd2' in p:
            pass
        elif p.get('Cd', 0) > 1:
            var('+C', C=p['C'] + 3, Cd=p['Cd'] + 3)
        elif p.get('C', 0) > 1 and not p.get('nb'):
            var('+C', C=p['C'] + 4)
        if p.get('nb'):
            var('+C', C=p['C'] + 2, nb=p['nb'] + 3)
    elif 'k' in p:
        for a in 'nmk':
            var('+' + a, **{a: p[a] + 8})
    elif 'shp' in p:
        for i in range(len(p['shp'])):
            s = list(p['shp'])
            s[i] += 5
            var('+%d' % i, shp=s)
        if 'nb' in p:
            var('+b', nb=p['nb'] + 4)
    elif 'xs' in p or 'ys' in p or 'N' in p:
        for a in ('xs', 'ys', 'y0', 'y1', 'N'):
            if a in p and not (a == 'ys' and p.get('xs') == p['ys']):
                v = [n + 4 if a[0] != 'y' or p.get('ax', i) == i else n
                     for i, n in enumerate(p[a])]
                kw = {a: v}
                if a == 'xs' and p.get('ys') == p['xs']:
                    kw['ys'] = v
                if a == 'xs' and 'ax' in p:
                    continue
                var('+' + a, **kw)
        if 'nb' in p:
            var('+b', nb=p['nb'] + 4)
    return out


def deepen(ent, iters):
    """lengthen the traces of a catalogue entry"""
    ent.iters = iters
    orig = ent.optdict

    def optdict(p, o):
        d = orig(p, o)
        d['RelStopTol'] = 1e-9
        if 'AbsStopTol' in d:
            d['AbsStopTol'] = 1e-10
        return d
    ent.optdict = optdict
    return ent


def switching(ent, k0):
    """replace the dictionary or coefficient array after k0 iterations; False
    if the class has no such method"""
    nm = 'arrays' if hasattr(ent, 'arrays') else 'data'
    orig = getattr(ent, nm, None)
    if orig is None or ent.name.endswith(('MultiDictConvBPDN',
                                          'RobustPCA')):
        return False
    ent.alt = False

    def arrays(p, *a):
        r = orig(p, *a)
        D = r[0]
        if ent.alt:
            D = (0.7 * np.roll(D, 1, axis=0) - 0.2 * D[::-1]).astype(D.dtype)
        return (D,) + tuple(r[1:])
    setattr(ent, nm, arrays)

    def switch(b, p):
        f = getattr(b, 'setdict', None) or b.setcoef

        def now():
            return ent.std(p)[0] if hasattr(ent, 'std') else arrays(p)[0]
        buf = now().copy()
        if k0 == 2:
            # the array given before, with new content
            f(buf)
        ent.alt = True
        buf[...] = now()
        f(buf)
    ent.switch, ent.k0 = switch, k0
    return True


def varied(ent):
    """(tag, changes) for every parameter of a catalogue entry: zero, small
    and large values of the problem parameters, the penalty or inverse step
    size and the scale of the data"""
    out = []
    for a, fs in (('lmbda', (0, 1e-3, 40.0)), ('mu', (0, 1e-3, 40.0)),
                  ('gamma', (1e-3, 40.0)), ('eps', (1e-3, 40.0)),
                  ('rho', (1e-2, 1e2)), ('scale', (0, 1e-3, 1e3))):
        if a != 'scale' and not isinstance(getattr(ent, a, None), float):
            continue
        for f in fs:
            out.append(('%s*%g' % (a, f), [a, f]))
    if hasattr(ent, 'L0'):
        out += [('L*%g' % f, ['L0', f]) for f in (1e-2, 1e3)]
    return out


def vary(ent, change):
    a, f = change
    if a == 'L0':
        ent.L0 = tuple(v * f for v in ent.L0)
        return ent
    if a != 'scale':
        setattr(ent, a, getattr(ent, a) * f)
        return ent

    def by(x):
        if isinstance(x, (tuple, list)):
            return type(x)(by(v) for v in x)
        return (x * f).astype(x.dtype)
    for nm in ('arrays', 'data', 'sig'):
        orig = getattr(ent, nm, None)
        if orig is not None:
            def scaled(p, *args, _f=orig, _n=nm):
                r = _f(p, *args)
                return by(r) if _n == 'sig' else r[:-1] + (by(r[-1]),)
            setattr(ent, nm, scaled)
            break
    if 0 < f < 1:
        ent.tol = ent.tol * f
        ent.stol = 1e-8 * f * f
    return ent


def ostr(o):
    return ','.join('%s=%s' % (k, o[k]) for k in o)


def model(ent, p, o):
    m = ent.spec(p, o)
    k = (ent.name, p['key'], getattr(ent, 'alt', False),
         getattr(ent, 'variant', None)) + tuple(
        repr(o[n]) for n in getattr(ent, 'matopts', ('GradWeight',))
        if n in o)
    if k in _M:
        m._m = _M[k]
    elif type(m).xstep is ref.Admm.xstep and 'xstep' not in m.__dict__:
        _M[k] = m.mats()
    return m


def run_cfg(ent, p, o, rec, checks):
    """checks: set containing 'iter' and/or 'stat'."""
    k0 = getattr(ent, 'k0', None)
    if k0 is not None:
        ent.alt = False
    m = model(ent, p, o)
    trace, box = [], [None]

    def cb(b):
        x, y, u = ent.get(b)
        trace.append((np.array(x), np.array(y), np.array(u), float(b.rho),
                      b.itstat[-1] if b.itstat else None))
        if len(trace) == k0:
            ent.switch(box[0], p)
        return False

    opts = ostr(o)
    try:
        b = ent.build(p, o, {'Callback': cb})
        x0, y0, u0 = ent.get(b)
        rho0 = float(ent.core(b).rho)
        st = {'x': None if x0 is None else np.array(x0),
              'y': np.array(y0), 'u': np.array(u0), 'rho': rho0}
        if hasattr(m, 'hidden0'):
            st.update(m.hidden0(b, st))
        box[0] = b
        if k0 == 0:
            ent.switch(b, p)
        ret = b.solve()
    except Exception as e:
        rec.violate('solver-exception', '%s [%s]: %s: %s' % (
            ent.name, opts, type(e).__name__, e), options=o, problem=p)
        return
    rec.trace()
    d = ent.optdict(p, o)
    arp = ar(o)
    if 'iter' in checks:
        # without statistics the iterates are the same
        slow, n = trace, len(trace)
        trace = []
        try:
            if k0 is not None:
                ent.alt = False
            box[0] = ent.build(p, o, {'Callback': cb, 'FastSolve': True})
            if k0 == 0:
                ent.switch(box[0], p)
            box[0].solve()
        except Exception as e:
            rec.violate('solver-exception', '%s [%s] FastSolve: %s: %s' % (
                ent.name, opts, type(e).__name__, e), options=o, problem=p)
            return
        rec.trace()
        fast, trace = trace, slow
        if len(fast) < n:
            rec.violate('iterations', '%s [%s] FastSolve: %d iterations '
                        'instead of %d' % (ent.name, opts, len(fast), n),
                        options=o, problem=p)
            return
        for k in range(n):
            for nm, a, e in zip(('x', 'y', 'u', 'rho'), fast[k], slow[k]):
                ok, msg = close(a, e, 1e-9)
                if not ok:
                    rec.violate('fastsolve-' + nm, '%s [%s] FastSolve, '
                                'iteration %d: %s' % (ent.name, opts, k, msg),
                                options=o, problem=p, k=k)
                    return
    if 'iter' in checks and abs(rho0 - ent.rho) > 1e-9:
        rec.violate('initial-penalty', '%s [%s]: %r instead of %r' % (
            ent.name, opts, rho0, ent.rho), options=o)
    if 'iter' in checks and o.get('start') in ('YU', 'Y'):
        Y0, U0 = ent.startpoint(p, o)
        if not hasattr(ent, 'nostart'):
            y00 = st['y']
            # compare as flat multisets in the native layout
            if abs(np.sum(np.abs(Y0)) - np.sum(np.abs(y00))) > 1e-9 * (
                    1 + np.sum(np.abs(Y0))):
                rec.violate('initial-state', '%s [%s]: initial Y not used' % (
                    ent.name, opts), options=o)
    if len(trace) == 0:
        rec.violate('no-iterations', '%s [%s]' % (ent.name, opts))
        return
    tol = ent.tol
    if k0 is not None:
        ent.alt = False
    for k, (x, y, u, rho, its) in enumerate(trace):
        if k == k0:
            ent.alt = True
            m = model(ent, p, o)
        pred = m.step(st, o['RelaxParam'])
        rec.state()
        rec.step()
        r, s, ep, ed = m.tol(pred, d['AbsStopTol'], d['RelStopTol'],
                             arp['StdResiduals'])
        f = ref.autorho(k, r, s, arp, arp['RsdlTarget'])
        if not 1e-5 < st['rho'] / ent.rho < 1e5:
            # the linear systems are ill conditioned from here on
            rec.count('traces_cut_at_extreme_penalty')
            break
        if arp['Enabled'] and min(r, s) < 1e-11:
            # the residual ratio is rounding noise from here on
            rec.count('traces_cut_at_zero_residual')
            break
        if 'iter' in checks:
            q = dict(pred)
            q['rho'] = pred['rho'] * f
            m.scale_dual(q, f)
            for nm, a, bb in (('x', x, q['x']), ('y', y, q['y']),
                              ('u', u, q['u'])):
                ok, msg = close(a, bb, tol)
                if not ok:
                    rec.violate('iterate-' + nm, '%s [%s] iteration %d: %s' % (
                        ent.name, opts, k, msg), options=o, problem=p, k=k)
                    return
            if abs(rho - q['rho']) > 1e-7 * abs(q['rho']):
                rec.violate('penalty', '%s [%s] iteration %d: %r expected %r'
                            % (ent.name, opts, k, rho, q['rho']), options=o,
                            problem=p, k=k)
                return
        if 'stat' in checks and its is not None:
            # recompute everything from the observed variables
            fo = rho / st['rho']
            ob = {'x': x, 'y': y, 'u': u.copy(), 'rho': st['rho'],
                  'Ax': m.A(x) if pred.get('Ax') is not None else None,
                  'yprev': st['y']}
            for hk in pred:
                if hk not in ob:
                    ob[hk] = pred[hk]
            m.scale_dual(ob, 1.0 / fo)
            r, s, ep, ed = m.tol(ob, d['AbsStopTol'], d['RelStopTol'],
                                 arp['StdResiduals'])
            exp = {'PrimalRsdl': r, 'DualRsdl': s, 'EpsPrimal': ep,
                   'EpsDual': ed, 'Rho': st['rho'], 'Iter': k}
            exp.update(ent.stats(p, o, m, ob))
            for nm in exp:
                if not hasattr(its, nm):
                    rec.violate('missing-statistic', '%s: %s' % (
                        ent.name, nm))
                    return
                v = getattr(its, nm)
                e = exp[nm]
                if nm[:3] in ('Eps', 'Pri', 'Dua') and e > 1e7:
                    # relative to a norm that is zero up to rounding
                    continue
                if v is None or not np.isfinite(v) or \
                        abs(v - e) > 1e-6 * abs(e) + getattr(
                            ent, 'stol', 1e-8):
                    rec.violate('statistic-' + nm,
                                '%s [%s] iteration %d: reported %r, '
                                'recomputed %r' % (ent.name, opts, k, v, e),
                                options=o, problem=p, k=k)
                    return
            if hasattr(its, 'XSlvRelRes'):
                v = its.XSlvRelRes
                if o.get('LinSolveCheck'):
                    lim = getattr(ent, 'xslvtol', 1e-8)
                    if v is None or not v <= lim:
                        rec.violate('linsolve-check', '%s [%s] iteration %d: '
                                    'relative residual %r' % (
                                        ent.name, opts, k, v), options=o,
                                    problem=p)
                        return
                elif v is not None:
                    rec.violate('linsolve-check', '%s [%s]: unexpected value'
                                ' %r' % (ent.name, opts, v), options=o)
                    return
        nst = {'x': x, 'y': y, 'u': u, 'rho': rho}
        for hk in pred:
            if hk not in nst:
                nst[hk] = pred[hk]
        if hasattr(m, 'hidden'):
            nst.update(m.hidden(b, pred, f))
        st = nst
    # result of the call
    if k0 is not None:
        ent.alt = len(trace) >= k0
    last = {'x': trace[-1][0], 'y': trace[-1][1]}
    if 'iter' in checks:
        exp = ent.retval_p(p, o, last) if hasattr(ent, 'retval_p') else \
            ent.retval(o, last)
        if exp is not None:
            pairs = zip(ret, exp) if isinstance(exp, tuple) else [(ret, exp)]
            for a, e in pairs:
                ok, msg = close(a, e, 1e-9)
                if not ok:
                    rec.violate('returned-value', '%s [%s]: %s' % (
                        ent.name, opts, msg), options=o, problem=p)
    if 'iter' in checks and hasattr(ent, 'result'):
        a, e = ent.result(p, o, b, last)
        ok, msg = close(a, e, 1e-9)
        if not ok:
            rec.violate('returned-value', '%s [%s]: %s' % (
                ent.name, opts, msg), options=o, problem=p)
    if 'stat' in checks and getattr(ent, 'recon', None) is not None:
        for args in getattr(ent, 'recon_args', ((),)):
            e = ent.recon(p, o, last, *args)
            try:
                a = b.reconstruct(*args)
                a = np.asarray(a).reshape(e.shape)
            except Exception as ex:
                rec.violate('reconstruct', '%s [%s]: %s: %s' % (
                    ent.name, opts, type(ex).__name__, ex))
                return
            ok, msg = close(a, e, 1e-7)
            if not ok:
                rec.violate('reconstruct', '%s [%s]: %s' % (
                    ent.name, opts, msg), options=o, problem=p)
    rec.outcome(last['y'], trace[-1][3])
