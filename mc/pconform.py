"""Step-by-step conformance of PGM solver traces with the reference model."""
import numpy as np
from mc.conform import close, ostr
from mc.cat_pgm import Cut, BT

_M = {}


def run_cfg(ent, p, o, rec, checks):
    k0 = getattr(ent, 'k0', None)

    def model(alt):
        if k0 is not None:
            ent.alt = alt
        m = ent.spec(p, o)
        key = (ent.name, p['key'], alt)
        if key in _M:
            m._m = _M[key]
        else:
            _M[key] = m.Am()
        return m
    m = model(False)
    trace, box = [], [None]

    def cb(b):
        x, y = ent.get(b)
        trace.append((x, y, float(b.L),
                      b.itstat[-1] if b.itstat else None))
        if len(trace) == k0:
            ent.switch(box[0], p)
        return False
    opts = ostr(o)
    try:
        b = ent.build(p, o, {'Callback': cb})
        x, y = ent.get(b)
        L0 = float(b.L)
        box[0] = b
        if k0 == 0:
            ent.switch(b, p)
        ret = b.solve()
    except Exception as e:
        rec.violate('solver-exception', '%s [%s]: %s: %s' % (
            ent.name, opts, type(e).__name__, e), options=o, problem=p)
        return
    rec.trace()
    it = 'iter' in checks
    if it:
        # without statistics the iterates are the same
        slow, n = trace, len(trace)
        trace = []
        try:
            if k0 is not None:
                ent.alt = False
            bf = ent.build(p, o, {'Callback': cb, 'FastSolve': True})
            box[0] = bf
            if k0 == 0:
                ent.switch(bf, p)
            fret = bf.solve()
        except Exception as e:
            rec.violate('solver-exception', '%s [%s] FastSolve: %s: %s' % (
                ent.name, opts, type(e).__name__, e), options=o, problem=p)
            return
        rec.trace()
        fast, trace = trace, slow
        if len(fast) < n:
            rec.violate('iterations', '%s [%s] FastSolve: %d iterations '
                        'instead of %d' % (ent.name, opts, len(fast), n),
                        options=o, problem=p)
            return
        for k in range(n):
            for nm, a, e in zip(('x', 'y', 'L'), fast[k], slow[k]):
                ok, msg = close(a, e, 1e-9)
                if not ok:
                    rec.violate('fastsolve-' + nm, '%s [%s] FastSolve, '
                                'iteration %d: %s' % (ent.name, opts, k, msg),
                                options=o, problem=p, k=k)
                    return
        if len(fast) > n and 'stat' not in checks:
            # not stopped by the residuals: a longer trace
            trace, b, ret = fast, bf, fret
    if it and abs(L0 - o['L']) > 1e-9:
        rec.violate('initial-L', '%s [%s]: %r instead of %r' % (
            ent.name, opts, L0, o['L']))
    e0 = ent.x0(p, o) if o['start'] == 'X0' else np.zeros(ent.xshape(p))
    if it and not (close(x, e0, 1e-10)[0] and close(y, e0, 1e-10)[0]):
        rec.violate('initial-state', '%s [%s]' % (ent.name, opts),
                    options=o, problem=p)
        return
    st = {'x': x, 'y': y, 'L': L0, 't': 1.0, 'Tk': 0.0, 'Z': None,
          'bbx': None, 'bbg': None}
    if k0 is not None:
        ent.alt = False
    for k, (x, y, L, its) in enumerate(trace):
        if k == k0:
            m = model(True)
        try:
            q = m.step(st, o, k)
        except Cut:
            rec.count('traces_cut_at_rounding_decision')
            break
        rec.state()
        rec.step()
        if it:
            for nm, a, e in (('x', x, q['x']), ('y', y, q['y']),
                             ('L', L, q['L'])):
                ok, msg = close(a, e, 1e-7)
                if not ok:
                    rec.violate('iterate-' + nm, '%s [%s] iteration %d: %s' % (
                        ent.name, opts, k, msg), options=o, problem=p, k=k)
                    return
        if 'stat' in checks:
            ob = dict(q)
            ob.update(x=x, y=y)
            exp = {'Iter': k, 'L': L, 'Rsdl': ent.rsdl(o, k, ob)}
            exp.update(ent.stats(p, o, m, x))
            if BT[o['Backtrack']] is not None:
                exp.update(F_Btrack=q['F'], Q_Btrack=q['Q'],
                           IterBTrack=q['nb'])
            for nm in exp:
                v = getattr(its, nm, None)
                if v is None or not np.isfinite(v) or \
                        abs(v - exp[nm]) > 1e-6 * abs(exp[nm]) + getattr(
                            ent, 'stol', 1e-8):
                    rec.violate('statistic-' + nm, '%s [%s] iteration %d: '
                                'reported %r, recomputed %r' % (
                                    ent.name, opts, k, v, exp[nm]),
                                options=o, problem=p, k=k)
                    return
        for h in ('t', 'Tk', 'Z', 'bbx', 'bbg'):
            st[h] = q[h]
        st.update(x=x, y=y, L=L)
    if len(trace) != ent.iters:
        if it and not (len(trace) and trace[-1][3] is not None and
                       trace[-1][3].Rsdl < 1e-9):
            rec.violate('iterations', '%s [%s]: %d iterations' % (
                ent.name, opts, len(trace)))
        if not trace:
            return
    if k0 is not None:
        ent.alt = len(trace) >= k0
    x = trace[-1][0]
    if it:
        ok, msg = close(ret, x, 1e-12)
        if not ok:
            rec.violate('returned-value', '%s [%s]: %s' % (
                ent.name, opts, msg), options=o, problem=p)
        if hasattr(ent, 'result'):
            a, e = ent.result(p, b, x)
            ok, msg = close(a, e, 1e-9)
            if not ok:
                rec.violate('returned-value', '%s [%s]: getdict: %s' % (
                    ent.name, opts, msg), options=o, problem=p)
        if o['Monotone'] and not hasattr(ent, 'noobj') and not k0:
            vals = [m.obj(t[0]) for t in trace]
            if any(c > a + 1e-9 * (1 + abs(a))
                   for a, c in zip(vals, vals[1:])):
                rec.violate('not-monotone', '%s [%s]: %r' % (
                    ent.name, opts, vals), options=o, problem=p)
    if 'stat' in checks and ent.recon is not None:
        other = np.roll(x.ravel(), 1).reshape(x.shape) + 0.5
        for arg in ((), (other,)):
            e = ent.recon(p, o, arg[0] if arg else x)
            try:
                a = np.asarray(b.reconstruct(*arg)).reshape(e.shape)
            except Exception as ex:
                rec.violate('reconstruct', '%s [%s]: %s: %s' % (
                    ent.name, opts, type(ex).__name__, ex))
                return
            ok, msg = close(a, e, 1e-7)
            if not ok:
                rec.violate('reconstruct', '%s [%s]: %s' % (
                    ent.name, opts, msg), options=o, problem=p)
    rec.outcome(x)
