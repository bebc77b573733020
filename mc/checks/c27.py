"""C27: working precision."""
import numpy as np
from mc import conform
from mc import cat_admm, cat_admm2, cat_pgm, cat_dl

PROPERTY = 'C27'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 600
BOUNDS = {
    'quick': 'every solver class (except plug-and-play priors), every '
             'problem layout, at most 2 non-default options, 4 iterations, '
             'in 4 modes: single precision data; double precision data with '
             'a single precision DataType; single precision data with a '
             'double precision DataType; double precision data',
    'thorough': 'at most 3 non-default options'}

MODS = [cat_admm, cat_admm2, cat_pgm, cat_dl]
_randn = cat_admm.randn
SINGLE = [False]


def randn(r, shp, cplx=False):
    """The same single precision numbers as either data type."""
    x = _randn(r, shp, cplx)
    y = x.astype(np.complex64 if cplx else np.float32)
    return y if SINGLE[0] else y.astype(x.dtype)


def sources():
    out = []
    for m in (cat_admm2, cat_pgm):
        for e in m.ENTRIES:
            if 'ppp' not in e.name:
                out.append(('e', e.__module__ + '.' + e.__name__, e.name))
    for e in cat_dl.entries():
        out.append(('d', e.name, e.name))
    for m in (False, True):
        out.append(('p', str(m), cat_dl.Par(m).name))
    out.append(('c', 'parcbpdn', 'parcbpdn'))
    return out


def find(kind, nm):
    if kind == 'e':
        for m in (cat_admm2, cat_pgm):
            for e in m.ENTRIES:
                if e.__module__ + '.' + e.__name__ == nm:
                    return e()
    if kind == 'd':
        return [e for e in cat_dl.entries() if e.name == nm][0]
    if kind == 'p':
        return cat_dl.Par(nm == 'True')
    from mc.checks import c03
    return c03.E


def scenarios(tier):
    out = []
    for kind, nm, name in sources():
        for p in find(kind, nm).probs('quick'):
            if p['key'].endswith('r1'):
                # double precision data
                continue
            out.append(dict(kind=kind, nm=nm, p=p, tier=tier,
                            key='%s/%s' % (name, p['key'])))
    return out


def configs(kind, e, p, tier):
    if kind in 'dp':
        yield {}
        return
    from mc.checks.c02 import devs
    ax = e.axes('quick', p)
    for o in devs(ax, 2 if tier == 'quick' else 3):
        if not hasattr(e, 'valid') or e.valid(p, o):
            yield o


def build(kind, e, p, o, dt, cb):
    x = {} if dt is None else {'DataType': dt}
    if kind == 'e':
        return e.build(p, o, dict(x, Callback=cb))
    if kind == 'c':
        from mc.checks import c03
        return c03.E.make(p, o, 1, 0, dict(x, Callback=cb, MaxMainIter=3))
    d = {'Callback': cb, 'MaxMainIter': 3, 'Verbose': False}
    return e.make(p, d, dict(x), dict(x)) if kind == 'd' else \
        e.make(p, d)


METH = ('var_x', 'var_y', 'var_u', 'getmin', 'getcoef', 'getdict')


def observe(kind, e, b):
    out = []
    parts = [('', b)]
    if kind == 'e':
        c = e.core(b)
        if c is not b:
            parts.append(('inner.', c))
    if kind == 'd':
        parts += [('xstep.', b.xstep), ('dstep.', b.dstep)]
    for pre, s in parts:
        for n in METH:
            if kind == 'd' and n in ('getcoef', 'getdict') and pre:
                continue
            f = getattr(s, n, None)
            if f is None:
                continue
            try:
                v = f()
            except (NotImplementedError, AttributeError):
                continue
            for k, a in enumerate(v if isinstance(v, (tuple, list))
                                  else [v]):
                if a is not None:
                    out.append((pre + n + ('[%d]' % k if isinstance(
                        v, (tuple, list)) else ''), np.array(a)))
    return out


def trace(kind, e, p, o, single, dt, rec, what):
    SINGLE[0] = single
    cat_admm._SHAPES.clear()
    tr = []

    def cb(b):
        tr.append(observe(kind, e, b))
        L = getattr(b, 'L', None)
        tr[-1].append(('L', np.array(float(L)) if np.ndim(L) == 0 and
                       L is not None else np.zeros(())))
        return False
    rec.trace()
    try:
        b = build(kind, e, p, o, dt, cb)
        r = b.solve()
    except Exception as ex:
        rec.violate('exception', '%s: %s: %s' % (what, type(ex).__name__,
                                                 str(ex)[:200]))
        return None
    for k, a in enumerate(r if isinstance(r, tuple) else [r]):
        tr[-1].append(('result[%d]' % k, np.array(a)))
    return tr


def run(scn, rec):
    for m in MODS:
        m.randn = randn
    kind, p = scn['kind'], scn['p']
    e = find(kind, scn['nm'])
    if kind == 'c':
        from mc.checks import c03
        c03.randn = randn
    try:
        for o in configs(kind, e, p, scn['tier']):
            one(kind, e, p, o, rec)
            if len(rec.violations) >= 20:
                break
    finally:
        for m in MODS:
            m.randn = _randn
        cat_admm._SHAPES.clear()
        SINGLE[0] = False


def one(kind, e, p, o, rec):
    name = '%s %s [%s]' % (e.name, p['key'], conform.ostr(o))
    ref = trace(kind, e, p, o, False, None, rec, name)
    if ref is None:
        return
    cplx = any(a.dtype.kind == 'c' for n, a in ref[-1] if n == 'result[0]')
    lo, hi = (np.complex64, np.complex128) if cplx else (np.float32,
                                                         np.float64)
    modes = [('single data', True, None, lo),
             ('double data', False, None, hi)]
    if kind not in 'p':
        modes += [('DataType single', False, lo, lo),
                  ('DataType double', True, hi, hi)]
    for nm, single, dt, want in modes:
        what = '%s, %s' % (name, nm)
        tr = ref if not single and dt is None else \
            trace(kind, e, p, o, single, dt, rec, what)
        if tr is None:
            continue
        tol = 5e-3 if want is lo or single else 1e-9
        cut = False
        for k, (q, r) in enumerate(zip(tr, ref)):
            rec.state()
            rec.step(len(q))
            La, Lb = dict(q).get('L'), dict(r).get('L')
            if abs(La - Lb) > 1e-2 * (1 + abs(Lb)):
                # a line search decided differently within rounding
                rec.count('cut')
                break
            for (n, a), (_, b) in zip(q, r):
                if n == 'L':
                    continue
                # real quantities of complex problems stay real
                w = np.dtype(want)
                if a.dtype.kind != w.kind:
                    w = np.dtype({8: np.float32, 16: np.float64}[w.itemsize]
                                 if w.kind == 'c' else
                                 {4: np.complex64, 8: np.complex128}[
                                     w.itemsize])
                if a.dtype != w:
                    rec.violate('data-type', '%s: %s at iteration %d has '
                                'type %s, not %s' % (what, n, k, a.dtype, w))
                    cut = True
                    break
                ok, msg = conform.close(a, b, tol)
                if not ok:
                    rec.violate('value', '%s: %s at iteration %d: %s'
                                % (what, n, k, msg))
                    cut = True
                    break
            if cut:
                break
        if len(tr) != len(ref) and not cut:
            rec.count('length')
        rec.outcome(nm, tr[-1][0][1])
