"""C08: proximal and projection operators return exact minimisers."""
import itertools
import numpy as np
from mc import hist, large
from mc import ref, env

PROPERTY = 'C08'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 900
BOUNDS = {
    'quick': 'every array over a value lattice for 9 shapes of at most 6 '
             'entries, every axis specification (none, each axis, negative, '
             'every tuple), 5 scalar parameters and array parameters, real, '
             'single precision and complex values, memory layouts',
    'thorough': 'larger lattices, more shapes and parameters'}

LAT = [-2.0, -0.5, 0.0, 1.0, 1.5]
LAT4 = [-2.0, -0.5, 0.0, 1.5]
LAT2 = [-1.0, 2.0]
LAT3 = [-1.0, 0.0, 2.0]
SHAPES_Q = [((1,), LAT), ((2,), LAT), ((3,), LAT), ((1, 3), LAT),
            ((2, 2), LAT4), ((2, 1, 2), LAT3), ((2, 3), LAT3),
            ((3, 2), LAT2), ((1, 2, 3), LAT2)]
SHAPES_T = SHAPES_Q + [((2, 2), LAT), ((2, 1, 2), LAT), ((3, 2), LAT3),
                       ((1, 2, 3), LAT3), ((4,), LAT + [0.25]), ((5,), LAT),
                       ((2, 2, 2), LAT2), ((2, 2, 1, 2), LAT2)]
ALPHAS = [0.0, 0.25, 1.0, 4.0]


def axes_of(nd, full=True):
    out = [None]
    for k in range(nd):
        out += [k, k - nd]
    for n in range(1, nd + 1):
        for c in (itertools.permutations if full else
                  itertools.combinations)(range(nd), n):
            out.append(c if len(out) % 2 else c[::-1])
    if nd > 1:
        out.append((0, -1))
        out.append((-2, -1))
    return out


def groups(v, axis):
    """list of (index array into v.ravel()) for the vectors of the norm"""
    idx = np.arange(v.size).reshape(v.shape)
    if axis is None:
        return [idx.ravel()]
    if isinstance(axis, int):
        axis = (axis,)
    axis = tuple(a % v.ndim for a in axis)
    rest = tuple(a for a in range(v.ndim) if a not in axis)
    t = np.transpose(idx, rest + axis)
    n = int(np.prod([v.shape[a] for a in rest])) if rest else 1
    return list(t.reshape(n, -1))


def bygroup(v, axis, fn):
    out = np.zeros(v.size, dtype=np.result_type(v.dtype, np.float64))
    f = v.ravel()
    for g in groups(v, axis):
        out[g] = fn(f[g])
    return out.reshape(v.shape)


def p1(z, g):
    return ref.pball1(z, g, 0) if np.isrealobj(z) else cpball1(z, g)


def cpball1(z, g):
    a = ref.pball1(np.abs(z), g, 0)
    return np.where(np.abs(z) > 0, z / np.where(np.abs(z) > 0, np.abs(z), 1),
                    0) * a


def gs(z, a):
    n = np.sqrt(np.sum(np.abs(z)**2))
    return z * 0.0 if n <= a or n == 0 else z * ((n - a) / n)


def pb2(z, g):
    n = np.sqrt(np.sum(np.abs(z)**2))
    return z if n <= g else z * (g / n)


def fdl(x, v, a, b):
    return a * (np.sum(np.abs(x)) - b * np.sqrt(np.sum(x**2))) + \
        0.5 * np.sum((x - v)**2)


def dl_best(v, a, b):
    """minimum of fdl over all stationary candidates"""
    n = v.size
    best = fdl(np.zeros(n), v, a, b)
    for i in range(n):
        x = np.zeros(n)
        x[i] = np.sign(v[i]) * max(abs(v[i]) - (1 - b) * a, 0.0)
        best = min(best, fdl(x, v, a, b))
    z = ref.soft(v, a)
    for m in range(1, 2**n):
        zs = np.array([z[i] if m >> i & 1 else 0.0 for i in range(n)])
        nz = np.sqrt(np.sum(zs**2))
        if nz > 0:
            best = min(best, fdl(zs * (nz + a * b) / nz, v, a, b))
    return best


def scenarios(tier):
    out = []
    for sh, lat in (SHAPES_Q if tier == 'quick' else SHAPES_T):
        for kind in ('real', 'single', 'complex', 'fortran', 'noexpr'):
            lt = lat
            if kind != 'real' and int(np.prod(sh)) >= 4:
                lt = LAT2 if tier == 'quick' and sh != (2, 2) else LAT3
            for a in lt:
                key = '%s/%s/%s/%d' % (kind, sh, a, len(lt))
                if key not in [s['key'] for s in out]:
                    out.append({'key': key, 'k': kind, 'shape': list(sh),
                                'lat': lt, 'first': a, 'tier': tier})
    out.append({'key': 'norms', 'k': 'norms', 'tier': tier})
    out.append({'key': 'nuclear', 'k': 'nuclear', 'tier': tier})
    out.append({'key': 'reshape', 'k': 'reshape', 'tier': tier})
    return out


def arrays(scn):
    n = int(np.prod(scn['shape']))
    for i, vals in enumerate(itertools.product(scn['lat'], repeat=n - 1)):
        v = np.array((scn['first'],) + vals).reshape(scn['shape'])
        if scn['k'] == 'single':
            yield v.astype(np.float32)
        elif scn['k'] == 'complex':
            w = np.roll(v.ravel(), 1).reshape(v.shape)
            yield v + 1j * w * (np.abs(v) > 0.6)
        elif scn['k'] == 'fortran':
            if v.ndim > 1:
                w = np.zeros(tuple(2 * s for s in v.shape))
                w[tuple(slice(None, None, 2) for s in v.shape)] = v
                yield w[tuple(slice(None, None, 2) for s in v.shape)]
                yield np.asfortranarray(v)
        else:
            yield v


def run(scn, rec):
    from sporco import prox
    if scn['k'] == 'noexpr':
        prox = env.without('numexpr', 'sporco.prox')
    if scn['k'] == 'norms':
        return run_norms(scn, rec)
    if scn['k'] == 'nuclear':
        return run_nuclear(scn, rec)
    if scn['k'] == 'reshape':
        return run_reshape(scn, rec)
    sh = tuple(scn['shape'])
    nd = len(sh)
    cplx = scn['k'] == 'complex'
    tol = 2e-6 if scn['k'] == 'single' else 1e-11
    wt = (0.2 + np.arange(int(np.prod(sh)))).reshape(sh)
    wt.ravel()[0] = 0.0
    if scn['k'] == 'single':
        wt = wt.astype(np.float32)
    axs = axes_of(nd, scn['tier'] == 'thorough')
    last = v = None

    def cmp(name, args, v, fn, exp, ptol=None):
        nonlocal last
        v0 = v.copy()
        rec.step()
        try:
            y = fn(v)
        except Exception as e:
            rec.violate('exception', '%s%r on %r: %s: %s' % (
                name, args, v.tolist(), type(e).__name__, e))
            return None
        if not np.array_equal(v, v0):
            rec.violate('input-modified', '%s%r on %r' % (name, args,
                                                          v0.tolist()))
        y = np.asarray(y)
        if y.shape != v.shape:
            rec.violate('shape', '%s%r on %r gave shape %s' % (
                name, args, v.tolist(), y.shape))
            return None
        if not np.all(np.isfinite(y)):
            rec.violate('not-finite', '%s%r on %r gave %r' % (
                name, args, v.tolist(), y.tolist()))
            return None
        if name in ('prox_l1', 'prox_l2', 'proj_l2', 'prox_sl1l2') \
                and y.dtype != v.dtype and args[0] is not wt:
            rec.violate('dtype', '%s%r of %s gave %s' % (
                name, args, v.dtype, y.dtype))
        if exp is not None and np.max(np.abs(y - exp)) > (ptol or tol):
            rec.violate('wrong-value', '%s%r on %r: %r expected %r' % (
                name, args, v.tolist(), y.tolist(), exp.tolist()))
        last = y
        return y

    for v in arrays(scn):
        if len(rec.violations) >= 20:
            return
        rec.state()
        rec.trace()
        for a in ALPHAS:
            aa = v.real.dtype.type(a)
            cmp('prox_l1', (a,), v, lambda x: prox.prox_l1(x, aa),
                ref.soft(v, a))
            # magnitudes equal to the threshold may go either way
            hard = np.where(np.abs(v) >= np.sqrt(2 * a), v, 0)
            tie = np.abs(np.abs(v) - np.sqrt(2 * a)) < 1e-6
            y = cmp('prox_l0', (a,), v, lambda x: prox.prox_l0(x, a), None)
            if y is not None:
                bad = np.where(tie, (y != 0) & (np.abs(y - v) > tol),
                               np.abs(y - hard) > tol)
                if np.any(bad):
                    rec.violate('wrong-value', 'prox_l0(%g) on %r: %r' % (
                        a, v.tolist(), y.tolist()))
            for ax in axs:
                cmp('prox_l2', (a, ax), v,
                    lambda x: prox.prox_l2(x, aa, axis=ax),
                    bygroup(v, ax, lambda z: gs(z, a)))
                cmp('proj_l2', (a, ax), v,
                    lambda x: prox.proj_l2(x, aa, axis=ax),
                    bygroup(v, ax, lambda z: pb2(z, a)))
                if not cplx:
                    e = bygroup(v, ax, lambda z: p1(z, a))
                    cmp('proj_l1', (a, ax), v,
                        lambda x: prox.proj_l1(x, aa, axis=ax), e,
                        2e-5 if scn['k'] == 'single' else 1e-10)
                    if scn['k'] != 'noexpr':
                        cmp('proj_l1', (a, ax, 'sortcumsum'), v,
                            lambda x: prox.proj_l1(x, aa, axis=ax,
                                                   method='sortcumsum'), e,
                            2e-5 if scn['k'] == 'single' else 1e-10)
                for bb in (0.0, 0.4, 2.0) if scn['k'] == 'real' else (0.4,):
                    bt = v.real.dtype.type(bb)
                    cmp('prox_sl1l2', (a, bb, ax), v,
                        lambda x: prox.prox_sl1l2(x, aa, bt, axis=ax),
                        bygroup(ref.soft(v, a), ax, lambda z: gs(z, bb)))
                if scn['k'] in ('real', 'fortran') and \
                        not isinstance(ax, tuple) and a > 0:
                    for be in (0.0, 0.5, 1.0):
                        y = cmp('prox_dl1l2', (a, be, ax), v,
                                lambda x: prox.prox_dl1l2(x, a, be, axis=ax),
                                None)
                        if y is None:
                            continue
                        for g in groups(v, ax):
                            vg, yg = v.ravel()[g], y.ravel()[g]
                            if fdl(yg, vg, a, be) > \
                                    dl_best(vg, a, be) + 1e-10:
                                rec.violate(
                                    'not-minimal', 'prox_dl1l2(%g, %g, '
                                    'axis=%r) on %r: %r has value %g, '
                                    'minimum %g' % (
                                        a, be, ax, v.tolist(), y.tolist(),
                                        fdl(yg, vg, a, be),
                                        dl_best(vg, a, be)))
        # array-valued parameters
        cmp('prox_l1', (wt,), v, lambda x: prox.prox_l1(x, wt),
            ref.soft(v, wt))
        for ax in range(nd):
            wa = np.take(wt, [0], axis=ax)
            e = np.concatenate([ref.gsoft(np.take(v, [0], axis=0) * 0, 0.0,
                                          0)] * 0 + [ref.gsoft(
                                              v, wa, ax)], axis=0)
            cmp('prox_l2', (wt, ax), v,
                lambda x: prox.prox_l2(x, wa, axis=ax), e)
    if last is not None:
        rec.outcome(last)
    rec.sample = {'last_input': str(v),
                  'last_output': str(last)}


def run_norms(scn, rec):
    from sporco import prox
    for sh, lat in (SHAPES_Q if scn['tier'] == 'quick' else SHAPES_T):
        n = int(np.prod(sh))
        for i, vals in enumerate(itertools.product(lat[:4], repeat=n)):
            v = np.array(vals).reshape(sh)
            if i % 2:
                v = v + 1j * np.roll(v.ravel(), 1).reshape(sh)
            rec.state()
            for ax in axes_of(len(sh)):
                gr = groups(v, ax)
                a = np.abs(v).ravel()
                exps = {
                    'norm_l0': np.array([np.sum(a[g] > 0) for g in gr]),
                    'norm_l1': np.array([np.sum(a[g]) for g in gr]),
                    'norm_2l2': np.array([np.sum(a[g]**2) for g in gr]),
                    'norm_l2': np.array([np.sqrt(np.sum(a[g]**2))
                                         for g in gr])}
                exps['norm_dl1l2'] = exps['norm_l1'] - exps['norm_l2']
                for nm, e in exps.items():
                    rec.step()
                    y = getattr(prox, nm)(v, axis=ax)
                    if np.size(y) != e.size or np.max(np.abs(
                            np.sort(np.ravel(y)) - np.sort(e))) > 1e-10:
                        rec.violate('norm', '%s(axis=%r) of %r: %r expected '
                                    '%r' % (nm, ax, v.tolist(), y, e))
                        continue
                    if ax is not None and not isinstance(ax, tuple) and \
                            e.size > 1:
                        if np.max(np.abs(np.ravel(y) - e)) > 1e-10:
                            rec.violate('norm', '%s(axis=%r) of %r: order' % (
                                nm, ax, v.tolist()))
                y = prox.norm_l21(v, axis=ax)
                if abs(y - np.sum(exps['norm_l2'])) > 1e-10:
                    rec.violate('norm', 'norm_l21(axis=%r) of %r: %r' % (
                        ax, v.tolist(), y))
            if len(rec.violations) >= 20:
                return
    rec.trace()
    rec.outcome('norms')


def run_nuclear(scn, rec):
    from sporco import prox
    lat = [-1.0, 0.0, 0.5, 2.0]
    for sh in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)):
        n = int(np.prod(sh))
        for i, vals in enumerate(itertools.product(
                lat if n <= 4 else lat[:3], repeat=n)):
            for dt in (np.float64, np.complex128, np.float32, np.float16):
                if dt != np.float64 and i % 3:
                    continue
                V = np.array(vals).reshape(sh).astype(dt)
                if dt == np.complex128:
                    V = V + 1j * np.roll(V.real, 1)
                rec.state()
                rec.trace()
                W = V.astype(np.complex128)
                s = np.linalg.svd(W, compute_uv=False)
                tol = {np.float64: 1e-9, np.complex128: 1e-9,
                       np.float32: 1e-4, np.float16: 2e-2}[dt]
                y = prox.norm_nuclear(V)
                rec.step()
                if abs(y - s.sum()) > tol:
                    rec.violate('norm', 'norm_nuclear(%r)=%r' % (
                        V.tolist(), y))
                for a in (0.0, 0.3, 1.0, 5.0):
                    rec.step()
                    X, ss = prox.prox_nuclear(V, a)
                    e, es = ref.pnuc(W, a)
                    if X.shape != V.shape or np.max(np.abs(X - e)) > tol or \
                            np.max(np.abs(ss - es)) > tol:
                        rec.violate('wrong-value', 'prox_nuclear(%g) on %r' %
                                    (a, V.tolist()))
                if len(rec.violations) >= 20:
                    return
    rec.outcome('nuclear')


def run_reshape(scn, rec):
    """ndto2d / ndfrom2d are mutually inverse for every axis selection, rows
    of the 2d array being exactly the selected vectors"""
    from sporco import prox
    for sh in ((3,), (2, 3), (1, 3), (2, 3, 4), (2, 1, 3), (2, 3, 2, 2)):
        x = np.arange(int(np.prod(sh))).reshape(sh)
        for ax in axes_of(len(sh)):
            if ax is None:
                continue
            rec.state()
            rec.step()
            try:
                t, rsi = prox.ndto2d(x, ax)
                z = prox.ndfrom2d(t, rsi)
            except Exception as e:
                rec.violate('exception', 'ndto2d shape %s axis %r: %s' % (
                    sh, ax, e))
                continue
            if t.ndim != 2 or not np.array_equal(z, x):
                rec.violate('roundtrip', 'ndto2d shape %s axis %r' % (sh, ax))
            g = sorted(tuple(sorted(q)) for q in groups(x, ax))
            if sorted(tuple(sorted(q)) for q in t.tolist()) != g:
                rec.violate('rows', 'ndto2d shape %s axis %r: %s' % (
                    sh, ax, t.tolist()))
    rec.trace()
    rec.outcome('reshape')


hist.attach(globals())
large.attach(globals())
