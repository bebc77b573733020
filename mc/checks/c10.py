"""C10: transforms, convolution and frequency-domain norms."""
import itertools
import numpy as np
from mc import hist, large
from mc import env
from mc.checks.c09 import arr, bad

PROPERTY = 'C10'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 900
BOUNDS = {
    'quick': 'all shapes with axis lengths 1..4 in up to 3 dimensions '
             '(1..9 in one), all ordered axis selections, '
             'crop/pad sizes -1/0/+1 of every axis, real, complex and single '
             'precision data in C, Fortran, strided and misaligned layouts, '
             'with pyfftw (1 and 2 threads) and with the numpy fallback; '
             'all call histories of length 3 over 6 transforms for aliasing '
             'of results',
    'thorough': 'axis lengths 1..5, call histories of length 4'}
KINDS = ['real', 'complex', 'single', 'csingle']
LAYOUT = ['C', 'F', 'strided', 'misaligned']


def lay(x, how):
    if how == 'C':
        return np.ascontiguousarray(x)
    if how == 'F':
        return np.asfortranarray(x)
    if how == 'strided':
        big = np.zeros(tuple(2 * n for n in x.shape), x.dtype)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    raw = np.zeros(x.nbytes + 64, np.uint8)
    off = 8 + (-raw.ctypes.data) % 64
    v = raw[off:off + x.nbytes].view(x.dtype).reshape(x.shape)
    v[...] = x
    return v


def dft1(x, ax, sign):
    n = x.shape[ax]
    k = np.arange(n)
    W = np.exp(sign * 2j * np.pi * np.outer(k, k) / n)
    return np.moveaxis(np.tensordot(W, x, (1, ax)), 0, ax)


def fit(x, ax, n):
    m = x.shape[ax]
    if n < m:
        return np.take(x, range(n), axis=ax)
    pd = [(0, 0)] * x.ndim
    pd[ax] = (0, n - m)
    return np.pad(x, pd, 'constant')


def rdft(x, s, axes, sign):
    y = x.astype(complex)
    for a, n in zip(axes, s):
        y = fit(y, a, n)
    for a in axes:
        y = dft1(y, a, sign)
    if sign > 0:
        y = y / np.prod([y.shape[a] for a in axes])
    return y


def rconv(a, b, axes):
    """circular convolution on axes, broadcasting on the others"""
    axes = [x % a.ndim for x in axes]
    n = [max(a.shape[i], b.shape[i]) for i in axes]
    for i, m in zip(axes, n):
        b = fit(b, i, m)
        a = fit(a, i, m)
    out = 0.0
    for j in itertools.product(*[range(m) for m in n]):
        sl = [slice(None)] * a.ndim
        for i, k in zip(axes, j):
            sl[i] = slice(k, k + 1)
        out = out + a[tuple(sl)] * np.roll(b, j, axis=tuple(axes))
    return out


def axsel(nd):
    out = []
    for r in range(1, nd + 1):
        out += list(itertools.permutations(range(nd), r))
    return out


def shapes(tier, nd):
    m = 4 if tier == 'quick' else 5
    if nd == 1:
        return [(n,) for n in range(1, 10)]
    if nd == 2:
        return list(itertools.product(range(1, m + 1), repeat=2))
    if nd == 3:
        return list(itertools.product((1, 2, 3) if tier == 'quick' else
                                      (1, 2, 3, 4), repeat=3))
    return [(2, 3, 1, 2, 2), (3, 2, 2, 1, 3), (1, 4, 1, 1, 1)]


def scenarios(tier):
    out = []
    for var in ('fftw', 'numpy'):
        for nd in (1, 2, 3, 5):
            for kind in KINDS:
                out.append(dict(fn='xf', var=var, nd=nd, kind=kind))
                out.append(dict(fn='conv', var=var, nd=nd, kind=kind))
        out.append(dict(fn='norm', var=var))
        out.append(dict(fn='dct', var=var))
        out.append(dict(fn='alloc', var=var))
        for first in range(6):
            out.append(dict(fn='hist', var=var, first=first))
    for s in out:
        s['tier'] = tier
        s['key'] = '/'.join('%s' % s[k] for k in ('fn', 'var', 'nd', 'kind',
                                                  'first') if k in s)
    return out


def run(scn, rec):
    import sporco.fft as sf
    if scn['var'] == 'numpy':
        sf = env.without('pyfftw', 'sporco.fft')
    globals()['r_' + scn['fn']](scn, rec, sf)


def prec(kind):
    return 1e-5 if kind in ('single', 'csingle') else 1e-11


def single(x):
    return x.dtype in (np.dtype('float32'), np.dtype('complex64'))


def judge(rec, what, f, want, tol, ins=(), cplx=None, sgl=None):
    keep = [x.copy() for x in ins]
    rec.trace()
    rec.state()
    rec.step()
    try:
        g = f()
    except Exception as e:
        rec.violate('exception', '%s: %s: %s' % (what, type(e).__name__, e))
        return None
    m = bad(g, want, tol)
    if m:
        rec.violate('wrong-value', '%s: %s' % (what, m))
    elif cplx is not None and np.iscomplexobj(g) != cplx:
        rec.violate('wrong-type', '%s: %s' % (what, g.dtype))
    elif sgl is not None and single(g) != sgl:
        rec.violate('wrong-precision', '%s: %s' % (what, g.dtype))
    for i, (x, k) in enumerate(zip(ins, keep)):
        if not np.array_equal(x, k):
            rec.violate('input-modified', '%s argument %d' % (what, i))
    return g


def r_xf(scn, rec, sf):
    kind, nd = scn['kind'], scn['nd']
    tol = prec(kind)
    for sh in shapes(scn['tier'], nd):
        x0 = arr(sh, kind, 'fft')
        for li, how in enumerate(LAYOUT):
            x = lay(x0, how)
            sels = axsel(nd) if nd < 5 else [(0, 1), (0,), (1,), (4, 0),
                                             (0, 1, 2)]
            for ax in [None] + sels:
                if how != 'C' and ax is not None and len(ax) > 1 and \
                        ax != tuple(sorted(ax)):
                    continue
                full = tuple(range(nd)) if ax is None else ax
                sz = [None]
                base = [sh[a] for a in full]
                if how == 'C':
                    for i in range(len(full)):
                        for dl in (-1, 1, 2):
                            if base[i] + dl > 0:
                                s = list(base)
                                s[i] += dl
                                sz.append(tuple(s))
                for s in sz:
                    se = base if s is None else s
                    va = [(s, ax)]
                    # negative axes are not claimed: pyfftw's numpy
                    # interface itself mishandles them
                    if s is not None:
                        va.append((np.array(s), ax))
                    if ax is None and s is not None:
                        va = [(s, full)]
                    want = rdft(x0, se, full, -1)
                    wanti = rdft(x0, se, full, 1)
                    for s_, a_ in va:
                        w = '%s %s s=%s axes=%s %s' % (sh, kind, s_, a_, how)
                        judge(rec, 'fftn ' + w, lambda: sf.fftn(
                            x, s_, a_), want, tol * 9, (x,), True,
                            single(x0))
                        judge(rec, 'ifftn ' + w, lambda: sf.ifftn(
                            x, s_, a_), wanti, tol * 9, (x,), True,
                            single(x0))
                        if kind in ('real', 'single'):
                            last = full[-1]
                            wr = np.take(want, range(
                                want.shape[last] // 2 + 1), axis=last)
                            r = judge(rec, 'rfftn ' + w, lambda: sf.rfftn(
                                x, s_, a_), wr, tol * 9, (x,), True,
                                single(x0))
                            if r is not None and s is None:
                                r = lay(r, how)
                                judge(rec, 'irfftn ' + w, lambda: sf.irfftn(
                                    r, tuple(base), full), x0, tol * 9,
                                    (r,), False, single(x0))
                                judge(rec, 'irfftn list ' + w, lambda:
                                      sf.irfftn(r, list(base), list(full)),
                                      x0, tol * 9, (r,), False)
                    if rec.violations:
                        return
        rec.outcome(want)
    # selectors
    if sf.fftn_func(True) is not sf.rfftn or sf.fftn_func(False) is not \
            sf.fftn or sf.ifftn_func(True) is not sf.irfftn or \
            sf.ifftn_func() is not sf.ifftn:
        rec.violate('wrong-value', 'fftn_func/ifftn_func selection')


def r_conv(scn, rec, sf):
    kind, nd = scn['kind'], scn['nd']
    tol = prec(kind) * 20
    mx = 3 if nd < 3 else 2
    if nd == 5:
        pairs = [((2, 2, 1, 1, 2), (3, 4, 2, 2, 1)),
                 ((3, 4, 2, 2, 1), (2, 2, 1, 1, 2)),
                 ((2, 1, 1, 1, 1), (1, 3, 1, 1, 2))]
    else:
        ss = list(itertools.product(range(1, mx + 1), repeat=nd))
        pairs = list(itertools.product(ss, ss))
        if nd == 1:
            pairs += [((a,), (b,)) for a in (1, 2, 4, 5) for b in (4, 5, 6)]
    k2 = {'real': ('real', 'complex'), 'complex': ('real', 'complex'),
          'single': ('single', 'csingle'), 'csingle': ('single',)}[kind]
    for sa, sb in pairs:
        a = arr(sa, kind, 'ca')
        for kb in k2:
            b = arr(sb, kb, 'cb')
            sel = axsel(nd) if nd < 5 else [(0, 1), (1, 0), (0,)]
            for ax in [None] + sel:
                full = tuple(range(nd)) if ax is None else ax
                rest = [i for i in range(nd) if i not in full]
                if any(sa[i] != sb[i] and 1 not in (sa[i], sb[i])
                       for i in rest):
                    continue
                want = rconv(a, b, full)
                w = '%s %s axes=%s' % (sa, sb, ax)
                cp = kind in ('complex', 'csingle') or kb in ('complex',
                                                              'csingle')
                judge(rec, 'fftconv ' + w, lambda: sf.fftconv(a, b, ax),
                      want, tol, (a, b), cp, single(a))
                if ax is not None:
                    judge(rec, 'fftconv ' + w, lambda: sf.fftconv(
                        a, b, axes=list(ax)), want, tol, (a, b))
                orgs = list(itertools.product((0, 1, 2),
                                              repeat=len(full)))[:9]
                for og in orgs:
                    wo = np.roll(want, [-o for o in og], axis=full)
                    judge(rec, 'fftconv %s origin=%s' % (w, og), lambda:
                          sf.fftconv(a, b, axes=ax, origin=og), wo, tol,
                          (a, b))
                if rec.violations:
                    return
        rec.outcome(want)


def r_norm(scn, rec, sf):
    for nd in (1, 2, 3):
        for sh in shapes('quick', nd) + ([(2, 5), (5, 6)] if nd == 2 else []):
            for kind in ('real', 'complex', 'single'):
                x = arr(sh, kind, 'n')
                want = np.asarray(np.sum(np.abs(x)**2))
                for ax in axsel(nd):
                    for axs in (ax, list(ax)):
                        xf = rdft(x, [sh[a] for a in ax], ax, -1)
                        w = '%s axis=%s' % (sh, axs)
                        judge(rec, 'fl2norm2 ' + w, lambda: np.asarray(
                            sf.fl2norm2(xf, axs)), want, 1e-5, (xf,))
                        judge(rec, 'fl2norm2_func ' + w, lambda: np.asarray(
                            sf.fl2norm2_func(False)(xf, sh, axs)), want,
                            1e-5, (xf,))
                        if kind == 'complex':
                            continue
                        l = ax[-1]
                        rf = np.take(xf, range(sh[l] // 2 + 1), axis=l)
                        judge(rec, 'rfl2norm2 ' + w, lambda: np.asarray(
                            sf.rfl2norm2(rf, sh, axs)), want, 1e-5, (rf,))
                        judge(rec, 'rfl2norm2_func ' + w, lambda: np.asarray(
                            sf.fl2norm2_func(True)(rf, sh, axs)), want, 1e-5)
                if nd >= 2:
                    xf = rdft(x, sh[0:2], (0, 1), -1)
                    judge(rec, 'fl2norm2 default', lambda: np.asarray(
                        sf.fl2norm2(xf)), want, 1e-5)
                    if kind != 'complex':
                        rf = xf[:, :sh[1] // 2 + 1]
                        judge(rec, 'rfl2norm2 default', lambda: np.asarray(
                            sf.rfl2norm2(rf, sh)), want, 1e-5)
                rec.outcome(want)
                if len(rec.violations) > 3:
                    return


def dct1(x, ax):
    n = x.shape[ax]
    k = np.arange(n)
    C = np.cos(np.pi * np.outer(k, 2 * k + 1) / (2.0 * n)) * np.sqrt(2.0 / n)
    C[0] /= np.sqrt(2.0)
    return np.moveaxis(np.tensordot(C, x, (1, ax)), 0, ax)


def r_dct(scn, rec, sf):
    for nd in (1, 2, 3):
        for sh in shapes('quick', nd):
            for kind in ('real', 'single'):
                x = arr(sh, kind, 'dct')
                for ax in [None] + axsel(nd):
                    full = tuple(range(nd)) if ax is None else ax
                    y = x.astype(float)
                    for a in full:
                        y = dct1(y, a)
                    tol = prec(kind) * 10
                    w = '%s axes=%s' % (sh, ax)
                    g = judge(rec, 'dctii ' + w, lambda: sf.dctii(x, ax), y,
                              tol, (x,), False)
                    if g is not None:
                        judge(rec, 'idctii ' + w, lambda: sf.idctii(g, ax),
                              x.astype(float), tol, (g,), False)
                rec.outcome(y)


def r_alloc(scn, rec, sf):
    for nd in (1, 2, 3):
        for sh in shapes('quick', nd):
            for dt in ('float32', 'float64'):
                dt = np.dtype(dt)
                cdt = np.dtype('complex64' if dt == np.float32 else
                               'complex128')
                rec.trace()
                rec.state()
                for r in (False, True):
                    for ax in axsel(nd):
                        e = sf.empty_aligned_func(r)(
                            sh, ax, dt if r else cdt)
                        x = np.zeros(sh, dt if r else cdt)
                        y = sf.fftn_func(r)(x, axes=ax)
                        if e.shape != y.shape or e.dtype != cdt or \
                                y.dtype != cdt:
                            rec.violate('wrong-type', 'empty_aligned_func('
                                        '%s) %s %s: %s %s' % (
                                            r, sh, ax, e.shape, e.dtype))
                        z = sf.ifftn_func(r)(y, sh if len(ax) == nd and
                                             ax == tuple(range(nd)) else
                                             tuple(sh[a] for a in ax), ax)
                        if z.shape != sh or z.dtype != x.dtype:
                            rec.violate('wrong-type', 'ifftn_func(%s) %s %s'
                                        % (r, sh, ax))
                e = sf.empty_aligned(sh, dt)
                if e.shape != sh or e.dtype != dt:
                    rec.violate('wrong-type', 'empty_aligned %s' % (sh,))
                x = arr(sh, 'real', 'al')
                b = sf.byte_aligned(x, dtype=dt)
                if b.shape != sh or b.dtype != dt or not np.allclose(
                        b, x, rtol=1e-5, atol=1e-6):
                    rec.violate('wrong-type', 'byte_aligned %s' % (sh,))
                if sf.complex_dtype(dt) != cdt or sf.real_dtype(cdt) != dt \
                        or not sf.is_complex_dtype(cdt) or \
                        sf.is_complex_dtype(dt) or \
                        sf.real_dtype(dt) != dt or \
                        sf.complex_dtype(cdt) != cdt:
                    rec.violate('wrong-type', 'dtype maps of %s' % dt)
                rec.outcome(str(e.dtype), sh)


def r_hist(scn, rec, sf):
    """results of earlier calls survive later calls"""
    sh = (4, 3)
    xr = arr(sh, 'real', 1)
    xr2 = arr(sh, 'real', 2)
    xc = arr(sh, 'complex', 3)
    xh = rdft(xr2, sh, (0, 1), -1)[:, :2]
    ops = [(lambda: sf.fftn(xc, None, (0, 1)), rdft(xc, sh, (0, 1), -1)),
           (lambda: sf.fftn(xr, None, (0, 1)), rdft(xr, sh, (0, 1), -1)),
           (lambda: sf.ifftn(xc, None, (0, 1)), rdft(xc, sh, (0, 1), 1)),
           (lambda: sf.rfftn(xr, None, (0, 1)),
            rdft(xr, sh, (0, 1), -1)[:, :2]),
           (lambda: sf.rfftn(xr2, None, (0, 1)),
            rdft(xr2, sh, (0, 1), -1)[:, :2]),
           (lambda: sf.irfftn(xh, sh, (0, 1)), xr2)]
    depth = 3 if scn['tier'] == 'quick' else 4
    thr = (1, 2) if scn['var'] == 'fftw' else (1,)
    old = sf.pyfftw_threads
    try:
        for t in thr:
            sf.pyfftw_threads = t
            for seq in itertools.product(range(6), repeat=depth - 1):
                seq = (scn['first'],) + seq
                rec.trace()
                res = []
                for o in seq:
                    res.append((o, ops[o][0]()))
                    rec.step()
                    rec.state()
                    for i, (p, y) in enumerate(res):
                        m = bad(y, ops[p][1], 1e-11)
                        if m:
                            rec.violate('result-overwritten', 'history %s '
                                        'call %d: %s' % (seq, i, m))
                            return
                    # results may be modified by their owner
                for i, (p, y) in enumerate(res):
                    y *= 0
                    for q, z in res[i + 1:]:
                        if bad(z, ops[q][1], 1e-11):
                            rec.violate('result-shared', 'history %s' %
                                        (seq,))
                            return
        rec.outcome(scn['first'], scn['var'])
    finally:
        sf.pyfftw_threads = old


hist.attach(globals())
large.attach(globals())
