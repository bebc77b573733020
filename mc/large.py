"""Instances enlarged along one dimension at a time (axis lengths, numbers of
blocks, scales of the values and parameters), for the function checks whose
exhaustive part is limited to small arrays.  The oracles are those of the
checks themselves (definitions as matrices, dense solves, loops)."""
import itertools
import numpy as np
from mc import ref

BOUND = ('; enlarged instances: one axis, block, filter or image count at a '
         'time up to %s, values and parameters scaled by up to 1e6 either way')
SIZES = {'quick': (12, 16, 17, 31, 33, 64, 65, 100, 129, 257),
         'thorough': (12, 16, 17, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128,
                      129, 200, 255, 256, 257, 400, 513, 1025)}
SCALES = (1e-6, 1e-3, 1.0, 1e3, 1e6)


def sizes(tier, top=10 ** 9):
    return [n for n in SIZES[tier] if n <= top]


def data(shape, tag=0, ties=False):
    n = int(np.prod(shape))
    k = np.arange(n)
    v = np.sin(1.3 * k + 0.7 * tag + 0.2) + 0.6 * np.cos(3.1 * k + tag)
    if ties:
        v = np.round(v * 4) / 4
    return v.reshape(shape)


# --------------------------------------------------------------------- C08
def dl_best(v, a, b):
    """optimal supports are sets of largest magnitudes"""
    def f(x):
        return a * (np.sum(np.abs(x)) - b * np.sqrt(np.sum(x ** 2))) + \
            0.5 * np.sum((x - v) ** 2)
    o = np.argsort(-np.abs(v), kind='stable')
    best = f(v * 0)
    x = v * 0
    x[o[0]] = np.sign(v[o[0]]) * max(abs(v[o[0]]) - (1 - b) * a, 0)
    best = min(best, f(x))
    z = ref.soft(v, a)
    for m in range(1, v.size + 1):
        w = v * 0
        w[o[:m]] = z[o[:m]]
        nz = np.sqrt(np.sum(w ** 2))
        if nz > 0:
            best = min(best, f(w * (nz + a * b) / nz))
    return best


def c08(scn, rec, ns):
    from sporco import prox
    n = scn['n']
    soft, gs, pb2, p1 = ref.soft, ns['gs'], ns['pb2'], ns['p1']
    bygroup, groups = ns['bygroup'], ns['groups']
    for sh in ((n,), (n, 2), (2, n), (3, n, 2)):
        for kind in ('real', 'ties', 'single', 'complex'):
            for sc in SCALES if len(sh) < 3 else (1.0,):
                v = data(sh, n, kind == 'ties') * sc
                if kind == 'single':
                    v = v.astype(np.float32)
                if kind == 'complex':
                    v = v + 1j * data(sh, n + 5) * sc
                tol = (3e-5 if kind == 'single' else 1e-10) * sc * \
                    np.sqrt(n)
                l1 = float(np.sum(np.abs(v)))
                l2 = float(np.sqrt(np.sum(np.abs(v) ** 2)))

                def cmp(what, f, want):
                    v0 = v.copy()
                    rec.state()
                    rec.step()
                    rec.trace()
                    try:
                        y = f()
                    except Exception as e:
                        rec.violate('exception', '%s of %s %s scale %g: %s' %
                                    (what, kind, sh, sc, e))
                        return None
                    if not np.array_equal(v, v0):
                        rec.violate('input-modified', '%s %s' % (what, sh))
                    if want is not None and (
                            np.shape(y) != np.shape(want) or not
                            np.max(np.abs(y - want)) <= tol):
                        rec.violate('wrong-value', '%s of %s %s scale %g: '
                                    'error %g' % (
                                        what, kind, sh, sc, np.max(np.abs(
                                            y - want)) if np.shape(y) ==
                                        np.shape(want) else np.nan))
                    return y
                ty = v.real.dtype.type
                for a in (0.0, 0.3 * sc, 5.0 * sc):
                    cmp('prox_l1', lambda: prox.prox_l1(v, ty(a)),
                        soft(v, a))
                    y = cmp('prox_l0', lambda: prox.prox_l0(v, a), None)
                    th = np.sqrt(2 * a)
                    if y is not None:
                        m = np.abs(np.abs(v) - th) < 1e-5 * sc
                        w = np.where(np.abs(v) >= th, v, 0)
                        if np.any((np.abs(y - w) > tol) & ~m):
                            rec.violate('wrong-value', 'prox_l0 of %s %s '
                                        'scale %g' % (kind, sh, sc))
                axs = [None] + list(range(-1, len(sh))) + (
                    [(0, 1)] if len(sh) > 1 else [])
                for ax in axs:
                    for q in (0.0, 0.02, 0.4, 1.5):
                        a = q * l2
                        cmp('prox_l2 axis %s' % (ax,), lambda: prox.prox_l2(
                            v, ty(a), axis=ax), bygroup(
                                v, ax, lambda z: gs(z, a)))
                        cmp('proj_l2 axis %s' % (ax,), lambda: prox.proj_l2(
                            v, ty(a), axis=ax), bygroup(
                                v, ax, lambda z: pb2(z, a)))
                        if kind == 'complex':
                            continue
                        g = q * l1 / (v.size / groups(v, ax)[0].size)
                        e = bygroup(v, ax, lambda z: p1(z, g))
                        for me in ('scalarroot', 'sortcumsum', None):
                            kw = {} if me is None else {'method': me}
                            # the root finder has an absolute tolerance
                            if (me == 'scalarroot' or me is None and
                                    ax is None) and sc != 1.0 or \
                                    me == 'scalarroot' and ax is not None:
                                continue
                            cmp('proj_l1 axis %s %s' % (ax, me), lambda:
                                prox.proj_l1(v, ty(g), axis=ax, **kw), e)
                        b = 0.1 * a
                        cmp('prox_sl1l2 axis %s' % (ax,), lambda:
                            prox.prox_sl1l2(v, ty(b), ty(a), axis=ax),
                            bygroup(soft(v, b), ax, lambda z: gs(z, a)))
                    if kind in ('real', 'ties') and not isinstance(
                            ax, tuple) and len(sh) < 3 and sc in (1e-3, 1.0):
                        for a, be in itertools.product(
                                (0.2 * sc, 1.2 * sc, 3.0 * sc),
                                (0.0, 0.5, 1.0)):
                            y = cmp('prox_dl1l2', lambda: prox.prox_dl1l2(
                                v, a, be, axis=ax), None)
                            if y is None:
                                continue
                            for gi in groups(v, ax):
                                vg, yg = v.ravel()[gi], y.ravel()[gi]
                                fy = a * (np.sum(np.abs(yg)) - be * np.sqrt(
                                    np.sum(yg ** 2))) + 0.5 * np.sum(
                                        (yg - vg) ** 2)
                                if fy > dl_best(vg, a, be) + 1e-9 * sc * sc \
                                        * vg.size:
                                    rec.violate(
                                        'not-minimal', 'prox_dl1l2(%g, %g, '
                                        'axis=%s) of %s' % (a, be, ax, sh))
                                    break
                    for nm, f in (
                            ('norm_l1', lambda z: np.sum(np.abs(z))),
                            ('norm_2l2', lambda z: np.sum(np.abs(z) ** 2)),
                            ('norm_l2', lambda z: np.sqrt(np.sum(
                                np.abs(z) ** 2)))):
                        w = np.array([f(v.ravel()[g].astype(
                            complex)) for g in groups(v, ax)])
                        y = np.ravel(getattr(prox, nm)(v, axis=ax))
                        if y.size != w.size or np.max(np.abs(y - w)) > \
                                1e-4 * np.max(w):
                            rec.violate('norm', '%s axis %s %s %s' % (
                                nm, ax, kind, sh))
                if len(rec.violations) > 5:
                    return
    if n <= 129:
        for sh in ((n, 3), (4, n)):
            for sc in SCALES:
                V = data(sh, n) * sc
                for a in (0.1 * sc, 3.0 * sc):
                    X, s = prox.prox_nuclear(V, a)
                    e, es = ref.pnuc(V, a)
                    rec.state()
                    if X.shape != V.shape or np.max(np.abs(X - e)) > \
                            1e-8 * sc or np.max(np.abs(s - es)) > 1e-8 * sc:
                        rec.violate('wrong-value', 'prox_nuclear %s scale %g'
                                    % (sh, sc))
    rec.outcome(n)


# --------------------------------------------------------------------- C09
def c09(scn, rec, ns):
    import sporco.linalg as la
    n = scn['n']
    arr, call = ns['arr'], ns['call']
    for kind in ('real', 'complex'):
        for sh, ax in (((n,), 0), ((n, 2), 1), ((2, n), 1), ((n, 2, 1, 2, 3),
                                                           4),
                       ((2, 1, n, 1, 2), 4), ((2, 3, 1, 1, n), 4)):
            ah, b = arr(sh, kind, 'ah'), arr(sh, kind, 'b')
            for rho, sc in itertools.product((1e-3, 0.5, 1e4),
                                             (1e-3, 1.0, 1e3)):
                if sc / rho > 1e5:
                    continue
                w = '(%s %s axis=%d rho=%g scale %g)' % (kind, sh, ax, rho,
                                                         sc)
                want = ns['dense_sm'](ah * sc, rho, b, ax)
                # cancellation: the relative size of the two terms
                t = 1e-9 + 1e-14 * n * sc * sc / rho / rho
                s = np.max(np.abs(want))
                for c in (None, la.solvedbi_sm_c(
                        ah * sc, np.conj(ah * sc), rho, axis=ax)):
                    call(rec, scn, 'solvedbi_sm' + w, lambda:
                         la.solvedbi_sm(ah * sc, rho, b, c, axis=ax) / s,
                         want / s, t)
                d = rho * (1 + np.abs(arr(sh, 'real', 'd')))
                want = ns['dense_sm'](ah * sc, d, b, ax)
                s = np.max(np.abs(want))
                call(rec, scn, 'solvedbd_sm' + w, lambda:
                     la.solvedbd_sm(ah * sc, d, b, axis=ax) / s, want / s, t)
        if n <= 65:
            for N, C, K, M in (((2,), 1, n, 2), ((2,), 1, 2, n),
                               ((2,), n, 2, 2), ((n, 2), 1, 2, 3),
                               ((1, n), 2, 2, 2)):
                ah = arr(N + (C, K, M), kind, 'ah')
                b = arr(N + (C, 1, M), kind, 'b')
                aK, aM = len(N) + 1, len(N) + 2
                for rho in (1e-2, 1.0, 1e4):
                    want = ns['dense_md'](ah, rho, b, aM, aK)
                    s = np.max(np.abs(want))
                    w = '(%s %s rho=%g)' % (kind, ah.shape, rho)
                    call(rec, scn, 'solvemdbi_ism' + w, lambda:
                         la.solvemdbi_ism(ah, rho, b, aM, aK) / s, want / s,
                         1e-6)
                    call(rec, scn, 'solvemdbi_rsm' + w, lambda:
                         la.solvemdbi_rsm(ah, rho, b, aK, len(N)) / s,
                         want / s, 1e-6)
                    if rho >= 1:
                        call(rec, scn, 'solvemdbi_cg' + w, lambda:
                             la.solvemdbi_cg(ah, rho, b, aM, aK, 1e-12,
                                             5000)[0] / s, want / s, 1e-6)
            if kind == 'real':
                for sh in ((n, 2), (2, n), (n, n)):
                    ns['fact'](rec, scn, la, arr(sh, 'real', 'A'), ('f',))
                A = arr((n, n), 'real', 'S')
                A = A.dot(A.T) / n
                for m in (1, 3):
                    B = arr((m, m), 'real', 'T')
                    B = B + B.T
                    for X, Y, C in ((A, B, arr((n, m), 'real', 'C')),
                                    (B, A, arr((m, n), 'real', 'C'))):
                        al = 20.0 + np.abs(
                            np.linalg.eigvalsh(B)).max() * \
                            np.abs(np.linalg.eigvalsh(A)).max()
                        want = np.linalg.solve(
                            np.kron(X, Y.T) + al * np.eye(n * m),
                            C.ravel()).reshape(C.shape)
                        call(rec, scn, 'sylvester %s' % (C.shape,), lambda:
                             la.solve_symmetric_sylvester(X, Y, C, al), want,
                             1e-8, (X, Y, C))
        for sh, ax in (((n, 2), 0), ((2, n), 1), ((2, n, 3), 1),
                       ((n, 2, 3), 1)):
            x, y = arr(sh, kind, 'x'), arr(sh, kind, 'y')
            if ax or len(sh) == 1:
                call(rec, scn, 'inner %s %d' % (sh, ax), lambda:
                     la.inner(x, y, axis=ax),
                     np.sum(x * y, axis=ax, keepdims=True), 1e-10)
            a = arr((3, sh[ax]), 'real', 'a')
            call(rec, scn, 'dot %s %d' % (sh, ax), lambda:
                 la.dot(a, x, axis=ax), np.moveaxis(np.tensordot(
                     a, x, (1, ax)), 0, ax), 1e-10)
        if len(rec.violations) > 3:
            return
    if n <= 100:
        A = tuple(arr((2, 1), 'real', i) for i in range(n))
        want = np.zeros((2 * n, n))
        for i, j in itertools.product(range(n), repeat=2):
            want[2 * i:2 * i + 2, j:j + 1] = A[(i - j) % n]
        call(rec, scn, 'block_circulant %d' % n,
             lambda: la.block_circulant(A), want, 1e-12)
    for sc in SCALES:
        x, y = arr((n, 2), 'real', 'x') * sc, arr((n, 2), 'real', 'y') * sc
        call(rec, scn, 'rrs', lambda: la.rrs(x, y), np.asarray(
            np.sqrt(np.sum((x - y) ** 2)) / max(
                np.sqrt(np.sum(x ** 2)), np.sqrt(np.sum(y ** 2)))), 1e-10)
        for ax in (None, (0,), (1,)):
            for r in (0.0, 0.5 * sc, 1e3 * sc):
                s = np.full((n, 2), 0.3 * sc)
                d = np.sqrt(np.sum((x - s) ** 2, axis=ax, keepdims=True))
                want = np.where(d <= r, x, s + (x - s) * r / d)
                call(rec, scn, 'proj_l2ball %s' % (ax,), lambda:
                     la.proj_l2ball(x, s, r, ax) / sc, want / sc, 1e-9)
    for sh in ((n, 4), (4, n)):
        for cen in (False, True):
            U = arr(sh, 'real', 'U')
            B, S, C = la.pca(U, centre=cen)
            V = U - U.mean(axis=1, keepdims=True) if cen else U
            rec.state()
            if B.shape != (sh[0], min(sh)) or not np.allclose(
                    B.T.dot(B), np.eye(min(sh))) or not np.allclose(
                        V.dot(V.T).dot(B), B * S, atol=1e-7) or not \
                    np.allclose(B.dot(B.T.dot(V)), V) or \
                    np.any(np.diff(S) > 1e-9):
                rec.violate('not-the-solution', 'pca %s %s' % (sh, cen))
    if n <= 33:
        for (b0, b1), (c0, c1) in (((n, 2), (2, 1)), ((2, 2), (1, n)),
                                   ((2, n), (n, 2))):
            A = arr((b0 * c0, b1 * c1), 'real', 'k')
            T = A.reshape(b0, c0, b1, c1).transpose(0, 2, 1, 3).reshape(
                b0 * b1, c0 * c1)
            s = np.linalg.svd(T, compute_uv=False)
            B, C = la.nkp(A, (b0, b1), (c0, c1))
            rec.state()
            if abs(np.sum((A - np.kron(B, C)) ** 2) -
                   np.sum(s[1:] ** 2)) > 1e-8 * np.sum(s ** 2):
                rec.violate('not-the-solution', 'nkp %s' % (A.shape,))
            S, Bs, Cs = la.kpsvd(A, (b0, b1), (c0, c1))
            R = sum(S[i] * np.kron(Bs[..., i], Cs[..., i])
                    for i in range(len(S)))
            if np.max(np.abs(R - A)) > 1e-8:
                rec.violate('not-the-solution', 'kpsvd %s' % (A.shape,))
    rec.outcome(n)


# --------------------------------------------------------------------- C10
def c10(scn, rec, ns):
    import sporco.fft as sf
    if scn['n'] % 2 and scn['tier'] != 'quick':
        from mc import env
        sf = env.without('pyfftw', 'sporco.fft')
    n = scn['n']
    arr, judge, rdft = ns['arr'], ns['judge'], ns['rdft']
    for kind in ns['KINDS']:
        tol = ns['prec'](kind) * 100
        re = kind in ('real', 'single')
        for sh, ax in (((n,), None), ((n, 2), (0,)), ((n, 3), None),
                       ((3, n), None), ((2, n), (1, 0)), ((n, 2, 2), (0, 1)),
                       ((2, 2, n), (0, 1)), ((2, 2, n), (2,))):
            full = tuple(range(len(sh))) if ax is None else ax
            x = arr(sh, kind, 'L')
            base = [sh[a] for a in full]
            for s in (None, [b + 3 for b in base],
                      [max(1, b - 2) for b in base]):
                se = base if s is None else s
                a_ = full if s is not None else ax
                w = '%s %s s=%s axes=%s' % (sh, kind, s, a_)
                want = rdft(x, se, full, -1)
                judge(rec, 'fftn ' + w, lambda: sf.fftn(x, s, a_), want,
                      tol, (x,), True, ns['single'](x))
                judge(rec, 'ifftn ' + w, lambda: sf.ifftn(x, s, a_),
                      rdft(x, se, full, 1), tol, (x,), True)
                if re:
                    wr = np.take(want, range(want.shape[full[-1]] // 2 + 1),
                                 axis=full[-1])
                    r = judge(rec, 'rfftn ' + w, lambda: sf.rfftn(x, s, a_),
                              wr, tol, (x,), True, ns['single'](x))
                    if s is None and r is not None:
                        judge(rec, 'irfftn ' + w, lambda: sf.irfftn(
                            r, tuple(base), full), x, tol, (r,), False)
                        rs_ = np.asarray(np.sum(x.astype(float) ** 2))
                        judge(rec, 'rfl2norm2 ' + w, lambda: np.asarray(
                            sf.rfl2norm2(r, sh, full)) / rs_, rs_ / rs_,
                            1e-5)
            rs_ = np.asarray(np.sum(np.abs(x) ** 2))
            judge(rec, 'fl2norm2 %s' % (sh,), lambda: np.asarray(sf.fl2norm2(
                rdft(x, base, full, -1), full)) / rs_, rs_ / rs_, 1e-5)
            if re:
                y = x.astype(float)
                for a in full:
                    y = ns['dct1'](y, a)
                g = judge(rec, 'dctii %s %s' % (sh, ax), lambda: sf.dctii(
                    x, ax), y, tol, (x,), False)
                if g is not None:
                    judge(rec, 'idctii %s %s' % (sh, ax), lambda: sf.idctii(
                        g, ax), x, tol, (g,), False)
        for sa, sb, ax in (((n,), (3,), None), ((n,), (n,), None),
                           ((n, 2), (2, 1), (0, 1)), ((2, n), (2, 3), (1,)),
                           ((3,), (n,), None), ((2, 2, n), (2, 1, n),
                                                (0, 1))):
            a, b = arr(sa, kind, 'a'), arr(sb, kind, 'b')
            full = tuple(range(len(sa))) if ax is None else ax
            want = ns['rconv'](a, b, full)
            for og in (None, (1,) * len(full)):
                kw = {} if og is None else {'origin': og}
                judge(rec, 'fftconv %s %s %s' % (sa, sb, og), lambda:
                      sf.fftconv(a, b, ax, **kw), want if og is None else
                      np.roll(want, [-1] * len(full), axis=full), tol * 10,
                      (a, b))
        if len(rec.violations) > 3:
            return
    rec.outcome(n)


# --------------------------------------------------------------------- C11
def c11(scn, rec, ns):
    import sporco.array as sa
    n = scn['n']
    eq, num, at = ns['eq'], ns['num'], ns['at']
    for sh in ((n,), (n, 3), (3, n)):
        for lay in ('C', 'F', 'S'):
            x = num(sh, lay)
            for w in (2, 3, n // 2, n):
                ws = tuple(min(w, m) for m in sh)
                for wn in (None, tuple(m - a + 3 for m, a in zip(sh, ws))):
                    for mode in ('wrap', 'edge'):
                        c = wn or tuple(m - a + 1 for m, a in zip(sh, ws))
                        if int(np.prod(ws + c)) > 60000:
                            continue
                        I = np.indices(ws + c)
                        L = len(sh)
                        ix = [[ns['pidx'](i, m, mode) for i in range(
                            2 * m + 8)] for m in sh]
                        want = x[tuple(np.array(ix[k])[I[k] + I[k + L]]
                                       for k in range(L))]
                        eq(rec, 'rolling_window(%s, %s, %s, %s)' % (
                            sh, ws, wn, mode), lambda: sa.rolling_window(
                                x, ws, wn, pad=mode), want, (x,))
            for st in (1, 2, 5, n // 2, n - 1):
                s = tuple(min(st, m - 1) for m in sh)
                for pad in (False, True):
                    nb = tuple(-(-m // a) if pad else m // a
                               for m, a in zip(sh, s))
                    I = np.indices(s + nb)
                    L = len(sh)
                    ix = [[ns['pidx'](i, m, 'reflect') for i in range(
                        2 * m + 2)] for m in sh]
                    want = x[tuple(np.array(ix[k])[I[k] + s[k] * I[k + L]]
                                   for k in range(L))]
                    eq(rec, 'subsample_array(%s, %s, %s)' % (sh, s, pad),
                       lambda: sa.subsample_array(x, s, **(
                           {'pad': True} if pad else {})), want, (x,))
            for b, st in ((2, 1), (3, 2), (5, 5), (n // 2, 3), (n, 1)):
                bs = tuple(min(b, m) for m in sh)
                s = (st,) * len(sh)
                nm = tuple((m - q) // st + 1 for m, q in zip(sh, bs))
                if int(np.prod(bs + nm)) > 40000:
                    continue
                I = np.indices(bs + nm)
                L = len(sh)
                src = np.arange(x.size).reshape(sh)[tuple(
                    I[k] + st * I[k + L] for k in range(L))].reshape(
                        bs + (-1,))
                want = x.ravel()[src] if lay != 'F' else \
                    np.ascontiguousarray(x).ravel()[src]
                w = '(%s, %s, %s)' % (sh, bs, s)
                eq(rec, 'extract_blocks' + w, lambda: sa.extract_blocks(
                    x, bs, s), want, (x,))
                v = np.sin(np.arange(want.size) * 1.7).reshape(want.shape)
                cnt = np.bincount(src.ravel(), minlength=x.size)
                sm = np.bincount(src.ravel(), weights=v.ravel(),
                                 minlength=x.size)
                av = np.where(cnt > 0, sm / np.maximum(cnt, 1),
                              np.nan).reshape(sh)
                eq(rec, 'average_blocks' + w, lambda: sa.average_blocks(
                    v, sh, s), av, (v,))
                if want.size < 6000 and lay == 'C':
                    vals = [[] for _ in range(x.size)]
                    for q, p in zip(v.ravel(), src.ravel()):
                        vals[p].append(q)
                    eq(rec, 'combine_blocks' + w, lambda: sa.combine_blocks(
                        v, sh, s), np.array([
                            np.median(q) if q else np.nan
                            for q in vals]).reshape(sh), (v,))
            for ax in range(len(sh)):
                for pd in ((0, 3), (5, 0), (n, n)):
                    full = [(0, 0)] * len(sh)
                    full[ax] = pd
                    want = np.zeros(tuple(m + sum(p) for m, p in
                                          zip(sh, full)))
                    want[tuple(slice(p[0], p[0] + m) for m, p in
                               zip(sh, full))] = x
                    eq(rec, 'zpad(%s, %s)' % (sh, pd), lambda: sa.zpad(
                        x, pd, ax), want, (x,))
                g = sa.split(x, axis=ax)
                if len(g) != sh[ax] or any(not np.array_equal(
                        q, np.take(x, k, axis=ax)) for k, q in
                        enumerate(g)):
                    rec.violate('wrong-value', 'split(%s, %d)' % (sh, ax))
            if len(rec.violations) > 3:
                return
    for sc in SCALES + (1e-150, 1e150):
        x, y = data((n,)) * sc, data((n,), 3) * sc
        y[::3] = 0
        want = np.zeros(n)
        want[y != 0] = x[y != 0] / y[y != 0]
        eq(rec, 'zdivide n=%d scale %g' % (n, sc), lambda: sa.zdivide(x, y),
           want, (x, y))
        y[1::3] = 1e-12 * sc
        want[y != 0] = x[y != 0] / y[y != 0]
        eq(rec, 'zdivide n=%d scale %g' % (n, sc), lambda: sa.zdivide(x, y),
           want, (x, y))
    rec.outcome(n)


# --------------------------------------------------------------------- C12
def c12(scn, rec, ns):
    import sporco.cnvrep as cr
    n = scn['n']
    arr, rproj, cmp = ns['arr'], ns['rproj'], ns['cmp']
    sl = slice
    jobs = []
    # many filters, many signals, many channels, large filters
    jobs.append((((3, 2), 1, 1, n), (3, 2, n), [((3, 2), sl(None),
                                                sl(None))]))
    jobs.append((((3, 2), 1, 1, n + 1), ((3, 2, n), (2, 1, 1)),
                 [((3, 2), sl(None), sl(0, n)),
                  ((2, 1), sl(None), sl(n, n + 1))]))
    jobs.append((((3, 2), 1, n, 2), (3, 2, 2), [((3, 2), sl(None),
                                                sl(None))]))
    jobs.append((((3, 2), n, 1, 2), (3, 2, n, 2), [((3, 2), sl(None),
                                                   sl(None))]))
    jobs.append((((n, 2), 1, 1, 2), (n, 2, 2), [((n, 2), sl(None),
                                                sl(None))]))
    jobs.append((((2, n), 1, 1, 2), ((2, n, 1), (2, 3, 1)),
                 [((2, n), sl(None), sl(0, 1)), ((2, 3), sl(None),
                                                 sl(1, 2))]))
    if n <= 33:
        jobs.append((((4, 5), 1, 1, n), tuple((1 + k % 4, 1 + k % 5, 1)
                                             for k in range(n)),
                     [((1 + k % 4, 1 + k % 5), sl(None), sl(k, k + 1))
                      for k in range(n)]))
    for (mx, C, K, M), dsz, parts in jobs:
        parts = [(s, sl(0, C) if c == sl(None) else c,
                  sl(0, M) if m == sl(None) else m) for s, c, m in parts]
        for kind, sc in (('real', 1.0), ('real', 1e-6), ('real', 1e6),
                         ('complex', 1.0), ('single', 1.0),
                         ('single', 1e-6)):
            Nv = (mx[0] + 2, mx[1] + 1)
            x = arr(Nv + (C, K, M), kind, 'pcn')
            x *= sc
            if M > 2:
                x[..., M // 2] *= 0
            x0 = x.copy()
            for dimC, crp, zm in itertools.product((0, 1), (False, True),
                                                   (False, True)):
                want = rproj(x, parts, Nv, 2, dimC, crp, zm)
                tol = (1e-6 if kind == 'single' else 1e-14) * max(
                    10.0, ns['amplification'](x, parts, 2, dimC, zm)) * 10
                w = 'Pcn(%s scale %g, %s, dimC=%d, crp=%s, zm=%s)' % (
                    x.shape, sc, str(dsz)[:40], dimC, crp, zm)
                rec.state()
                rec.step()
                rec.trace()
                try:
                    g = cr.Pcn(x, dsz, Nv, 2, dimC, crp, zm)
                    h = cr.getPcn(dsz, Nv, 2, dimC, crp, zm)(x)
                except Exception as e:
                    rec.violate('exception', '%s: %s' % (w, e))
                    return
                if not cmp(rec, w, g, want, tol, x.dtype) or not cmp(
                        rec, 'get' + w, h, want, tol, x.dtype):
                    break
                if not np.array_equal(x, x0):
                    rec.violate('input-modified', w)
            if len(rec.violations) > 3:
                return
    # inferred roles and sizes
    for dimN, Cd, C, K, dimK in itertools.product((1, 2), (0, 2, n),
                                                  (0, 2, n), (0, 2, n),
                                                  (None, 0, 1)):
        ns['r_dims'](dict(dimN=dimN, Cd=Cd, C=C, K=K, dimK=dimK,
                          tier=scn['tier']), rec, cr)
        if len(rec.violations) > 3:
            return
    rec.outcome(n)


# --------------------------------------------------------------------- C23
def c23(scn, rec, ns):
    from sporco import signal as ss
    from sporco import interp
    n = scn['n']
    eq, arr, along, gmat = ns['eq'], ns['arr'], ns['along'], ns['gmat']
    for sh in ((n,), (n, 2), (2, n), (2, n, 3)):
        for ax in range(-1, len(sh)):
            for zp in (False, True):
                G = gmat(sh[ax], zp)
                st = list(sh)
                st[ax] = G.shape[0]
                for kind in ('real', 'complex', 'single'):
                    x, y = arr(sh, kind, 'x'), arr(tuple(st), kind, 'y')
                    t = 1e-4 if kind == 'single' else 1e-10
                    eq(rec, 'grad %s %d' % (sh, ax), lambda: ss.grad(
                        x, ax, zero_pad=zp), along(G, x, ax % len(sh)), t,
                        (x,))
                    eq(rec, 'gradT %s %d' % (sh, ax), lambda: ss.gradT(
                        y, ax, zero_pad=zp), along(G.T, y, ax % len(sh)), t,
                        (y,))
    for sh in ((n, 3), (3, n), (n,) + (n - 2,)):
        if sh[0] * sh[1] > 700:
            continue
        for lm, npd in ((0.5, 0), (5.0, 3), (100.0, 2), (1e4, 1)):
            if (sh[0] + 2 * npd) * (sh[1] + 2 * npd) > 1500:
                continue
            for ex in ((), (2,), (n,)):
                s = arr(sh + ex, 'real', 't')
                want = ns['tik'](s, lm, npd)
                eq(rec, 'tikhonov %s %g' % (s.shape, lm), lambda:
                   ss.tikhonov_filter(s, lm, npd)[0], want, 1e-7, (s,))
                eq(rec, 'tikhonov %s %g' % (s.shape, lm), lambda:
                   ss.tikhonov_filter(s, lm, npd)[1], s - want, 1e-7, (s,))
    for sh in ((n,), (n, 3), (2, n)):
        for sd in (0.1, 1.0, 30.0):
            eq(rec, 'gaussian %s %g' % (sh, sd), lambda: ss.gaussian(sh, sd),
               ns['gref'](sh, sd), 1e-11)
    for sh in ((n, 5), (6, n)):
        ns['r_lcn'](scn, rec, sh)
    if n >= 4:
        for sh in ((n, 5), (4, n)):
            if n <= 33:
                ns['r_demosaic'](scn, rec, sh)
    for sh in ((n, 2, 3), (2, n, 3), (2, 2, 3, n)):
        for dt, sc in (('float64', 1.0), ('float64', 1e6),
                       ('float32', 255.0)):
            x = (np.abs(data(sh)) * sc).astype(dt)
            W = np.array([0.299, 0.587, 0.114])
            want = np.tensordot(x.astype(float), W, (2, 0))
            eq(rec, 'rgb2gray %s %s' % (sh, dt), lambda: ss.rgb2gray(x) / sc,
               want / sc, 1e-5, (x,))
    # regressions: certificates of optimality by linear programming duality
    if n <= 33:
        from scipy.optimize import linprog
        for N in (1, 2, 4):
            for sc in (1e-2, 1.0, 1e2):
                A, b = arr((n, N), 'real', 'A'), arr((n,), 'real', 'b') * sc
                I = np.eye(n)
                o = np.ones((n, 1))
                v1 = linprog(np.r_[np.zeros(N), np.ones(n)], np.block(
                    [[A, -I], [-A, -I]]), np.r_[b, -b], bounds=[
                        (None, None)] * N + [(0, None)] * n).fun
                vi = linprog(np.r_[np.zeros(N), 1], np.block(
                    [[A, -o], [-A, -o]]), np.r_[b, -b], bounds=[
                        (None, None)] * N + [(0, None)]).fun
                for f, nrm, v in ((interp.lstabsdev, lambda r: np.sum(
                        np.abs(r)), v1), (interp.lstmaxdev, lambda r: np.max(
                            np.abs(r)), vi)):
                    rec.state()
                    rec.step()
                    x = f(A.copy(), b.copy())
                    if np.shape(x) != (N,) or \
                            nrm(A.dot(x) - b) > v + 1e-6 * sc * n:
                        rec.violate('not-optimal', '%s %s scale %g' % (
                            f.__name__, A.shape, sc))
    lk = ns['lk']
    for a in (5, 8, n if n < 40 else 8):
        xs = np.linspace(-a - 1, a + 1, 8 * n + 1)
        eq(rec, 'lanczos_kernel a=%d' % a, lambda: interp.lanczos_kernel(
            xs, a=a), np.array([lk(x, a) for x in xs]), 1e-10, (xs,))
        p = n if n < 140 else 140
        x = ns['points'](p)
        H = np.array([[lk(i + v, a) for v in x] for i in range(-a, a + 1)])
        eq(rec, 'lanczos_filters(%d, %d)' % (p, a), lambda:
           interp.lanczos_filters(p, a=a), H / H.sum(axis=0), 1e-10)
    # the rates of the random functions on a grid of the uniform source
    u = (np.arange(8 * n) + 0.5) / (8 * n)
    for frc in (0.125, 0.5, 0.75):
        for shape in ((8 * n,), (8, n), (n, 8)):
            s = (np.arange(8.0 * n) + 10).reshape(shape)
            rec.state(2)
            with ns['Source'](u) as src:
                y = ss.spnoise(s, frc, -1.0, 2.0)
            lo, hi, same = np.sum(y == -1), np.sum(y == 2), np.sum(y == s)
            k = int(round(8 * n * frc))
            if lo + hi + same != 8 * n or src.n == 8 * n and (
                    abs(lo + hi - k) > 1 or abs(lo - hi) > 1):
                rec.violate('rate', 'spnoise %s %g' % (shape, frc))
            with ns['Source'](u) as src:
                m = ss.rndmask(shape, frc)
            if np.sum(m == 0) + np.sum(m == 1) != 8 * n or \
                    src.n == 8 * n and abs(np.sum(m == 0) - k) > 1:
                rec.violate('rate', 'rndmask %s %g' % (shape, frc))
    rec.outcome(n)


# --------------------------------------------------------------------- C24
def c24(scn, rec, ns):
    from sporco import metric as sm
    n = scn['n']
    ask = ns['ask']
    for sh in ((n,), (n, 3), (2, n, 2)):
        for dt in ('uint8', 'int8', 'uint16', 'int16', 'int32', 'float32',
                   'float64', 'complex128'):
            for sc in (1.0,) if dt[-2:] not in ('64', '28') else SCALES:
                v = ns['VALS'][dt] if dt[0] in 'ui' else None
                if v is not None:
                    x = np.array([v[(7 * i + i // 3) % len(v)] for i in
                                  range(int(np.prod(sh)))], dt).reshape(sh)
                    y = np.array([v[(3 * i + i // 5 + 1) % len(v)] for i in
                                  range(int(np.prod(sh)))], dt).reshape(sh)
                else:
                    x = (data(sh) * sc).astype(dt)
                    y = (data(sh, 2) * sc).astype(dt)
                    if dt == 'complex128':
                        x, y = x + 1j * data(sh, 3) * sc, y * (1 + 2j)
                a, b = ns['lists'](x), ns['lists'](y)
                w = '(%s %s scale %g)' % (sh, dt, sc)
                t = ns['tol'](x, y)
                mse = ns['e_mse'](a, b)

                def rel(nm, f, want):
                    ask(rec, nm + w, lambda: f() / want, 1.0, (x, y), t)
                rel('mae', lambda: sm.mae(x, y), ns['e_mae'](a, b))
                rel('mse', lambda: sm.mse(x, y), mse)
                ask(rec, 'snr' + w, lambda: sm.snr(x, y),
                    ns['db'](ns['e_var'](a), mse), (x, y), t)
                if dt != 'complex128':
                    r = max(a) - min(a)
                    ask(rec, 'psnr' + w, lambda: sm.psnr(x, y, float(r)),
                        ns['db'](float(r) ** 2, mse), (x, y), t)
        if len(rec.violations) > 3:
            return
    for sh in ((n, 3), (4, n), (n, n - 1)):
        if sh[0] * sh[1] > 20000:
            continue
        for dt, sc in (('float64', 1.0), ('float64', 1e-3),
                       ('float64', 1e3), ('uint8', 1.0), ('float32', 50.0)):
            if dt == 'uint8':
                x = (np.abs(data(sh)) * 150).astype(dt)
                y = (np.abs(data(sh, 4)) * 150).astype(dt)
            else:
                x = ((np.abs(data(sh)) + 0.1) * sc).astype(dt)
                y = ((np.abs(data(sh, 4)) + 0.1) * sc).astype(dt)
            X, Y = x.astype(float), y.astype(float)
            t = 1e-3 if dt == 'float32' else 1e-8
            for resc in (True, False):
                s = 255.0 / X.max() if resc else 1.0
                w = '(%s %s scale %g rescale=%s)' % (sh, dt, sc, resc)
                ask(rec, 'pamse' + w, lambda: sm.pamse(x, y, rescale=resc),
                    ns['e_pamse'](s * X, s * Y), (x, y), t)
                q = ns['e_gmsd'](s * X, s * Y)
                ask(rec, 'gmsd' + w, lambda: sm.gmsd(x, y, rescale=resc),
                    q[0], (x, y), max(t, 1e-6))
                r = sm.gmsd(x, y, rescale=resc, returnMap=True)
                if np.shape(r[1]) != q[1].shape or np.max(np.abs(
                        r[1] - q[1])) > max(t, 1e-8):
                    rec.violate('wrong-map', 'gmsd' + w)
    rec.outcome(n)


# --------------------------------------------------------------------- C28
def c28(scn, rec, ns):
    from sporco import util
    n = scn['n']
    for (a, b), C, N in (((3, 2), 0, n), ((2, 3), 3, n), ((n, 2), 0, 5),
                         ((3, n), 0, 7), ((2, 2), 1, n)):
        for sc in SCALES:
            D = data((a, b) + ((C,) if C else ()) + (N,), n) * sc
            cs = (a, b) + ((C,) if C else ())
            k = N // 3
            spec = ((2, 2) + ((C,) if C else ()) + (k,), (a, b) + (
                (C,) if C else ()) + (N - k,))
            for X, sp, sz in ((D, None, [(a, b)] * N),
                              (D.reshape(-1, N), cs, [(a, b)] * N),
                              (D, spec, [(2, 2)] * k + [(a, b)] * (N - k))):
                w = 'tiledict(%s, %s) scale %g' % (X.shape, sp, sc)
                keep = X.copy()
                rec.state()
                rec.step()
                rec.trace()
                try:
                    im = util.tiledict(X) if sp is None else \
                        util.tiledict(X, sp)
                except Exception as e:
                    rec.violate('exception', '%s: %s' % (w, e))
                    continue
                want = ns['tiled'](D, sz)
                if im.shape != want.shape or np.max(np.abs(
                        im - want)) > 1e-9:
                    rec.violate('wrong-image', w)
                if not np.array_equal(X, keep):
                    rec.violate('input-modified', w)
            if len(rec.violations) > 3:
                return
    rec.outcome(n)


TOP = {'C12': {'quick': 65, 'thorough': 130},
       'C28': {'quick': 130, 'thorough': 300},
       'C11': {'quick': 130, 'thorough': 300},
       'C23': {'quick': 130, 'thorough': 300}}


def attach(ns):
    """add the enlarged instances to the check whose dictionary is ns"""
    prop, scn0, run0 = ns['PROPERTY'], ns['scenarios'], ns['run']
    fn = globals()[prop.lower()]

    def top(tier):
        return TOP.get(prop, {}).get(tier, 10 ** 9)
    for t in ns['BOUNDS']:
        ns['BOUNDS'][t] += BOUND % max(sizes(t, top(t)))

    def scenarios_(tier):
        return list(scn0(tier)) + [
            {'key': 'large/%d' % n, 'large': 1, 'n': n, 'tier': tier}
            for n in sizes(tier, top(tier))]

    def run_(scn, rec):
        return fn(scn, rec, ns) if 'large' in scn else run0(scn, rec)
    ns['scenarios'], ns['run'] = scenarios_, run_
