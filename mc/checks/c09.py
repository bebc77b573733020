"""C09: structured linear solvers return the exact solution."""
import itertools
import zlib
import numpy as np
from mc import hist, large
from mc import env

PROPERTY = 'C09'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 900
BOUNDS = {
    'quick': 'all array shapes with axis lengths 1..3 (broadcast and '
             'non-broadcast), all solution axes, 3 parameters, real, complex '
             'and single precision data, every coefficient vector over a '
             'lattice with zeros for up to 3 unknowns, every matrix over '
             '{-1,0,2} of at most 4 entries plus all shapes up to 4x4, '
             'one axis up to 9 long (each in turn)',
    'thorough': 'axis lengths 1..4, every matrix over {-1,0,1,2} of at most '
                '6 entries, one axis up to 14 long'}

RHO = [0.1, 1.0, 25.0]
LAT = [0.0, 1.0, -2.0, 1.0 + 2.0j, -1.0j]
LATR = [0.0, 1.0, -2.0, 0.5]


def rs(*a):
    return np.random.RandomState(zlib.crc32(repr(a).encode()) & 0x7fffffff)


def arr(shape, kind, *key):
    r = rs(shape, kind, *key)
    v = r.randn(*shape)
    if kind in ('complex', 'csingle'):
        v = v + 1j * r.randn(*shape)
    if kind == 'single':
        v = v.astype(np.float32)
    if kind == 'csingle':
        v = v.astype(np.complex64)
    return v


def bad(got, want, tol):
    got = np.asarray(got)
    if got.shape != want.shape:
        return 'shape %s instead of %s' % (got.shape, want.shape)
    if not np.all(np.isfinite(got)):
        return 'non-finite result'
    if np.iscomplexobj(want) and not np.iscomplexobj(got) and \
            np.any(np.abs(want.imag) > 0):
        return 'imaginary part lost'
    e = np.max(np.abs(got - want)) if want.size else 0.0
    m = 1.0 + (np.max(np.abs(want)) if want.size else 0.0)
    if e > tol * m:
        return 'error %.3e (scale %.3e)' % (e, m)


def tolof(kind):
    return 2e-3 if kind in ('single', 'csingle') else 1e-9


def scenarios(tier):
    out = []

    def add(**k):
        k['tier'] = tier
        k['key'] = '/'.join(str(k[x]) for x in sorted(k)
                            if x not in ('tier',))
        out.append(k)
    kinds = ['real', 'complex', 'single', 'csingle']
    for var in ('expr', 'noexpr'):
        for kind in kinds:
            for nd in (1, 2, 3, 5):
                add(fn='sm', var=var, kind=kind, nd=nd)
        for kind in ('real', 'complex'):
            for n in (1, 2, 3):
                add(fn='smlat', var=var, kind=kind, n=n)
    for kind in kinds:
        for dimN in (1, 2):
            for c in ('bb', 'cb', 'cc'):
                add(fn='mdbi', kind=kind, dimN=dimN, c=c)
        add(fn='long', kind=kind)
    for kind in ('real', 'complex'):
        for K in (1, 2, 3):
            add(fn='mdbilat', kind=kind, K=K)
    for sh in itertools.product(range(1, 5), range(1, 5)):
        add(fn='fact', shape=list(sh))
    mx = 4 if tier == 'quick' else 6
    for sh in itertools.product(range(1, 4), range(1, 4)):
        if sh[0] * sh[1] <= mx:
            add(fn='factlat', shape=list(sh))
    for sh in itertools.product(range(1, 4), range(1, 4)):
        add(fn='sylv', shape=list(sh))
    for fn in ('inner', 'dot', 'circ', 'pca', 'nkp', 'rrs', 'l2ball'):
        add(fn=fn)
    return out


def run(scn, rec):
    import sporco.linalg as la
    if scn.get('var') == 'noexpr':
        la = env.without('numexpr', 'sporco.linalg')
    globals()['r_' + scn['fn']](scn, rec, la)


def call(rec, scn, what, f, want, tol, inputs=()):
    keep = [np.array(x, copy=True) for x in inputs]
    rec.trace()
    rec.step()
    rec.state()
    try:
        got = f()
    except Exception as e:
        rec.violate('exception', '%s: %s: %s' % (what, type(e).__name__, e))
        return None
    m = bad(got, want, tol)
    if m:
        rec.violate('not-the-solution', '%s: %s' % (what, m))
    for i, (x, y) in enumerate(zip(inputs, keep)):
        if not np.array_equal(x, y):
            rec.violate('input-modified', '%s: argument %d' % (what, i))
    rec.outcome(np.asarray(got))
    return got


def dense_sm(ah, d, b, ax):
    """solve (diag(d) + a a^H) x = b by dense systems"""
    n = b.shape[ax]
    full = np.broadcast_shapes(ah.shape, b.shape)
    d = np.broadcast_to(d, full)
    A = np.moveaxis(np.broadcast_to(ah, full), ax, -1).reshape(-1, n)
    B = np.moveaxis(np.broadcast_to(b, full), ax, -1)
    sh = B.shape
    B = B.reshape(-1, n)
    D = np.moveaxis(d, ax, -1).reshape(-1, n)
    out = np.zeros(B.shape, np.result_type(A, B, D, np.float64))
    for i in range(B.shape[0]):
        M = np.outer(np.conj(A[i]), A[i]) + np.diag(D[i])
        out[i] = np.linalg.solve(M, B[i])
    return np.moveaxis(out.reshape(sh), -1, ax)


def r_sm(scn, rec, la):
    kind, nd = scn['kind'], scn['nd']
    mx = 3 if scn['tier'] == 'quick' else 4
    if nd <= 3:
        shapes = list(itertools.product(range(1, mx + 1), repeat=nd))
    else:
        shapes = [(2, 1, 1, 1, 3), (2, 3, 1, 1, 2), (2, 2, 3, 1, 2),
                  (2, 2, 1, 3, 2), (2, 1, 3, 2, 2), (1, 2, 2, 2, 1)]
    tol = tolof(kind)
    for sh in shapes:
        for ax in range(nd):
            # ah may be constant along any one other axis, and b too
            brd = [None] + [a for a in range(nd)
                            if a != ax and sh[a] > 1]
            for ba, bb in itertools.product(brd, brd):
                if bb is not None and bb == ba:
                    continue
                sa, sb = list(sh), list(sh)
                if ba is not None:
                    sa[ba] = 1
                if bb is not None:
                    sb[bb] = 1
                ah = arr(tuple(sa), kind, 'ah')
                b = arr(tuple(sb), kind, 'b')
                for rho in RHO:
                    w = 'solvedbi_sm(%s ah%s b%s rho=%s axis=%d)' % (
                        kind, tuple(sa), tuple(sb), rho, ax)
                    want = dense_sm(ah, rho, b, ax)
                    axs = [ax, ax - nd] if nd < 5 else [ax]
                    for x in axs:
                        call(rec, scn, w, lambda: la.solvedbi_sm(
                            ah, rho, b, axis=x), want, tol, (ah, b))
                        c = la.solvedbi_sm_c(ah, np.conj(ah), rho, axis=x)
                        g = call(rec, scn, w + ' cached', lambda:
                                 la.solvedbi_sm(ah, rho, b, c, axis=x),
                                 want, tol, (ah, b, c))
                        if nd == 5 and ax == 4:
                            call(rec, scn, w + ' default', lambda:
                                 la.solvedbi_sm(ah, rho, b), want, tol)
                    # diagonal term: full size, or constant along an axis
                    for dd in ['full'] + list(range(nd)):
                        sd = list(sh)
                        if dd != 'full':
                            if sh[dd] == 1:
                                continue
                            sd[dd] = 1
                        d = (np.abs(arr(tuple(sd), 'real', 'd')) +
                             0.3) * rho
                        if kind in ('single', 'csingle'):
                            d = d.astype(np.float32)
                        want2 = dense_sm(ah, d, b, ax)
                        w2 = 'solvedbd_sm(%s ah%s d%s b%s axis=%d)' % (
                            kind, tuple(sa), tuple(sd), tuple(sb), ax)
                        call(rec, scn, w2, lambda: la.solvedbd_sm(
                            ah, d, b, axis=ax), want2, tol, (ah, d, b))
                        c = la.solvedbd_sm_c(ah, np.conj(ah), d, axis=ax)
                        call(rec, scn, w2 + ' cached', lambda:
                             la.solvedbd_sm(ah, d, b, c, axis=ax), want2,
                             tol, (ah, d, b, c))
                    if rec.violations:
                        return
    rec.sample = {'shapes': len(shapes)}


def r_smlat(scn, rec, la):
    n = scn['n']
    lat = LAT if scn['kind'] == 'complex' else LATR
    V = np.array(list(itertools.product(lat, repeat=n)))
    if n == 3:
        B = V[::max(1, len(V) // 16)]
    else:
        B = V
    # all pairs of coefficient vector and right hand side at once
    ah = V[:, None, :]
    b = B[None, :, :]
    for rho in RHO:
        want = dense_sm(ah, rho, b, 2)
        call(rec, scn, 'solvedbi_sm lattice n=%d rho=%s' % (n, rho),
             lambda: la.solvedbi_sm(ah, rho, b, axis=2), want, 1e-9)
        d = np.array([rho, 2 * rho, rho + 1])[:n]
        want = dense_sm(ah, d, b, 2)
        call(rec, scn, 'solvedbd_sm lattice n=%d' % n,
             lambda: la.solvedbd_sm(ah, d[None, None], b, axis=2), want, 1e-9)
        rec.state(len(V) * len(B))


def dense_md(ah, rho, b, axisM, axisK):
    full = list(np.broadcast_shapes(
        tuple(1 if i == axisK else n for i, n in enumerate(ah.shape)),
        b.shape))
    fa = list(full)
    fa[axisK] = ah.shape[axisK]
    A = np.moveaxis(np.broadcast_to(ah, fa), (axisK, axisM), (-2, -1))
    B = np.moveaxis(np.broadcast_to(b, full), (axisK, axisM), (-2, -1))
    sh = B.shape
    M = b.shape[axisM]
    A = A.reshape(-1, ah.shape[axisK], M)
    B = B.reshape(-1, M)
    out = np.zeros(B.shape, np.result_type(A, B, np.float64))
    for i in range(B.shape[0]):
        T = rho * np.eye(M, dtype=out.dtype)
        for k in range(A.shape[1]):
            T = T + np.outer(np.conj(A[i, k]), A[i, k])
        out[i] = np.linalg.solve(T, B[i])
    return np.moveaxis(out.reshape(sh), (-2, -1), (axisK, axisM))


def r_mdbi(scn, rec, la):
    kind, dimN, cc = scn['kind'], scn['dimN'], scn['c']
    mx = 3 if scn['tier'] == 'quick' else 4
    tol = tolof(kind)
    for N in itertools.product((1, 2), repeat=dimN):
        for C, K, M in itertools.product((1, 3), range(1, mx + 1),
                                         range(1, mx + 1)):
            Ca = C if cc == 'cc' else 1
            Cb = 1 if cc == 'bb' else C
            ah = arr(N + (Ca, K, M), kind, 'ah')
            b = arr(N + (Cb, 1, M), kind, 'b')
            x0 = arr(N + (Cb, 1, M), kind, 'x0')
            aK, aM = dimN + 1, dimN + 2
            for rho in RHO:
                want = dense_md(ah, rho, b, aM, aK)
                w = '(%s ah%s b%s rho=%s)' % (kind, ah.shape, b.shape, rho)
                for s in (0, -1):
                    am, ak = aM + s * ah.ndim, aK + s * ah.ndim
                    call(rec, scn, 'solvemdbi_ism' + w, lambda:
                         la.solvemdbi_ism(ah, rho, b, am, ak), want, tol,
                         (ah, b))
                call(rec, scn, 'solvemdbi_rsm' + w, lambda:
                     la.solvemdbi_rsm(ah, rho, b, aK, dimN), want, tol,
                     (ah, b))
                ct = 1e-12 if tol < 1e-6 else 1e-6
                for isn in (None, x0, x0.copy(order='F')):
                    call(rec, scn, 'solvemdbi_cg' + w, lambda:
                         la.solvemdbi_cg(ah, rho, b, aM, aK, ct, 2000,
                                         isn)[0], want, max(tol, 1e-7),
                         (ah, b))
                if rec.violations:
                    return
            # transposed layout: M axis before K axis
            ah2, b2 = np.swapaxes(ah, aK, aM), np.swapaxes(b, aK, aM)
            want = dense_md(ah2, 0.7, b2, aK, aM)
            call(rec, scn, 'solvemdbi_ism M before K %s' % (ah2.shape,),
                 lambda: la.solvemdbi_ism(ah2, 0.7, b2, aK, aM), want, tol)
            call(rec, scn, 'solvemdbi_cg M before K %s' % (ah2.shape,),
                 lambda: la.solvemdbi_cg(
                     ah2, 0.7, b2, aK, aM,
                     1e-12 if tol < 1e-6 else 1e-6)[0], want,
                 max(tol, 1e-7))


def r_long(scn, rec, la):
    """one axis much longer than the others, each in turn"""
    kind = scn['kind']
    tol = tolof(kind) * 10
    top = 9 if scn['tier'] == 'quick' else 14
    ct = 1e-12 if tol < 1e-6 else 1e-6
    for n in range(4, top + 1):
        for C, K, M in ((1, n, 1), (1, n, 2), (2, n, n), (1, 2, n),
                        (n, 2, 2), (1, n, n + 3)):
            for N in ((2,), (1, n)):
                ah = arr(N + (C, K, M), kind, 'ah')
                b = arr(N + (C, 1, M), kind, 'b')
                aK, aM = len(N) + 1, len(N) + 2
                for rho in RHO[1:]:
                    want = dense_md(ah, rho, b, aM, aK)
                    w = '(%s ah%s rho=%s)' % (kind, ah.shape, rho)
                    call(rec, scn, 'solvemdbi_ism' + w, lambda:
                         la.solvemdbi_ism(ah, rho, b, aM, aK), want, tol,
                         (ah, b))
                    call(rec, scn, 'solvemdbi_rsm' + w, lambda:
                         la.solvemdbi_rsm(ah, rho, b, aK, len(N)), want, tol,
                         (ah, b))
                    call(rec, scn, 'solvemdbi_cg' + w, lambda:
                         la.solvemdbi_cg(ah, rho, b, aM, aK, ct, 2000)[0],
                         want, max(tol, 1e-6), (ah, b))
                    a0 = ah[..., 0:1, :]
                    want = dense_sm(a0, rho, b, aM)
                    call(rec, scn, 'solvedbi_sm' + w, lambda:
                         la.solvedbi_sm(a0, rho, b, axis=aM), want, tol,
                         (a0, b))
                if rec.violations:
                    return
        if kind == 'real':
            for sh in ((n, 2), (2, n), (n, n), (n, n + 1)):
                fact(rec, scn, la, arr(sh, 'real', 'A'), ('f',))


def r_mdbilat(scn, rec, la):
    K = scn['K']
    lat = [0.0, 1.0, -2.0 + 1.0j] if scn['kind'] == 'complex' else \
        [0.0, 1.0, -2.0]
    V = np.array(list(itertools.product(lat, repeat=2 * K)))
    ah = V.reshape(-1, 1, 1, K, 2)
    B = np.array(list(itertools.product(lat, repeat=2)))
    b = B.reshape(1, len(B), 1, 1, 2)
    ah = np.broadcast_to(ah, (len(V), len(B), 1, K, 2)).copy()
    b = np.broadcast_to(b, (len(V), len(B), 1, 1, 2)).copy()
    for rho in RHO:
        want = dense_md(ah, rho, b, 4, 3)
        call(rec, scn, 'solvemdbi_ism lattice K=%d' % K,
             lambda: la.solvemdbi_ism(ah, rho, b, 4, 3), want, 1e-8)
        call(rec, scn, 'solvemdbi_rsm lattice K=%d' % K,
             lambda: la.solvemdbi_rsm(ah, rho, b, 3), want, 1e-8)
        rec.state(len(V) * len(B))


def fact(rec, scn, la, A, kinds=('f', 's')):
    N, M = A.shape
    for kind in kinds:
        A_ = A if kind == 'f' else A.astype(np.float32)
        tol = 1e-8 if kind == 'f' else 5e-3
        for rho in RHO:
            GA = A.T.dot(A) + rho * np.eye(M)
            GB = A.dot(A.T) + rho * np.eye(N)
            rhs = [rs('v', M, N).randn(M)] + [
                rs('m', M, N, k).randn(M, k) for k in (1, 2, 3)]
            rht = [rs('v2', M, N).randn(N)] + [
                rs('m2', M, N, k).randn(k, N) for k in (1, 2, 3)]
            lu, piv = la.lu_factor(A_, rho)
            for b in rhs:
                b_ = b.astype(A_.dtype)
                want = np.linalg.solve(GA, b)
                call(rec, scn, 'lu_solve_ATAI A%s b%s rho=%s' % (
                    A.shape, b.shape, rho), lambda: la.lu_solve_ATAI(
                        A_, rho, b_, lu, piv), want, tol,
                     (A_, b_, lu, piv))
            for b in rht:
                b_ = b.astype(A_.dtype)
                want = np.linalg.solve(GB, b.T).T
                call(rec, scn, 'lu_solve_AATI A%s b%s rho=%s' % (
                    A.shape, b.shape, rho), lambda: la.lu_solve_AATI(
                        A_, rho, b_, lu, piv), want, tol,
                     (A_, b_, lu, piv))
            for lower in (False, True):
                c, lwr = la.cho_factor(A_, rho, lower=lower)
                for b in rhs:
                    b_ = b.astype(A_.dtype)
                    want = np.linalg.solve(GA, b)
                    call(rec, scn, 'cho_solve_ATAI A%s b%s lower=%s' % (
                        A.shape, b.shape, lower), lambda: la.cho_solve_ATAI(
                            A_, rho, b_, c, lwr), want, tol, (A_, b_, c))
                for b in rht:
                    b_ = b.astype(A_.dtype)
                    want = np.linalg.solve(GB, b.T).T
                    call(rec, scn, 'cho_solve_AATI A%s b%s lower=%s' % (
                        A.shape, b.shape, lower), lambda: la.cho_solve_AATI(
                            A_, rho, b_, c, lwr), want, tol, (A_, b_, c))
        if rec.violations:
            return


def r_fact(scn, rec, la):
    fact(rec, scn, la, rs('A', tuple(scn['shape'])).randn(*scn['shape']))
    # defaults and Fortran order
    fact(rec, scn, la, np.asfortranarray(
        rs('F', tuple(scn['shape'])).randn(*scn['shape'])), ('f',))


def r_factlat(scn, rec, la):
    sh = tuple(scn['shape'])
    lat = [-1.0, 0.0, 2.0] if scn['tier'] == 'quick' else \
        [-1.0, 0.0, 2.0, 1.0]
    for v in itertools.product(lat, repeat=sh[0] * sh[1]):
        fact(rec, scn, la, np.array(v).reshape(sh), ('f',))
        if rec.violations:
            return


def r_sylv(scn, rec, la):
    n, m = scn['shape']

    def syms(k, tag):
        out = []
        for v in itertools.product([-1.0, 0.0, 2.0], repeat=min(
                k * (k + 1) // 2, 3)):
            v = list(v) + [0.5, 1.5, -0.5][:k * (k + 1) // 2 - len(v)]
            S = np.zeros((k, k))
            S[np.triu_indices(k)] = v
            S = S + np.triu(S, 1).T
            out.append(('full', S, S))
            ev = np.linalg.eigh(S)
            out.append(('eig', S, (ev[0], ev[1])))
        for v in itertools.product([-1.0, 0.0, 2.0], repeat=k):
            out.append(('diag', np.diag(v), np.array(v)))
            out.append(('diag2', np.diag(v), np.array(v).reshape(
                (-1, 1) if tag == 'A' else (1, -1))))
        return out
    C = rs('C', n, m).randn(n, m)
    for (ka, A, a), (kb, B, b) in itertools.product(syms(n, 'A'),
                                                    syms(m, 'B')):
        # alpha such that the equation has a unique solution
        ev = np.outer(np.linalg.eigvalsh(A), np.linalg.eigvalsh(B))
        alpha = 1.0
        if np.min(np.abs(ev + alpha)) < 0.05:
            alpha = float(np.max(np.abs(ev)) + 0.5)
        K = np.kron(A, B.T) + alpha * np.eye(n * m)
        want = np.linalg.solve(K, C.ravel()).reshape(n, m)
        for Cx in (C, np.asfortranarray(C)):
            call(rec, scn, 'solve_symmetric_sylvester A %s %s B %s %s '
                 'alpha=%g' % (ka, A.tolist(), kb, B.tolist(), alpha),
                 lambda: la.solve_symmetric_sylvester(a, b, Cx, alpha),
                 want, 1e-8, (Cx,))
        if len(rec.violations) > 3:
            return


def r_inner(scn, rec, la):
    for nd in (1, 2, 3, 4):
        for sh in itertools.product((1, 2, 3), repeat=nd):
            for ax in range(-nd, nd):
                for kind in ('real', 'complex'):
                    x = arr(sh, kind, 'x')
                    for red in [None] + list(range(nd)):
                        sy = list(sh)
                        if red is not None:
                            if red == ax % nd or sh[red] == 1:
                                continue
                            sy[red] = 1
                        y = arr(tuple(sy), kind, 'y')
                        want = np.sum(x * y, axis=ax, keepdims=True)
                        call(rec, scn, 'inner(%s, %s, axis=%d)' % (
                            sh, tuple(sy), ax), lambda: la.inner(
                                x, y, axis=ax), want, 1e-10, (x, y))
                    if ax == -1:
                        call(rec, scn, 'inner default axis', lambda:
                             la.inner(x, x), np.sum(x * x, -1,
                                                    keepdims=True), 1e-10)


def r_dot(scn, rec, la):
    for nd in (2, 3, 4):
        for sh in itertools.product((1, 2, 3), repeat=nd):
            for ax in list(range(nd)) + list(range(-nd, 0)):
                for m0 in (1, 2, 4):
                    a = arr((m0, sh[ax]), 'real', 'a')
                    b = arr(sh, 'complex', 'b')
                    want = np.moveaxis(np.tensordot(a, b, (1, ax)), 0, ax)
                    call(rec, scn, 'dot(%s, %s, axis=%d)' % (
                        a.shape, sh, ax), lambda: la.dot(a, b, axis=ax),
                         want, 1e-10, (a, b))


def r_circ(scn, rec, la):
    for k, r, c in itertools.product((1, 2, 3, 4), (1, 2, 3), (1, 2, 3)):
        A = tuple(arr((r, c), 'real', i) for i in range(k))
        want = np.zeros((k * r, k * c))
        for i in range(k):
            for j in range(k):
                want[i*r:(i + 1)*r, j*c:(j + 1)*c] = A[(i - j) % k]
        call(rec, scn, 'block_circulant(%d blocks %dx%d)' % (k, r, c),
             lambda: la.block_circulant(A), want, 1e-12)


def r_pca(scn, rec, la):
    for n, m in itertools.product((1, 2, 3, 4), (1, 2, 3, 5)):
        for cen in (False, True):
            U = arr((n, m), 'real', 'pca')
            rec.trace()
            rec.state()
            keep = U.copy()
            B, S, C = la.pca(U, centre=cen)
            V = U - U.mean(axis=1, keepdims=True) if cen else U
            k = min(n, m)
            w = 'pca(%dx%d, centre=%s)' % (n, m, cen)
            if not np.array_equal(U, keep):
                rec.violate('input-modified', w)
            if (C is None) == cen or (cen and not np.allclose(
                    C.ravel(), U.mean(axis=1))):
                rec.violate('not-the-solution', w + ' mean')
            if B.shape != (n, k) or not np.allclose(B.T.dot(B), np.eye(k)):
                rec.violate('not-the-solution', w + ' basis')
            elif not np.allclose(V.dot(V.T).dot(B), B * S, atol=1e-8):
                rec.violate('not-the-solution', w + ' eigenvalues')
            elif not np.allclose(B.dot(B.T.dot(V)), V):
                rec.violate('not-the-solution', w + ' synthesis')
            if np.any(np.diff(S) > 1e-12):
                rec.violate('not-the-solution', w + ' order')
            rec.outcome(S)


def r_nkp(scn, rec, la):
    # subsample_array rejects blocks as large as the array
    for b0, b1, c0, c1 in itertools.product((2, 3), (2, 3), (1, 2, 3),
                                            (1, 2, 3)):
        for kind in ('rand', 'kron'):
            A = arr((b0 * c0, b1 * c1), 'real', kind)
            if kind == 'kron':
                A = np.kron(arr((b0, b1), 'real', 1), arr((c0, c1), 'real',
                                                          2))
            # independent rearrangement
            T = np.zeros((b0 * b1, c0 * c1))
            for i, j, k, l in itertools.product(range(b0), range(b1),
                                                range(c0), range(c1)):
                T[i * b1 + j, k * c1 + l] = A[i * c0 + k, j * c1 + l]
            s = np.linalg.svd(T, compute_uv=False)
            w = 'A%s B%s C%s %s' % (A.shape, (b0, b1), (c0, c1), kind)
            rec.trace()
            rec.state()
            B, C = la.nkp(A, (b0, b1), (c0, c1))
            if B.shape != (b0, b1) or C.shape != (c0, c1):
                rec.violate('not-the-solution', 'nkp shape ' + w)
                continue
            e = np.sum((A - np.kron(B, C))**2)
            if abs(e - np.sum(s[1:]**2)) > 1e-8 * (1 + np.sum(s**2)):
                rec.violate('not-the-solution', 'nkp %s error %g best %g' % (
                    w, e, np.sum(s[1:]**2)))
            S, Bs, Cs = la.kpsvd(A, (b0, b1), (c0, c1))
            for n in range(len(S) + 1):
                R = A - sum((S[i] * np.kron(Bs[..., i], Cs[..., i])
                             for i in range(n)), np.zeros(A.shape))
                if abs(np.sum(R**2) - np.sum(s[n:]**2)) > \
                        1e-8 * (1 + np.sum(s**2)):
                    rec.violate('not-the-solution', 'kpsvd %s %d terms' % (
                        w, n))
                rec.state()
            rec.outcome(S)
            for bs, cs in (((b0 + 1, b1), (c0, c1)), ((b0, b1),
                                                      (c0, c1 + 1))):
                for f in (la.nkp, la.kpsvd):
                    try:
                        f(A, bs, cs)
                    except ValueError:
                        pass
                    else:
                        rec.violate('no-error', 'incompatible shapes ' + w)


def r_rrs(scn, rec, la):
    for n in (1, 2, 3):
        for x in itertools.product([0.0, 1.0, -2.0], repeat=n):
            for y in itertools.product([0.0, 1.0, -2.0], repeat=n):
                a, b = np.array(x), np.array(y)
                m = max(np.sqrt(np.sum(a**2)), np.sqrt(np.sum(b**2)))
                want = 0.0 if m == 0 else np.sqrt(np.sum((a - b)**2)) / m
                call(rec, scn, 'rrs(%s, %s)' % (x, y),
                     lambda: la.rrs(a, b), np.asarray(want), 1e-12)


def r_l2ball(scn, rec, la):
    for sh in ((1,), (3,), (2, 2), (2, 3)):
        for axes in [None] + [(i,) for i in range(len(sh))] + (
                [(0, 1)] if len(sh) == 2 else []):
            for v in itertools.product([0.0, 1.0, -2.0],
                                       repeat=min(4, int(np.prod(sh)))):
                b = np.resize(np.array(v), sh).astype(float)
                for s in (np.zeros(sh), np.full(sh, 0.5)):
                    for r in (0.0, 0.5, 3.0):
                        d = np.sqrt(np.sum((b - s)**2, axis=axes,
                                           keepdims=True))
                        want = np.where(
                            d <= r, b, s + (b - s) * r / np.where(
                                d > 0, d, 1))
                        call(rec, scn, 'proj_l2ball %s axes=%s r=%s' % (
                            sh, axes, r), lambda: la.proj_l2ball(
                                b, s, r, axes), want, 1e-10)


hist.attach(globals())
large.attach(globals())
