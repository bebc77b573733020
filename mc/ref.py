"""Dense reference models of the optimisation problems and algorithms.

Nothing here uses sporco: operators are written as explicit shifts/sums, linear
systems are solved with dense matrices, proximal maps are written from their
definitions.  The models are the transition relations that implementation
traces are checked against.
"""
import itertools
import numpy as np


# ------------------------------------------------------------- operators
def mat(op, shape, cplx=False):
    """Dense matrix of the linear operator `op` acting on arrays `shape`."""
    n = int(np.prod(shape))
    cols = []
    for i in range(n):
        e = np.zeros(n, dtype=complex if cplx else float)
        e[i] = 1.0
        cols.append(np.asarray(op(e.reshape(shape))).ravel())
    return np.array(cols).T


def shift(x, j, axes):
    for ax, k in zip(axes, j):
        if k:
            x = np.roll(x, k, axis=ax)
    return x


def cconv(D, X, dimN):
    """Circular convolution over the leading dimN axes; D has (small) spatial
    support, the other axes broadcast."""
    axes = tuple(range(dimN))
    out = 0.0
    for j in itertools.product(*[range(n) for n in D.shape[:dimN]]):
        out = out + D[j] * shift(X, j, axes)
    return out


def ccorr(D, Y, dimN):
    """Adjoint of cconv with respect to its second argument (before any
    broadcasting is summed out)."""
    axes = tuple(range(dimN))
    out = 0.0
    for j in itertools.product(*[range(n) for n in D.shape[:dimN]]):
        out = out + np.conj(D[j]) * shift(Y, [-k for k in j], axes)
    return out


def synth(D, X, dimN):
    """sum_m d_m * x_m in the standard layout (axisM last, kept)."""
    return np.sum(cconv(D, X, dimN), axis=dimN + 2, keepdims=True)


def cgrad(x, axes):
    """Circular backward differences, one per axis, stacked last."""
    return np.stack([x - np.roll(x, 1, axis=a) for a in axes], axis=-1)


def fgrad(x, axes):
    """Forward differences with zero last sample, stacked last."""
    out = []
    for a in axes:
        g = np.zeros_like(x)
        n = x.shape[a]
        lo = [slice(None)] * x.ndim
        hi = [slice(None)] * x.ndim
        lo[a] = slice(0, n - 1)
        hi[a] = slice(1, n)
        g[tuple(lo)] = x[tuple(hi)] - x[tuple(lo)]
        out.append(g)
    return np.stack(out, axis=-1)


# ------------------------------------------------------------------ prox
def soft(v, a):
    av = np.abs(v)
    s = np.divide(v, av, out=np.zeros_like(v), where=av != 0)
    return s * np.maximum(0.0, av - a)


def gsoft(v, a, axis):
    """group soft threshold"""
    n = np.sqrt(np.sum(np.abs(v) ** 2, axis=axis, keepdims=True))
    f = np.divide(np.maximum(0.0, n - a), n, out=np.zeros_like(n + a * 0),
                  where=n != 0)
    return f * v


def pball2(v, g, axis):
    n = np.sqrt(np.sum(np.abs(v) ** 2, axis=axis, keepdims=True))
    f = np.where(n > g, np.divide(g, n, out=np.ones_like(n), where=n != 0),
                 1.0)
    return f * v


def pball1(v, g, axis):
    """projection onto the l1 ball of radius g over `axis` (tuple)"""
    if isinstance(axis, int):
        axis = (axis,)
    axis = tuple(a % v.ndim for a in axis)
    rest = tuple(a for a in range(v.ndim) if a not in axis)
    w = np.transpose(v, rest + axis)
    shp = w.shape
    w = w.reshape((int(np.prod([v.shape[a] for a in rest])) if rest else 1,
                   -1)).copy()
    for r in range(w.shape[0]):
        x = np.abs(w[r])
        if x.sum() > g:
            # threshold from the sorted partial sums
            s = np.sort(x)[::-1]
            c = np.cumsum(s)
            ks = [k for k in range(1, s.size + 1)
                  if s[k - 1] - (c[k - 1] - g) / k > 0]
            k = ks[-1] if ks else 1
            t = (c[k - 1] - g) / k
            w[r] = np.sign(w[r]) * np.maximum(0.0, x - t)
    return np.transpose(w.reshape(shp), np.argsort(rest + axis))


def pnuc(v, a):
    u, s, vt = np.linalg.svd(v, full_matrices=False)
    ss = np.maximum(0.0, s - a)
    return (u * ss) @ vt, ss


def n1(x):
    return float(np.sum(np.abs(x)))


def n2(x):
    return float(np.sqrt(np.sum(np.abs(x) ** 2)))


# --------------------------------------------------- dictionary constraint
def fsupport(dsz, Nv, dimN, Cd, M):
    """Boolean support of each filter in the (Nv, Cd, 1, M) layout."""
    sup = np.zeros(tuple(Nv) + (Cd, 1, M), dtype=bool)
    if isinstance(dsz[0], tuple):
        m0 = 0
        for blk in dsz:
            if isinstance(blk[0], tuple):
                m1 = m0 + blk[0][-1]
                c0 = 0
                for cb in blk:
                    c1 = c0 + cb[-2]
                    sl = tuple(slice(0, n) for n in cb[:dimN])
                    sup[sl + (slice(c0, c1), slice(None), slice(m0, m1))] = 1
                    c0 = c1
            else:
                m1 = m0 + blk[-1]
                sl = tuple(slice(0, n) for n in blk[:dimN])
                sup[sl + (slice(None), slice(None), slice(m0, m1))] = 1
            m0 = m1
    else:
        sl = tuple(slice(0, n) for n in dsz[:dimN])
        sup[sl] = 1
    return sup


def pdict(v, sup, dimN, zm=False, joint=True):
    """Projection onto {support, unit norm, optional zero mean}: filters that
    vanish after cropping stay zero."""
    w = np.where(sup, v, 0.0)
    ax = tuple(range(dimN))
    if zm:
        n = sup.sum(axis=ax, keepdims=True)
        w = np.where(sup, w - w.sum(axis=ax, keepdims=True) / n, 0.0)
    nax = ax + ((dimN,) if joint else ())
    nn = np.sqrt(np.sum(np.abs(w) ** 2, axis=nax, keepdims=True))
    return np.divide(w, nn, out=np.zeros_like(w), where=nn != 0)


# ------------------------------------------------------------- ADMM model
class Admm(object):
    """min f(x) + g(y)  s.t.  A x + sB y = c   (scaled dual u).

    Subclasses / instances provide A, AT (functions on arrays), c, and either
    a quadratic f (F, s, R) or their own xstep, a prox and an objective."""
    sB = -1.0
    cplx = False
    dualres = 'std'       # 'std' or 'u'

    def __init__(self, xshape, yshape, c=0.0):
        self.xshape = tuple(xshape)
        self.yshape = tuple(yshape)
        self.c = np.zeros(yshape) + c
        self._m = None

    # -- to be provided
    def A(self, x):
        return x

    def F(self, x):
        raise NotImplementedError()

    s = None

    def R(self, x):
        """extra quadratic term 1/2 <x, R x>"""
        return 0.0 * x

    def prox(self, v, rho):
        raise NotImplementedError()

    # -- generic
    def mats(self):
        if self._m is None:
            A = mat(self.A, self.xshape, self.cplx)
            Fm = mat(self.F, self.xshape, self.cplx)
            Rm = mat(self.R, self.xshape, self.cplx)
            H = Fm.conj().T @ Fm + Rm
            q = Fm.conj().T @ np.asarray(self.s).ravel()
            self._m = (A, H, q, A.conj().T @ A)
        return self._m

    def Am(self):
        if not hasattr(self, '_Am'):
            self._Am = self._m[0] if self._m is not None else \
                mat(self.A, self.xshape, self.cplx)
        return self._Am

    def AT(self, y):
        return (self.Am().conj().T @ y.ravel()).reshape(self.xshape)

    def xstep(self, x, y, u, rho):
        A, H, q, AA = self.mats()
        b = q + rho * (A.conj().T @ (self.c - self.sB * y - u).ravel())
        return np.linalg.solve(H + rho * AA, b).reshape(self.xshape)

    def step(self, st, rlx):
        """One iteration.  st: dict x,y,u,rho -> new dict (rho unchanged)"""
        x0, y0, u0, rho = st['x'], st['y'], st['u'], st['rho']
        x = self.xstep(x0, y0, u0, rho)
        Ax = self.A(x)
        Axr = rlx * Ax - (1.0 - rlx) * (self.sB * y0 - self.c)
        v = Axr + u0 - self.c
        y = self.prox(v if self.sB < 0 else -v, rho)
        u = u0 + Axr + self.sB * y - self.c
        return {'x': x, 'y': y, 'u': u, 'rho': rho, 'Ax': Ax, 'yprev': y0}

    def resid(self, st):
        x, y, u, rho = st['x'], st['y'], st['u'], st['rho']
        Ax = st['Ax']
        r = n2(Ax + self.sB * y - self.c)
        rn = max(n2(Ax), n2(y), n2(self.c))
        if self.dualres == 'std':
            s = rho * n2(self.AT(self.sB * (y - st['yprev'])))
            sn = rho * n2(self.AT(u))
        else:
            s = rho * n2(self.AT(u))
            sn = rho * n2(u)
        return r, s, rn, sn, int(np.prod(self.xshape)), \
            int(np.prod(self.yshape))

    def tol(self, st, absT, relT, std):
        r, s, rn, sn, Nx, Nc = self.resid(st)
        if std:
            return (r, s, np.sqrt(Nc) * absT + rn * relT,
                    np.sqrt(Nx) * absT + sn * relT)
        rn = rn if rn != 0.0 else 1.0
        sn = sn if sn != 0.0 else 1.0
        return (r / rn, s / sn, np.sqrt(Nc) * absT / rn + relT,
                np.sqrt(Nx) * absT / sn + relT)

    def scale_dual(self, st, f):
        st['u'] = st['u'] / f


def autorho(k, r, s, o, xi):
    """multiplicative change of the penalty parameter after iteration k"""
    if not o['Enabled'] or k == 0 or (k + 1) % o['Period'] != 0:
        return 1.0
    tau, mu = o['Scaling'], o['RsdlRatio']
    if o['AutoScaling'] and r != 0.0 and s != 0.0:
        m = min(np.sqrt(max(r / (s * xi), s * xi / r)), tau)
    else:
        m = tau
    if r > xi * mu * s:
        return m
    if s > (mu / xi) * r:
        return 1.0 / m
    return 1.0
