"""Solvers defined by a user on top of the generic framework classes, with
only the methods that the documentation requires to be overridden."""
from collections import OrderedDict
import numpy as np
from mc import ref
from mc.ref import Admm, soft, n1, n2
from mc.cat_admm import Entry, rng, randn
from mc.cat_admm2 import Cons
from mc.cat_pgm import PEntry, Pgm

LM = 0.3


class General(Admm):
    """min f(x) + g(y)  s.t.  A x + diag(b) y = c"""

    def By(self, y):
        return self.b * y

    def xstep(self, x, y, u, rho):
        A, H, q, AA = self.mats()
        v = q + rho * (A.conj().T @ (self.c - self.By(y) - u).ravel())
        return np.linalg.solve(H + rho * AA, v).reshape(self.xshape)

    def step(self, st, rlx):
        x0, y0, u0, rho = st['x'], st['y'], st['u'], st['rho']
        x = self.xstep(x0, y0, u0, rho)
        Ax = self.A(x)
        Axr = rlx * Ax - (1.0 - rlx) * (self.By(y0) - self.c)
        y = self.prox(self.c - Axr - u0, rho)
        u = u0 + Axr + self.By(y) - self.c
        return {'x': x, 'y': y, 'u': u, 'rho': rho, 'Ax': Ax, 'yprev': y0}

    def resid(self, st):
        x, y, u, rho = st['x'], st['y'], st['u'], st['rho']
        Ax = st['Ax']
        r = n2(Ax + self.By(y) - self.c)
        rn = max(n2(Ax), n2(self.By(y)), n2(self.c))
        s = rho * n2(self.AT(self.By(y - st['yprev'])))
        sn = rho * n2(self.AT(u))
        return r, s, rn, sn, int(np.prod(self.xshape)), \
            int(np.prod(self.yshape))


def prb(key, xs, ys, **kw):
    return dict(key=key, xs=list(xs), ys=list(ys), **kw)


class UserAdmm(Entry):
    """subclass of ADMM: all the constraint operators are the user's"""
    name = 'user.ADMM'
    matopts = ('B', 'c')

    def probs(self, tier):
        return [prb('4-6', [4], [6]), prb('5-3', [5], [3]),
                prb('2x3-4x2', [2, 3], [4, 2]),
                prb('3-4z', [3], [4], cplx=1),
                prb('2x2-2x1x3', [2, 2], [2, 1, 3]), prb('1-1', [1], [1])]

    def extra_axes(self, tier, p):
        return OrderedDict([('B', ['neg', 'pos', 'diag']),
                            ('c', ['zero', 'full']),
                            ('xtra', [False, True])])

    def data(self, p, o):
        r = rng('uadmm', p['key'])
        nx, ny = int(np.prod(p['xs'])), int(np.prod(p['ys']))
        cx = bool(p.get('cplx'))
        F = randn(r, (nx + 1, nx), cx)
        s = 2.0 * randn(r, (nx + 1,), cx)
        A = randn(r, (ny, nx), cx)
        b = {'neg': -1.0, 'pos': 1.0, 'diag': 0.4 + np.abs(randn(
            r, p['ys']))}[o['B']]
        c = randn(r, p['ys'], cx) if o['c'] == 'full' else 0.0
        return F, s, A, b, c

    def make(self, p, o, d):
        from sporco.admm import admm
        F, s, A, b, c = self.data(p, o)
        xs, ys = tuple(p['xs']), tuple(p['ys'])
        nx = int(np.prod(xs))
        dt = np.complex128 if p.get('cplx') else np.float64

        class Solver(admm.ADMM):
            def __init__(self, opt=None):
                super().__init__(nx, ys, ys, dt, opt)
                self.X = np.zeros(xs, dtype=dt)
                self.rhochange()

            def rhochange(self):
                self.inv = np.linalg.inv(
                    F.conj().T @ F + self.rho * A.conj().T @ A)

            def xstep(self):
                v = F.conj().T @ s + self.rho * A.conj().T @ (
                    c - b * self.Y - self.U).ravel()
                self.X = (self.inv @ v).reshape(xs)

            def ystep(self):
                v = c - self.AX - self.U
                self.Y = soft(v / b, LM / (self.rho * b**2))

            def cnst_A(self, X):
                return (A @ X.ravel()).reshape(ys)

            def cnst_AT(self, Y):
                return (A.conj().T @ Y.ravel()).reshape(xs)

            def cnst_B(self, Y):
                return b * Y

            def cnst_c(self):
                return c

            def obfn_f(self, X):
                return 0.5 * n2(F @ X.ravel() - s)**2

            def obfn_g(self, Y):
                return LM * n1(Y)
        if o['xtra']:
            class Extra(Solver):
                itstat_fields_extra = ('NrmX', 'NrmU')

                def itstat_extra(self):
                    return (n2(self.X), n2(self.U))
            Solver = Extra
        return Solver(admm.ADMM.Options(d))

    def spec(self, p, o):
        F, s, A, b, c = self.data(p, o)
        m = General(p['xs'], p['ys'], c)
        m.cplx = bool(p.get('cplx'))
        m.A = lambda x: (A @ x.ravel()).reshape(p['ys'])
        m.F = lambda x: F @ x.ravel()
        m.s = s
        m.b = b
        m.prox = lambda v, rho: soft(v / b, LM / (rho * b**2))
        return m

    def stats(self, p, o, m, st):
        F, s, A, b, c = self.data(p, o)
        f = 0.5 * n2(F @ st['x'].ravel() - s)**2
        g = LM * n1(st['y'])
        d = {'ObjFun': f + g, 'FVal': f, 'GVal': g}
        if o['xtra']:
            d['NrmX'] = n2(st['x'])
            d['NrmU'] = n2(st['u'])
        return d

    def retval(self, o, st):
        return st['x']


class UserEqual(Entry):
    """subclass of ADMMEqual"""
    name = 'user.ADMMEqual'

    def probs(self, tier):
        return [prb('5', [5], [5]), prb('2x3', [2, 3], [2, 3]),
                prb('2x1x2', [2, 1, 2], [2, 1, 2]),
                prb('4z', [4], [4], cplx=1)]

    def extra_axes(self, tier, p):
        return OrderedDict([('fEvalX', [True, False]),
                            ('gEvalY', [True, False]),
                            ('ReturnX', [True, False])])

    def extra_opts(self, p, o):
        return {k: o[k] for k in ('fEvalX', 'gEvalY', 'ReturnX')}

    def data(self, p):
        r = rng('uequal', p['key'])
        nx = int(np.prod(p['xs']))
        cx = bool(p.get('cplx'))
        return randn(r, (nx + 1, nx), cx), 2.0 * randn(r, (nx + 1,), cx)

    def make(self, p, o, d):
        from sporco.admm import admm
        F, s = self.data(p)
        xs = tuple(p['xs'])
        dt = np.complex128 if p.get('cplx') else np.float64

        class Solver(admm.ADMMEqual):
            def xstep(self):
                v = F.conj().T @ s + self.rho * (self.Y - self.U).ravel()
                self.X = np.linalg.solve(
                    F.conj().T @ F + self.rho * np.eye(F.shape[1]),
                    v).reshape(xs)

            def ystep(self):
                self.Y = soft(self.AX + self.U, LM / self.rho)

            def obfn_f(self, X):
                return 0.5 * n2(F @ X.ravel() - s)**2

            def obfn_g(self, Y):
                return LM * n1(Y)
        return Solver(xs, dt, admm.ADMMEqual.Options(d))

    def spec(self, p, o):
        F, s = self.data(p)
        m = Admm(p['xs'], p['xs'])
        m.cplx = bool(p.get('cplx'))
        m.F = lambda x: F @ x.ravel()
        m.s = s
        m.prox = lambda v, rho: soft(v, LM / rho)
        return m

    def stats(self, p, o, m, st):
        F, s = self.data(p)
        f = 0.5 * n2(F @ (st['x'] if o['fEvalX'] else st['y']).ravel()
                     - s)**2
        g = LM * n1(st['y'] if o['gEvalY'] else st['x'])
        return {'ObjFun': f + g, 'FVal': f, 'GVal': g}

    def retval(self, o, st):
        return st['x'] if o['ReturnX'] else st['y']


class UserTwo(Entry):
    """subclass of ADMMTwoBlockCnstrnt"""
    name = 'user.ADMMTwoBlockCnstrnt'
    matopts = ('f', 'c')

    def probs(self, tier):
        # xs: x shape; y0, y1: block shapes; ax: block axis
        return [dict(key='4-5-2', xs=[4], y0=[5], y1=[2], ax=0),
                dict(key='2x2-1x3-2x3', xs=[2, 2], y0=[1, 3], y1=[2, 3],
                     ax=0),
                dict(key='3-2x1-2x3', xs=[3], y0=[2, 1], y1=[2, 3], ax=1),
                dict(key='2x3-2x2x2-2x2x1', xs=[2, 3], y0=[2, 2, 2],
                     y1=[2, 2, 1], ax=2),
                dict(key='id', xs=[3], y0=[3], y1=[3], ax=0)]

    def extra_axes(self, tier, p):
        return OrderedDict([('AuxVarObj', [False, True]),
                            ('ReturnVar', ['X', 'Y0', 'Y1']),
                            ('f', [False, True]),
                            ('c', ['zero', 'c0', 'c1', 'both'])])

    def extra_opts(self, p, o):
        return {k: o[k] for k in ('AuxVarObj', 'ReturnVar')}

    def ys(self, p):
        y = list(p['y0'])
        y[p['ax']] += p['y1'][p['ax']]
        return y

    def data(self, p, o):
        r = rng('utwo', p['key'])
        n = [int(np.prod(p[k])) for k in ('xs', 'y0', 'y1')]
        A0, A1 = randn(r, (n[1], n[0])), randn(r, (n[2], n[0]))
        c0, c1 = 2 * randn(r, p['y0']), 2 * randn(r, p['y1'])
        F, s = randn(r, (n[0], n[0])), randn(r, (n[0],))
        if p['key'] == 'id':
            A0 = A1 = np.eye(n[0])
        if o['c'] not in ('c0', 'both'):
            c0 = 0.0 * c0
        if o['c'] not in ('c1', 'both'):
            c1 = 0.0 * c1
        return A0, A1, c0, c1, F if o['f'] else 0.0 * F, s

    def make(self, p, o, d):
        from sporco.admm import admm
        A0, A1, c0, c1, F, s = self.data(p, o)
        xs, y0s, y1s = tuple(p['xs']), tuple(p['y0']), tuple(p['y1'])

        class Solver(admm.ADMMTwoBlockCnstrnt):
            def xstep(self):
                YU = self.Y - self.U
                H = F.T @ F + self.rho * (A0.T @ A0 + A1.T @ A1)
                v = F.T @ s + self.rho * (
                    A0.T @ (self.block_sep0(YU) + c0).ravel() +
                    A1.T @ (self.block_sep1(YU) + c1).ravel())
                self.X = np.linalg.solve(H, v).reshape(xs)

            def ystep(self):
                V0, V1 = self.block_sep(self.AX + self.U)
                self.Y = self.block_cat(
                    (V0 - c0) * self.rho / (1.0 + self.rho),
                    soft(V1 - c1, LM / self.rho))

            def obfn_g0(self, Y0):
                return 0.5 * n2(Y0)**2

            def obfn_g1(self, Y1):
                return LM * n1(Y1)
        if p['key'] != 'id':
            class Solver(Solver):
                def cnst_A0(self, X):
                    return (A0 @ X.ravel()).reshape(y0s)

                def cnst_A0T(self, Y0):
                    return (A0.T @ Y0.ravel()).reshape(xs)

                def cnst_A1(self, X):
                    return (A1 @ X.ravel()).reshape(y1s)

                def cnst_A1T(self, Y1):
                    return (A1.T @ Y1.ravel()).reshape(xs)
        if o['f']:
            class Solver(Solver):
                def obfn_f(self, X):
                    return 0.5 * n2(F @ X.ravel() - s)**2
        if o['c'] in ('c0', 'both'):
            class Solver(Solver):
                def cnst_c0(self):
                    return c0
        if o['c'] in ('c1', 'both'):
            class Solver(Solver):
                def cnst_c1(self):
                    return c1
        return Solver(int(np.prod(xs)), tuple(self.ys(p)), p['ax'],
                      p['y0'][p['ax']], np.float64,
                      admm.ADMMTwoBlockCnstrnt.Options(d))

    def cat(self, p, a, b):
        return np.concatenate((a, b), axis=p['ax'])

    def sep(self, p, y):
        k = p['y0'][p['ax']]
        i = np.arange(y.shape[p['ax']])
        return (np.take(y, i[:k], axis=p['ax']),
                np.take(y, i[k:], axis=p['ax']))

    def spec(self, p, o):
        A0, A1, c0, c1, F, s = self.data(p, o)
        m = Admm(p['xs'], self.ys(p), self.cat(p, c0, c1))
        m.A = lambda x: self.cat(p, (A0 @ x.ravel()).reshape(p['y0']),
                                 (A1 @ x.ravel()).reshape(p['y1']))
        m.F = lambda x: F @ x.ravel()
        m.s = s

        def prox(v, rho):
            v0, v1 = self.sep(p, v)
            return self.cat(p, v0 * rho / (1 + rho), soft(v1, LM / rho))
        m.prox = prox
        return m

    def stats(self, p, o, m, st):
        A0, A1, c0, c1, F, s = self.data(p, o)
        x = st['x'].ravel()
        if o['AuxVarObj']:
            y0, y1 = self.sep(p, st['y'])
        else:
            y0 = (A0 @ x).reshape(p['y0']) - c0
            y1 = (A1 @ x).reshape(p['y1']) - c1
        f = 0.5 * n2(F @ x - s)**2 if o['f'] else 0.0
        g0, g1 = 0.5 * n2(y0)**2, LM * n1(y1)
        return {'ObjFun': f + g0 + g1, 'FVal': f, 'G0Val': g0, 'G1Val': g1}

    def retval_p(self, p, o, st):
        if o['ReturnVar'] == 'X':
            return st['x']
        return self.sep(p, st['y'])[int(o['ReturnVar'][1])]


class UserCons(Entry):
    """subclasses of ADMMConsensus and WeightedADMMConsensus"""
    name = 'user.ADMMConsensus'
    start = ('zero', 'YU')

    def probs(self, tier):
        return [dict(key='4x2', ys=[4], nb=2, w=0),
                dict(key='2x3x3', ys=[2, 3], nb=3, w=0),
                dict(key='3x1', ys=[3], nb=1, w=0),
                dict(key='4x2w', ys=[4], nb=2, w=1),
                dict(key='2x3x3w', ys=[2, 3], nb=3, w=1),
                dict(key='3x1w', ys=[3], nb=1, w=1)]

    def extra_axes(self, tier, p):
        return OrderedDict([('AuxVarObj', [True, False])])

    def extra_opts(self, p, o):
        return {'AuxVarObj': o['AuxVarObj']}

    def data(self, p):
        r = rng('ucons', p['key'])
        n = int(np.prod(p['ys']))
        F = [randn(r, (n + 1, n)) for _ in range(p['nb'])]
        s = [2 * randn(r, (n + 1,)) for _ in range(p['nb'])]
        return F, s

    def alpha(self, p):
        return 0.3 + 0.5 * np.arange(p['nb']) if p['w'] else \
            np.ones(p['nb'])

    def make(self, p, o, d):
        from sporco.admm import admm
        F, s = self.data(p)
        ys = tuple(p['ys'])

        class Mixin(object):
            def xistep(self, i):
                v = F[i].T @ s[i] + self.rho * (
                    self.Y - self.U[..., i]).ravel()
                self.X[..., i] = np.linalg.solve(
                    F[i].T @ F[i] + self.rho * np.eye(F[i].shape[1]),
                    v).reshape(ys)

            def prox_g(self, X, rho):
                return soft(X, LM / rho)

            def obfn_fi(self, X, i):
                return 0.5 * n2(F[i] @ X.ravel() - s[i])**2

            def obfn_g(self, Y):
                return LM * n1(Y)
        if p['w']:
            class Solver(Mixin, admm.WeightedADMMConsensus):
                pass
            b = Solver(p['nb'], self.alpha(p), ys, np.float64,
                       admm.WeightedADMMConsensus.Options(d))
        else:
            class Solver(Mixin, admm.ADMMConsensus):
                pass
            b = Solver(p['nb'], ys, np.float64,
                       admm.ADMMConsensus.Options(d))
        b.X = np.zeros(ys + (p['nb'],))
        return b

    def spec(self, p, o):
        F, s = self.data(p)
        m = Cons(p['ys'], p['nb'], self.alpha(p) if p['w'] else None)

        def xstep(x, y, u, rho):
            return np.stack([np.linalg.solve(
                F[i].T @ F[i] + rho * np.eye(F[i].shape[1]),
                F[i].T @ s[i] + rho * (y - u)[..., i].ravel()).reshape(
                    p['ys']) for i in range(p['nb'])], axis=-1)
        m.xstep = xstep
        m.prox = lambda v, rho: soft(v, LM / rho)
        return m

    def stats(self, p, o, m, st):
        F, s = self.data(p)
        a = self.alpha(p)
        f = 0.0
        for i in range(p['nb']):
            x = st['y'] if o['AuxVarObj'] else st['x'][..., i]
            f += a[i] * 0.5 * n2(F[i] @ x.ravel() - s[i])**2
        y = st['y'] if o['AuxVarObj'] else \
            np.sum(a * st['x'], axis=-1) / np.sum(a)
        g = LM * n1(y)
        return {'ObjFun': f + g, 'FVal': f, 'GVal': g}

    def retval(self, o, st):
        return st['y']


# ------------------------------------------------------------------ PGM
class UserPgm(PEntry):
    """subclass of PGM"""
    name = 'user.PGM'

    def probs(self, tier):
        return [dict(key='5', xs=[5]), dict(key='2x3', xs=[2, 3]),
                dict(key='2x1x2', xs=[2, 1, 2])]

    def extra_axes(self, tier, p):
        return OrderedDict([('xtra', [False, True])])

    def xshape(self, p):
        return tuple(p['xs'])

    def data(self, p):
        r = rng('upgm', p['key'])
        nx = int(np.prod(p['xs']))
        return randn(r, (nx + 1, nx)), 2.0 * randn(r, (nx + 1,))

    def make(self, p, o, d):
        from sporco.pgm import pgm
        F, s = self.data(p)
        xs = self.xshape(p)

        class Solver(pgm.PGM):
            def __init__(self, opt):
                super().__init__(xs, np.float64, opt)
                self.Y = self.X.copy()

            def grad_f(self, V=None):
                if V is None:
                    V = self.Y
                return (F.T @ (F @ V.ravel() - s)).reshape(xs)

            def hessian_f(self, V):
                return (F.T @ (F @ V.ravel())).reshape(xs)

            def prox_g(self, V):
                return soft(V, LM / self.L)

            def obfn_f(self, X=None):
                if X is None:
                    X = self.X
                return 0.5 * n2(F @ X.ravel() - s)**2

            def obfn_g(self, X):
                return LM * n1(X)
        if o['xtra']:
            class Solver(Solver):
                itstat_fields_extra = ('NrmX', 'NrmY')

                def itstat_extra(self):
                    return (n2(self.X), n2(self.Y))
        return Solver(pgm.PGM.Options(d))

    def spec(self, p, o):
        F, s = self.data(p)

        def obj(x):
            return 0.5 * n2(F @ x.ravel() - s)**2 + LM * n1(x)
        return Pgm(lambda x: F @ x.ravel(), s, 1.0,
                   lambda v, L: soft(v, LM / L), obj, self.xshape(p))

    def stats(self, p, o, m, x):
        F, s = self.data(p)
        f = 0.5 * n2(F @ x.ravel() - s)**2
        d = {'ObjFun': f + LM * n1(x), 'FVal': f, 'GVal': LM * n1(x)}
        if o['xtra']:
            d['NrmX'] = n2(x)
        return d

    recon = None


class UserPgmDft(UserPgm):
    """subclass of PGMDFT: deconvolution with the l1 norm"""
    name = 'user.PGMDFT'
    dft = True

    def probs(self, tier):
        # nd: number of transformed axes; lead: leading axes not transformed
        return [dict(key='5', xs=[5], nd=1), dict(key='4', xs=[4], nd=1),
                dict(key='4x3', xs=[4, 3], nd=2),
                dict(key='3x4x2', xs=[3, 4, 2], nd=2)]

    def axn(self, p):
        return tuple(range(p['nd']))

    def data(self, p):
        r = rng('upgmdft', p['key'])
        return (randn(r, p['xs'][:p['nd']] + [1] * (len(p['xs']) - p['nd'])),
                2.0 * randn(r, p['xs']))

    def dimn(self, b):
        return len(b.axisN)

    def make(self, p, o, d):
        from sporco.pgm import pgm
        from sporco.fft import rfftn, irfftn
        h, s = self.data(p)
        xs, ax = self.xshape(p), self.axn(p)
        Nv = xs[:p['nd']]
        n = float(np.prod(Nv))

        class Solver(pgm.PGMDFT):
            def __init__(self, opt):
                super().__init__(xs, Nv, ax, np.float64, opt)
                self.hf = rfftn(h, None, ax)
                self.sf = rfftn(s, None, ax)
                self.Xf = rfftn(self.X, None, ax)
                self.Yf = self.Xf.copy()
                self.Vf = self.Xf.copy()

            def grad_f(self, V=None):
                if V is None:
                    V = self.Yf
                return np.conj(self.hf) * (self.hf * V - self.sf)

            def hessian_f(self, V):
                return np.conj(self.hf) * self.hf * V

            def prox_g(self, V):
                return soft(V, LM / self.L)

            def obfn_f(self, Xf=None):
                if Xf is None:
                    Xf = self.Xf
                r = irfftn(self.hf * Xf - self.sf, Nv, ax)
                return 0.5 * n * n2(r)**2

            def obfn_g(self, X):
                return LM * n1(X)

            def eval_objfn(self):
                f = self.obfn_f() / n
                g = self.obfn_g(self.X)
                return (f + g, f, g)

            def rsdl(self):
                return n2(irfftn(self.Xf - self.Yfprv, Nv, ax))
        if o['xtra']:
            class Solver(Solver):
                itstat_fields_extra = ('NrmX',)

                def itstat_extra(self):
                    return (n2(self.X),)
        return Solver(pgm.PGMDFT.Options(d))

    def rsdl(self, o, k, q):
        return n2(q['x'] - q['yprev'])

    def spec(self, p, o):
        h, s = self.data(p)
        nd = p['nd']

        def A(x):
            return ref.cconv(h, x, nd)

        def obj(x):
            return 0.5 * n2(A(x) - s)**2 + LM * n1(x)
        m = Pgm(A, s, 1.0, lambda v, L: soft(v, LM / L), obj,
                self.xshape(p))
        m.dft = nd
        return m

    def stats(self, p, o, m, x):
        f = 0.5 * n2(m.res(x))**2
        d = {'ObjFun': f + LM * n1(x), 'FVal': f, 'GVal': LM * n1(x)}
        if o['xtra']:
            d['NrmX'] = n2(x)
        return d


ADMM_ENTRIES = [UserAdmm, UserEqual, UserTwo, UserCons]
PGM_ENTRIES = [UserPgm, UserPgmDft]
