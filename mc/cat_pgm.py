"""Catalogue of PGM solver classes with their dense reference model.

The model is the accelerated proximal gradient recursion on
    f(x) + g(x),   f(x) = 1/2 || w (A x - s) ||^2
with explicit dense A; policies (momentum, step size, backtracking, monotone)
are re-derived here.  DFT-domain solvers measure the quantities that enter the
step-size and line-search tests on the non-redundant half of the spectrum,
which `ip` reproduces."""
from collections import OrderedDict
import numpy as np
from mc import ref
from mc.ref import soft, n1, n2
from mc.cat_admm import Entry, ConvBase, CP, cprob, maskarr, rng, randn
from mc.cat_admm import CnstrMOD as _ACM
from mc.cat_admm2 import CCMod as _ACC


class Cut(Exception):
    """a comparison is decided by rounding noise: trace not continued"""


class Pgm(object):
    def __init__(self, A, s, w, prox, obj, xshape, dft=None):
        self.A, self.s, self.w, self.prox, self.obj = A, s, w, prox, obj
        self.xshape = xshape
        self.dft = dft
        self._m = None

    def Am(self):
        if self._m is None:
            self._m = ref.mat(self.A, self.xshape)
        return self._m

    def AT(self, r):
        return (self.Am().T @ r.ravel()).reshape(self.xshape)

    def res(self, x):
        return (self.Am() @ x.ravel()).reshape(np.shape(self.s)) - self.s

    def grad(self, x):
        return self.AT(self.w**2 * self.res(x) + np.zeros(np.shape(self.s)))

    def hess(self, v):
        z = (self.Am() @ v.ravel()).reshape(np.shape(self.s))
        return self.AT(self.w**2 * z)

    def f(self, x):
        r = self.w * self.res(x)
        return 0.5 * float(np.sum(r * r))

    def ip(self, a, b):
        if self.dft is None:
            return float(np.sum(a * b))
        ax = tuple(range(self.dft))
        fa, fb = np.fft.rfftn(a, axes=ax), np.fft.rfftn(b, axes=ax)
        return float(np.sum(np.real(np.conj(fa) * fb)))

    # -- one iteration
    def xstep(self, st, o, k, y, L, g, q):
        if g is None:
            g = self.grad(y)
        pol = o['StepSizePolicy'] if o['Backtrack'] == 'none' else 'none'
        if pol != 'none':
            if k > 1:
                if pol == 'Cauchy':
                    num, den = self.ip(g, self.hess(g)), self.ip(g, g)
                    keep = not np.any(g)
                    if den < 1e-18 and not keep:
                        raise Cut()
                else:
                    dx, dg = st['x'] - st['bbx'], g - st['bbg']
                    num, den = self.ip(dg, dg), self.ip(dx, dg)
                    # no step size is defined when nothing has changed
                    keep = not np.any(dx) or not np.any(dg)
                    if abs(den) < 1e-11 * (1.0 + num) and not keep:
                        raise Cut()
                    keep = keep or den < 0.0
                L = st['L'] if keep else num / den
            if pol == 'BB':
                q['bbx'], q['bbg'] = st['x'], g
        x = self.prox(y - g / L, L)
        q['zz'] = x
        if o['Monotone'] and k > 0:
            a, b = self.obj(st['x']), self.obj(x)
            if a != b and abs(a - b) < 1e-9 * (1.0 + abs(a)) and \
                    n2(x - st['x']) > 1e-12:
                raise Cut()
            if a < b:
                x = st['x'].copy()
        return x, L, g

    def step(self, st, o, k):
        bt = BT[o['Backtrack']]
        q = {h: st[h] for h in ('t', 'Tk', 'Z', 'bbx', 'bbg')}
        q.update(F=None, Q=None, nb=None)
        L, y = st['L'], st['y']
        if bt is None:
            x, L, g = self.xstep(st, o, k, y, L, None, q)
            yn = self.mom(st, o, k, x, q)
        else:
            kind, gd, gu, mx = bt
            n = 0
            if kind == 'R':
                if q['Z'] is None:
                    q['Z'] = st['x'].copy()
                L = L * gd
                while True:
                    t = (1.0 + np.sqrt(1.0 + 4.0 * L * st['Tk'])) / (2.0 * L)
                    T = st['Tk'] + t
                    y = (st['Tk'] * st['x'] + t * q['Z']) / T
                    x, L, g = self.xstep(st, o, k, y, L, None, q)
                    n += 1
                    F, Q = self.fq(x, y, g, L)
                    if F <= Q:
                        break
                    L = L * gu
                    if n >= mx:
                        break
                q['Tk'] = T
                q['Z'] = q['Z'] + t * L * (x - y)
                yn = y
            else:
                g = self.grad(y)
                while True:
                    x, L, g = self.xstep(st, o, k, y, L, g, q)
                    n += 1
                    F, Q = self.fq(x, y, g, L)
                    if F <= Q:
                        break
                    L = L * gu
                    if n >= mx:
                        break
                yn = self.mom(st, o, k, x, q)
            q.update(F=F, Q=Q, nb=n)
        q.update(x=x, y=yn, L=L, yprev=st['y'], xprev=st['x'])
        return q

    def fq(self, x, y, g, L):
        d = x - y
        # the backtracking is in the DFT domain, with unnormalised DFT
        n = 1.0 if self.dft is None else float(np.prod(x.shape[:self.dft]))
        F = n * self.f(x)
        Q = n * (self.f(y) + np.sum(d * g) + 0.5 * L * np.sum(d * d))
        if abs(F - Q) < 1e-9 * (1.0 + abs(F)):
            raise Cut()
        return F, Q

    def mom(self, st, o, k, x, q):
        m = MOM[o['Momentum']]
        tp = st['t']
        if m[0] == 'N':
            t = 0.5 * (1.0 + np.sqrt(1.0 + 4.0 * tp**2))
        elif m[0] == 'L':
            t = (k + m[1]) / m[1]
        else:
            t = (k + m[1]) / m[2]
        q['t'] = t
        y = x + (tp - 1.0) / t * (x - st['x'])
        if o['Monotone'] and k > 0:
            y = y + tp / t * (q['zz'] - x)
        return y


BT = {'none': None, 'S': ('S', None, 1.2, 50), 'S2': ('S', None, 3.0, 2),
      'R': ('R', 0.9, 2.0, 50), 'R2': ('R', 0.5, 1.5, 3)}
MOM = {'N': ('N',), 'L': ('L', 2.0), 'L3': ('L', 3.0), 'G': ('G', 50.0, 2.0),
       'G5': ('G', 5.0, 3.0)}


def mkpol(o):
    from sporco.pgm import backtrack, momentum, stepsize
    d = {}
    b = BT[o['Backtrack']]
    if o['Backtrack'] == 'S':
        d['Backtrack'] = backtrack.BacktrackStandard()
    elif o['Backtrack'] == 'R':
        d['Backtrack'] = backtrack.BacktrackRobust()
    elif b is not None:
        d['Backtrack'] = backtrack.BacktrackStandard(
            gamma_u=b[2], maxiter=b[3]) if b[0] == 'S' else \
            backtrack.BacktrackRobust(gamma_d=b[1], gamma_u=b[2],
                                      maxiter=b[3])
    m = MOM[o['Momentum']]
    if o['Momentum'] == 'L':
        d['Momentum'] = momentum.MomentumLinear()
    elif o['Momentum'] == 'G':
        d['Momentum'] = momentum.MomentumGenLinear()
    elif m[0] == 'L':
        d['Momentum'] = momentum.MomentumLinear(b=m[1])
    elif m[0] == 'G':
        d['Momentum'] = momentum.MomentumGenLinear(a=m[1], b=m[2])
    if o['StepSizePolicy'] == 'BB':
        d['StepSizePolicy'] = stepsize.StepSizePolicyBB()
    elif o['StepSizePolicy'] == 'Cauchy':
        d['StepSizePolicy'] = stepsize.StepSizePolicyCauchy()
    return d


class PEntry(Entry):
    iters = 5
    dft = False
    L0 = (40.0, 3.0)
    bts = ('none', 'S', 'R', 'S2', 'R2')
    ssp = ('none', 'BB', 'Cauchy')

    def axes(self, tier, p):
        q = tier == 'quick'
        a = OrderedDict([
            ('Backtrack', list(self.bts)),
            ('Momentum', ['N', 'L', 'G'] if q else list(MOM)),
            ('StepSizePolicy', list(self.ssp)),
            ('Monotone', [False, True]),
            ('L', list(self.L0)),
            ('start', ['zero', 'X0'])])
        a.update(self.extra_axes(tier, p))
        return a

    def valid(self, p, o):
        # the step size policy is documented as disabled by backtracking;
        # momentum is not used by the robust line search
        return not (o['Backtrack'] != 'none' and
                    o['StepSizePolicy'] == 'Cauchy') and \
            not (o['Backtrack'] in ('R', 'R2') and o['Momentum'] != 'N')

    def optdict(self, p, o):
        d = {'Verbose': False, 'MaxMainIter': self.iters, 'RelStopTol': 1e-9,
             'L': o['L'], 'Monotone': o['Monotone']}
        d.update(mkpol(o))
        d.update(self.extra_opts(p, o))
        return d

    def build(self, p, o, extra=None):
        d = self.optdict(p, o)
        if extra:
            d.update(extra)
        if o['start'] == 'X0':
            d['X0'] = self.x0(p, o)
        return self.make(p, o, d)

    def x0(self, p, o):
        x = randn(rng('x0', self.name, p['key']), self.xshape(p))
        x[np.abs(x) < 0.3] = 0.0
        return x

    def get(self, b):
        return np.array(b.getmin()), self.tospace(b, b.var_y())

    def tospace(self, b, y):
        y = np.array(y)
        if not self.dft:
            return y
        x = b.getmin()
        ax = tuple(range(self.dimn(b)))
        return np.fft.irfftn(y, [x.shape[a] for a in ax], axes=ax)

    def dimn(self, b):
        return b.getmin().ndim - 3

    def rsdl(self, o, k, q):
        if self.dft:
            return n2(q['x'] - q['yprev'])**2
        return n2(q['x'] - q['yprev'])

    def full(self, v, p):
        return v


class BPDN(PEntry):
    name = 'pgm.bpdn.BPDN'
    lmbda = 0.3

    def probs(self, tier):
        ps = [dict(key='4x6x3', n=4, m=6, k=3), dict(key='6x4x2', n=6, m=4, k=2)]
        if tier != 'quick':
            ps += [dict(key='3x3x1', n=3, m=3, k=1),
                   dict(key='1x3x2', n=1, m=3, k=2)]
        return ps

    def data(self, p):
        r = rng('pbpdn', p['key'])
        return randn(r, (p['n'], p['m'])), randn(r, (p['n'], p['k']))

    def xshape(self, p):
        return (p['m'], p['k'])

    def extra_axes(self, tier, p):
        return OrderedDict([('NonNegCoef', [False, True]),
                            ('L1Weight', ['one', 'col', 'full'])])

    def weight(self, p, o):
        if o['L1Weight'] == 'one':
            return 1.0
        r = rng('w', p['key'])
        if o['L1Weight'] == 'col':
            return np.abs(randn(r, (p['m'], 1)))
        w = np.abs(randn(r, (p['m'], p['k'])))
        w.ravel()[0] = 0.0
        return w

    def extra_opts(self, p, o):
        return {'NonNegCoef': o['NonNegCoef'], 'L1Weight': self.weight(p, o)}

    def make(self, p, o, d):
        from sporco.pgm import bpdn
        D, S = self.data(p)
        return bpdn.BPDN(D, S, self.lmbda, bpdn.BPDN.Options(d))

    def W(self, p, o):
        return 1.0

    def spec(self, p, o):
        D, S = self.data(p)
        w = self.weight(p, o)
        W = np.sqrt(self.W(p, o))

        def prox(v, L):
            x = soft(v, self.lmbda * w / L)
            return np.maximum(x, 0.0) if o['NonNegCoef'] else x

        def obj(x):
            return 0.5 * n2(W * (D @ x - S))**2 + self.lmbda * n1(w * x)
        return Pgm(lambda x: D @ x, S, W, prox, obj, self.xshape(p))

    def stats(self, p, o, m, x):
        r = n1(self.weight(p, o) * x)
        f = 0.5 * n2(m.w * m.res(x))**2
        return {'ObjFun': f + self.lmbda * r, 'DFid': f, 'RegL1': r}

    def recon(self, p, o, x):
        return self.data(p)[0] @ x


class WeightedBPDN(BPDN):
    name = 'pgm.bpdn.WeightedBPDN'

    def extra_axes(self, tier, p):
        a = BPDN.extra_axes(self, tier, p)
        a['W'] = ['full', 'col', 'none']
        return a

    def wt(self, p, o):
        r = rng('W', p['key'])
        if o['W'] == 'none':
            return None
        w = r.rand(p['n'], p['k'] if o['W'] == 'full' else 1) * 2.0
        w.ravel()[0] = 0.0
        return w

    def W(self, p, o):
        w = self.wt(p, o)
        return 1.0 if w is None else w

    def make(self, p, o, d):
        from sporco.pgm import bpdn
        D, S = self.data(p)
        return bpdn.WeightedBPDN(D, S, self.lmbda, self.wt(p, o),
                                 bpdn.WeightedBPDN.Options(d))


class CnstrMOD(PEntry):
    name = 'pgm.cmod.CnstrMOD'
    data = _ACM.data
    probs = _ACM.probs

    def xshape(self, p):
        return (p['n'], p['m'])

    def extra_axes(self, tier, p):
        return OrderedDict([('C', ['unit', 'zm', 'nn']),
                            ('late', [False, True])])

    def extra_opts(self, p, o):
        return {'ZeroMean': o['C'] == 'zm', 'NonNegCoef': o['C'] == 'nn'}

    def cls(self):
        from sporco.pgm import cmod
        return cmod.CnstrMOD

    def make(self, p, o, d):
        Z, S = self.data(p)
        c = self.cls()
        a = self.wargs(p, o)
        if o['late']:
            b = c(None, S, *a, dsz=(p['m'], p['n']), opt=c.Options(d))
            b.setcoef(Z)
            return b
        return c(Z, S, *a, opt=c.Options(d))

    def wargs(self, p, o):
        return ()

    def W(self, p, o):
        return 1.0

    def P(self, o, v):
        if o['C'] == 'nn':
            v = np.maximum(v, 0.0)
        return _ACM.P(v, {'ZeroMean': o['C'] == 'zm'})

    def spec(self, p, o):
        Z, S = self.data(p)
        W = np.sqrt(self.W(p, o))
        return Pgm(lambda x: x @ Z, S, W, lambda v, L: self.P(o, v),
                   lambda x: 0.5 * n2(W * (x @ Z - S))**2, self.xshape(p))

    def stats(self, p, o, m, x):
        return {'DFid': 0.5 * n2(m.w * m.res(x))**2,
                'Cnstr': n2(self.P(o, x) - x)}

    def recon(self, p, o, x):
        return x @ self.data(p)[0]


class WeightedCnstrMOD(CnstrMOD):
    name = 'pgm.cmod.WeightedCnstrMOD'

    def cls(self):
        from sporco.pgm import cmod
        return cmod.WeightedCnstrMOD

    def extra_axes(self, tier, p):
        a = CnstrMOD.extra_axes(self, tier, p)
        a['W'] = ['full', 'none']
        return a

    def wt(self, p, o):
        if o['W'] == 'none':
            return None
        w = rng('W', p['key']).rand(p['n'], p['k']) * 2.0
        w.ravel()[0] = 0.0
        return w

    def wargs(self, p, o):
        return (self.wt(p, o),)

    W = WeightedBPDN.W


class ConvBPDN(PEntry):
    name = 'pgm.cbpdn.ConvBPDN'
    dft = True
    lmbda = 0.3
    L0 = (60.0, 4.0)
    arrays, dims, std, l1w = (ConvBase.arrays, ConvBase.dims, ConvBase.std,
                              ConvBase.l1w)
    xshape, post, kw = ConvBase.xshape, ConvBase.post, ConvBase.kw

    def probs(self, tier):
        return cprob(['2d', '2dK', '2dC', '2dCK', '2dCd', '2dCdK', '1d',
                      '3d', '2dM1'] + ([] if tier == 'quick' else
                                       ['1dK', '1dCd', '2dfull', '2dCd1']))

    def extra_axes(self, tier, p):
        a = OrderedDict()
        a['L1Weight'] = ['one', 'full'] if tier == 'quick' else \
            ['one', 'scalar', 'full', 'M']
        a['NonNegCoef'] = [False, True]
        a['NoBndryCross'] = [False, True]
        return a

    def extra_opts(self, p, o):
        return {'NonNegCoef': o['NonNegCoef'],
                'NoBndryCross': o['NoBndryCross'],
                'L1Weight': self.l1w(p, o)[0]}

    def make(self, p, o, d):
        from sporco.pgm import cbpdn
        D, S = self.arrays(p)
        return cbpdn.ConvBPDN(D, S, self.lmbda, cbpdn.ConvBPDN.Options(d),
                              **self.kw(p))

    def W(self, p, o):
        return 1.0

    def spec(self, p, o):
        D, S = self.std(p)
        dimN = len(p['N'])
        w = self.l1w(p, o)[1]
        W = self.W(p, o)

        def prox(v, L):
            return self.post(p, o, soft(v, self.lmbda * w / L))
        m = Pgm(lambda x: ref.synth(D, x, dimN), S, W, prox, None,
                self.xshape(p), dimN)
        m.obj = lambda x: 0.5 * n2(W * m.res(x))**2 + self.lmbda * n1(w * x)
        return m

    def stats(self, p, o, m, x):
        r = n1(self.l1w(p, o)[1] * x)
        f = 0.5 * n2(m.w * m.res(x))**2
        return {'ObjFun': f + self.lmbda * r, 'DFid': f, 'RegL1': r}

    def recon(self, p, o, x):
        return ref.synth(self.std(p)[0], x, len(p['N']))


class ConvBPDNMask(ConvBPDN):
    name = 'pgm.cbpdn.ConvBPDNMask'

    def extra_axes(self, tier, p):
        a = ConvBPDN.extra_axes(self, tier, p)
        a['W'] = ['shared', 'none', 'persig', 'gray']
        return a

    def W(self, p, o):
        return maskarr(p, o['W'], self.dims(p))[1]

    def make(self, p, o, d):
        from sporco.pgm import cbpdn
        D, S = self.arrays(p)
        return cbpdn.ConvBPDNMask(
            D, S, self.lmbda, maskarr(p, o['W'], self.dims(p))[0],
            cbpdn.ConvBPDNMask.Options(d), **self.kw(p))


class ConvCnstrMOD(PEntry):
    name = 'pgm.ccmod.ConvCnstrMOD'
    dft = True
    L0 = (120.0, 6.0)
    arrays, dims, std = _ACC.arrays, _ACC.dims, _ACC.std
    dsz, kw, fwd, dshape = _ACC.dsz, _ACC.kw, _ACC.fwd, _ACC.dshape
    P = _ACC.P

    def probs(self, tier):
        return [p for p in _ACC().probs(tier) if not p.get('cplx')]

    def xshape(self, p):
        return self.dshape(p)

    def extra_axes(self, tier, p):
        return OrderedDict([('ZeroMean', [False, True]),
                            ('late', [False, True])])

    def extra_opts(self, p, o):
        return {'ZeroMean': o['ZeroMean']}

    def x0(self, p, o):
        return self.P(p, {'ZeroMean': False}, PEntry.x0(self, p, o))

    def make(self, p, o, d):
        from sporco.pgm import ccmod
        Z, S = self.arrays(p)
        c = ccmod.ConvCnstrMOD
        b = c(None if o['late'] else Z, S, self.dsz(p), c.Options(d),
              **self.kw(p))
        if o['late']:
            b.setcoef(Z)
        return b

    def W(self, p, o):
        return 1.0

    def spec(self, p, o):
        S = self.std(p)[1]
        W = self.W(p, o)
        m = Pgm(lambda d: self.fwd(p, d), S, W,
                lambda v, L: self.P(p, o, v), None, self.xshape(p),
                len(p['N']))
        m.obj = lambda x: 0.5 * n2(W * m.res(x))**2
        return m

    def stats(self, p, o, m, x):
        return {'DFid': 0.5 * n2(m.w * m.res(x))**2,
                'Cnstr': n2(self.P(p, o, x) - x)}

    def recon(self, p, o, x):
        return self.fwd(p, x)

    def result(self, p, b, x):
        return b.getdict(), x[tuple(slice(0, n) for n in p['d'])]


class ConvCnstrMODMask(ConvCnstrMOD):
    name = 'pgm.ccmod.ConvCnstrMODMask'

    def extra_axes(self, tier, p):
        a = ConvCnstrMOD.extra_axes(self, tier, p)
        a['W'] = ['shared', 'persig', 'gray']
        return a

    def W(self, p, o):
        return maskarr(p, o['W'], self.dims(p))[1]

    def make(self, p, o, d):
        from sporco.pgm import ccmod
        Z, S = self.arrays(p)
        c = ccmod.ConvCnstrMODMask
        b = c(None if o['late'] else Z, S, np.array(self.W(p, o)),
              self.dsz(p), c.Options(d), **self.kw(p))
        if o['late']:
            b.setcoef(Z)
        return b


class PPP(PEntry):
    name = 'pgm.ppp.PPP'
    bts = ('none',)
    ssp = ('none', 'BB')
    L0 = (30.0, 12.0)

    def probs(self, tier):
        return [dict(key='5', N=[5]), dict(key='3x2', N=[3, 2])]

    def xshape(self, p):
        return tuple(p['N'])

    def mats(self, p):
        r = rng('pppg', p['key'])
        n = int(np.prod(p['N']))
        return randn(r, (n + 1, n)), randn(r, (n + 1,))

    def extra_opts(self, p, o):
        return {'DataType': np.float64}

    def fns(self, p):
        A, s = self.mats(p)
        shp = tuple(p['N'])

        def f(x):
            return 0.5 * n2(A @ x.ravel() - s)**2

        def gf(x):
            return (A.T @ (A @ x.ravel() - s)).reshape(shp)

        def pg(x, L):
            return soft(x, 0.4 / L) * 0.99
        return f, gf, pg

    def make(self, p, o, d):
        from sporco.pgm import ppp
        return ppp.PPP(tuple(p['N']), *self.fns(p), opt=ppp.PPP.Options(d))

    def spec(self, p, o):
        A, s = self.mats(p)
        f, gf, pg = self.fns(p)
        return Pgm(lambda x: A @ x.ravel(), s, 1.0, pg, f, self.xshape(p))

    def stats(self, p, o, m, x):
        return {'FVal': self.fns(p)[0](x)}

    def rsdl(self, o, k, q):
        return n2(q['x'] - q['yprev'])

    recon = None


ENTRIES = [BPDN, WeightedBPDN, CnstrMOD, WeightedCnstrMOD, ConvBPDN,
           ConvBPDNMask, ConvCnstrMOD, ConvCnstrMODMask, PPP]
