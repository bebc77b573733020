"""Catalogue of ADMM solver classes with their dense reference models.

Each entry is a class with
  probs(tier)      problem instances (JSON-able dicts)
  axes(tier, p)    option axes (ordered dict name -> list of values)
  make(p, o)       the sporco solver, option values o (callback added later)
  spec(p, o)       the reference model (mc.ref.Admm)
  get(b)           (x, y, u) of the solver in the model's layout
  stats(p, o, m, st)  expected iteration statistics (name -> value)
"""
import itertools
from collections import OrderedDict
import numpy as np
from mc import ref
from mc.ref import Admm, soft, gsoft, pball1, pball2, n1, n2


def rng(*key):
    h = 17
    for c in repr(key):
        h = (h * 131 + ord(c)) % (2**31 - 1)
    return np.random.RandomState(h)


def randn(r, shp, cplx=False):
    x = r.randn(*shp)
    if cplx:
        x = x + 1j * r.randn(*shp)
    return x


AUTORHO = {
    'off': {'Enabled': False},
    'p1': {'Enabled': True, 'Period': 1, 'AutoScaling': True,
           'Scaling': 1000.0, 'RsdlRatio': 1.2, 'RsdlTarget': 1.3,
           'StdResiduals': False},
    'p2std': {'Enabled': True, 'Period': 2, 'AutoScaling': False,
              'Scaling': 2.5, 'RsdlRatio': 1.1, 'RsdlTarget': 0.8,
              'StdResiduals': True},
    'p1cap': {'Enabled': True, 'Period': 1, 'AutoScaling': True,
              'Scaling': 1.25, 'RsdlRatio': 1.01, 'RsdlTarget': 1.0,
              'StdResiduals': False},
    'p3': {'Enabled': True, 'Period': 3, 'AutoScaling': False,
           'Scaling': 2.0, 'RsdlRatio': 10.0, 'RsdlTarget': 1.0,
           'StdResiduals': False},
    'offstd': {'Enabled': False, 'StdResiduals': True},
    # long traces only
    'd10': {'Enabled': True, 'Period': 10, 'AutoScaling': False,
            'Scaling': 2.0, 'RsdlRatio': 2.0, 'RsdlTarget': 1.0,
            'StdResiduals': False},
    'p7': {'Enabled': True, 'Period': 7, 'AutoScaling': True,
           'Scaling': 1000.0, 'RsdlRatio': 1.01, 'RsdlTarget': 0.7,
           'StdResiduals': False},
    'p4std': {'Enabled': True, 'Period': 4, 'AutoScaling': True,
              'Scaling': 50.0, 'RsdlRatio': 1.05, 'RsdlTarget': 1.5,
              'StdResiduals': True},
}
AR_DEF = {'Enabled': False, 'Period': 10, 'Scaling': 2.0, 'RsdlRatio': 10.0,
          'RsdlTarget': 1.0, 'AutoScaling': False, 'StdResiduals': False}


def ar(o):
    d = dict(AR_DEF)
    d.update(AUTORHO[o['AutoRho']])
    return d


class Entry(object):
    name = None
    rho = 0.7
    iters = 4
    tol = 1e-7
    start = ('zero', 'YU', 'Y')
    native_get = True
    returns = None

    def autorhos(self, tier):
        return ['off', 'p1', 'p2std'] if tier == 'quick' else \
            ['off', 'offstd', 'p1', 'p2std', 'p1cap', 'p3']

    def common_axes(self, tier):
        return OrderedDict([
            ('RelaxParam', [1.0, 1.8] if tier == 'quick'
             else [1.0, 1.5, 1.8]),
            ('AutoRho', self.autorhos(tier)),
            ('start', list(self.start)),
        ])

    def axes(self, tier, p):
        a = self.common_axes(tier)
        a.update(self.extra_axes(tier, p))
        return a

    def extra_axes(self, tier, p):
        return OrderedDict()

    def optdict(self, p, o):
        """options passed to the solver's Options class"""
        d = {'Verbose': False, 'MaxMainIter': self.iters,
             'RelStopTol': 1e-4, 'AbsStopTol': 1e-3,
             'rho': self.rho, 'RelaxParam': o['RelaxParam'],
             'AutoRho': dict(AUTORHO[o['AutoRho']])}
        d.update(self.extra_opts(p, o))
        return d

    def extra_opts(self, p, o):
        return {}

    def core(self, b):
        return b

    def get(self, b):
        return b.var_x(), b.var_y(), b.var_u()

    def build(self, p, o, extra=None):
        """construct the solver, with starting point per o['start']"""
        d = self.optdict(p, o)
        if extra:
            d.update(extra)
        if o.get('start', 'zero') != 'zero':
            y0, u0 = self.startpoint(p, o)
            d['Y0'] = y0
            if o['start'] == 'YU':
                d['U0'] = u0
        return self.make(p, o, d)

    def startpoint(self, p, o):
        k = (self.name, p['key'])
        if k not in _SHAPES:
            d = self.optdict(p, o)
            b = self.core(self.make(p, o, d))
            _SHAPES[k] = (np.shape(b.var_y()), np.shape(b.var_u()),
                          b.var_y().dtype)
        ys, us, dt = _SHAPES[k]
        r = rng('start', self.name, p['key'])
        y0 = randn(r, ys, dt.kind == 'c')
        y0[np.abs(y0) < 0.3] = 0.0
        u0 = 0.5 * randn(r, us, dt.kind == 'c')
        return y0, u0

    def xvar(self, st, flag):
        return st['x'] if flag else st['y']


_SHAPES = {}


# =========================================================== dense BPDN family
class BPDNBase(Entry):
    def probs(self, tier):
        ps = [dict(key='4x6x3', n=4, m=6, k=3), dict(key='6x4x2', n=6, m=4, k=2),
              dict(key='3x3x1', n=3, m=3, k=1)]
        if tier != 'quick':
            ps += [dict(key='1x3x2', n=1, m=3, k=2),
                   dict(key='5x1x2', n=5, m=1, k=2),
                   dict(key='3x5x2z', n=3, m=5, k=2, zero=1)]
        return ps

    def data(self, p):
        r = rng('bpdn', p['key'])
        D = randn(r, (p['n'], p['m']))
        S = randn(r, (p['n'], p['k']))
        if p.get('zero'):
            S = 0.0 * S
        return D, S

    def extra_axes(self, tier, p):
        return OrderedDict([('NonNegCoef', [False, True]),
                            ('LinSolveCheck', [False, True]),
                            ('AuxVarObj', [True, False])])

    def extra_opts(self, p, o):
        d = {k: o[k] for k in ('NonNegCoef', 'LinSolveCheck', 'AuxVarObj')}
        if 'L1Weight' in o:
            d['L1Weight'] = self.weight(p, o)
        return d

    def weight(self, p, o):
        if o.get('L1Weight', 'one') == 'one':
            return 1.0
        r = rng('w', p['key'])
        if o['L1Weight'] == 'col':
            return np.abs(randn(r, (p['m'], 1)))
        w = np.abs(randn(r, (p['m'], p['k'])))
        w.ravel()[0] = 0.0
        return w

    def mk(self, p):
        D, S = self.data(p)
        m = Admm((p['m'], p['k']), (p['m'], p['k']))
        m.F = lambda x: D @ x
        m.s = S
        return m, D, S

    def dfd(self, p, o, st):
        D, S = self.data(p)
        x = self.xvar(st, not o['AuxVarObj'])
        return 0.5 * n2(D @ x - S)**2

    def gv(self, o, st):
        return st['y'] if o['AuxVarObj'] else st['x']

    def retval(self, o, st):
        return st['y']


def nonneg(f, on):
    if not on:
        return f
    # the exact map for the sum of the regulariser and the constraint
    return lambda v, rho: f(np.maximum(v, 0.0), rho)


class BPDN(BPDNBase):
    name = 'admm.bpdn.BPDN'
    lmbda = 0.3

    def extra_axes(self, tier, p):
        a = BPDNBase.extra_axes(self, tier, p)
        a['L1Weight'] = ['one', 'col', 'full']
        return a

    def make(self, p, o, d):
        from sporco.admm import bpdn
        D, S = self.data(p)
        return bpdn.BPDN(D, S, self.lmbda, bpdn.BPDN.Options(d))

    def spec(self, p, o):
        m, D, S = self.mk(p)
        w = self.weight(p, o)
        m.prox = nonneg(lambda v, rho: soft(v, self.lmbda * w / rho),
                        o['NonNegCoef'])
        return m

    def stats(self, p, o, m, st):
        f = self.dfd(p, o, st)
        rl1 = n1(self.weight(p, o) * self.gv(o, st))
        return {'ObjFun': f + self.lmbda * rl1, 'DFid': f, 'RegL1': rl1}


class BPDNJoint(BPDN):
    name = 'admm.bpdn.BPDNJoint'
    mu = 0.2

    def make(self, p, o, d):
        from sporco.admm import bpdn
        D, S = self.data(p)
        return bpdn.BPDNJoint(D, S, self.lmbda, self.mu,
                              bpdn.BPDNJoint.Options(d))

    def spec(self, p, o):
        m, D, S = self.mk(p)
        w = self.weight(p, o)
        m.prox = nonneg(lambda v, rho: gsoft(
            soft(v, self.lmbda * w / rho), self.mu / rho, -1),
            o['NonNegCoef'])
        return m

    def stats(self, p, o, m, st):
        f = self.dfd(p, o, st)
        g = self.gv(o, st)
        rl1 = n1(self.weight(p, o) * g)
        rl21 = float(np.sum(np.sqrt(np.sum(g**2, axis=1))))
        return {'ObjFun': f + self.lmbda * rl1 + self.mu * rl21, 'DFid': f,
                'RegL1': rl1, 'RegL21': rl21}


class ElasticNet(BPDN):
    name = 'admm.bpdn.ElasticNet'
    mu = 0.4

    def make(self, p, o, d):
        from sporco.admm import bpdn
        D, S = self.data(p)
        return bpdn.ElasticNet(D, S, self.lmbda, self.mu,
                               bpdn.ElasticNet.Options(d))

    def spec(self, p, o):
        m = BPDN.spec(self, p, o)
        m.R = lambda x: self.mu * x
        return m

    def stats(self, p, o, m, st):
        f = self.dfd(p, o, st)
        g = self.gv(o, st)
        rl1 = n1(self.weight(p, o) * g)
        rl2 = 0.5 * n2(g)**2
        return {'ObjFun': f + self.lmbda * rl1 + self.mu * rl2, 'DFid': f,
                'RegL1': rl1, 'RegL2': rl2}


class BPDNProjL1(BPDNBase):
    name = 'admm.bpdn.BPDNProjL1'
    gamma = 0.8

    def make(self, p, o, d):
        from sporco.admm import bpdn
        D, S = self.data(p)
        return bpdn.BPDNProjL1(D, S, self.gamma, bpdn.BPDNProjL1.Options(d))

    def spec(self, p, o):
        m, D, S = self.mk(p)
        m.prox = nonneg(lambda v, rho: pball1(v, self.gamma, 0),
                        o['NonNegCoef'])
        return m

    def stats(self, p, o, m, st):
        g = self.gv(o, st)
        return {'ObjFun': self.dfd(p, o, st),
                'Cnstr': n2(pball1(g, self.gamma, 0) - g)}


class MinL1InL2Ball(BPDNBase):
    name = 'admm.bpdn.MinL1InL2Ball'
    eps = 0.6

    def extra_axes(self, tier, p):
        return OrderedDict([('NonNegCoef', [False, True]),
                            ('AuxVarObj', [True, False]),
                            ('L1Weight', ['one', 'col', 'full']),
                            ('ReturnVar', ['X', 'Y0', 'Y1'])])

    def extra_opts(self, p, o):
        return {'NonNegCoef': o['NonNegCoef'], 'AuxVarObj': o['AuxVarObj'],
                'L1Weight': self.weight(p, o), 'ReturnVar': o['ReturnVar']}

    def make(self, p, o, d):
        from sporco.admm import bpdn
        D, S = self.data(p)
        return bpdn.MinL1InL2Ball(D, S, self.eps,
                                  bpdn.MinL1InL2Ball.Options(d))

    def spec(self, p, o):
        D, S = self.data(p)
        M = p['m']
        w = self.weight(p, o)
        m = Admm((M, p['k']), (M + p['n'], p['k']))
        m.A = lambda x: np.concatenate((x, D @ x), axis=0)
        m.F = lambda x: 0.0 * x
        m.s = np.zeros((M, p['k']))
        m.dualres = 'u'

        def prox(v, rho):
            y0 = soft(v[:M], w / rho)
            if o['NonNegCoef']:
                y0 = np.maximum(y0, 0.0)
            return np.concatenate((y0, S + pball2(v[M:] - S, self.eps, 0)),
                                  axis=0)
        m.prox = prox
        return m

    def stats(self, p, o, m, st):
        D, S = self.data(p)
        M = p['m']
        if o['AuxVarObj']:
            a, b = st['y'][:M], st['y'][M:]
        else:
            a, b = st['x'], D @ st['x']
        return {'ObjFun': n1(self.weight(p, o) * a),
                'Cnstr': n2(S + pball2(b - S, self.eps, 0) - b)}

    def retval(self, o, st):
        M = st['x'].shape[0]
        return {'X': st['x'], 'Y0': st['y'][:M], 'Y1': st['y'][M:]}[
            o['ReturnVar']]


# ================================================================ CnstrMOD
class CnstrMOD(Entry):
    name = 'admm.cmod.CnstrMOD'

    def probs(self, tier):
        ps = [dict(key='4,3,6', n=4, m=3, k=6), dict(key='3,5,2', n=3, m=5, k=2)]
        if tier != 'quick':
            ps += [dict(key='5,1,3', n=5, m=1, k=3),
                   dict(key='2,2,1', n=2, m=2, k=1)]
        return ps

    def data(self, p):
        r = rng('cmod', p['key'])
        return randn(r, (p['m'], p['k'])), randn(r, (p['n'], p['k']))

    def extra_axes(self, tier, p):
        return OrderedDict([('ZeroMean', [False, True]),
                            ('AuxVarObj', [True, False]),
                            ('late', [False, True])])

    def extra_opts(self, p, o):
        return {k: o[k] for k in ('ZeroMean', 'AuxVarObj')}

    def make(self, p, o, d):
        from sporco.admm import cmod
        Z, S = self.data(p)
        if o['late']:
            b = cmod.CnstrMOD(None, S, (p['m'], p['n']),
                              cmod.CnstrMOD.Options(d))
            b.setcoef(Z)
            return b
        return cmod.CnstrMOD(Z, S, None, cmod.CnstrMOD.Options(d))

    def spec(self, p, o):
        Z, S = self.data(p)
        m = Admm((p['n'], p['m']), (p['n'], p['m']))
        m.F = lambda x: x @ Z
        m.s = S
        m.prox = lambda v, rho: self.P(v, o)
        return m

    @staticmethod
    def P(v, o):
        if o['ZeroMean']:
            v = v - np.mean(v, axis=0, keepdims=True)
        n = np.sqrt(np.sum(v**2, axis=0, keepdims=True))
        return np.divide(v, n, out=np.zeros_like(v), where=n != 0)

    def stats(self, p, o, m, st):
        Z, S = self.data(p)
        x = self.xvar(st, not o['AuxVarObj'])
        g = st['y'] if o['AuxVarObj'] else st['x']
        return {'DFid': 0.5 * n2(x @ Z - S)**2, 'Cnstr': n2(self.P(g, o) - g)}

    def retval(self, o, st):
        return st['y']


# ======================================================== convolutional family
CP = {
    # name: dimN, Nv, dsz, D channels, S channels, K, M
    '2d': dict(N=(4, 3), d=(2, 2), Cd=0, C=0, K=0, M=2),
    '2dK': dict(N=(3, 4), d=(2, 3), Cd=0, C=0, K=2, M=2),
    '2dC': dict(N=(4, 3), d=(2, 2), Cd=0, C=2, K=0, M=2, dimK=0),
    '2dCK': dict(N=(3, 3), d=(2, 2), Cd=0, C=2, K=2, M=2),
    '2dCd': dict(N=(3, 4), d=(2, 2), Cd=2, C=2, K=0, M=3),
    '2dCdK': dict(N=(3, 3), d=(2, 2), Cd=2, C=2, K=2, M=2),
    '1d': dict(N=(5,), d=(3,), Cd=0, C=0, K=0, M=2),
    '1dK': dict(N=(6,), d=(2,), Cd=0, C=0, K=3, M=2),
    '1dCd': dict(N=(5,), d=(2,), Cd=3, C=3, K=0, M=2),
    '3d': dict(N=(3, 2, 3), d=(2, 2, 2), Cd=0, C=0, K=0, M=2),
    '2dM1': dict(N=(4, 4), d=(2, 1), Cd=0, C=0, K=0, M=1),
    '2dz': dict(N=(3, 3), d=(2, 2), Cd=0, C=0, K=0, M=2, zero=1),
    '2dfull': dict(N=(3, 4), d=(3, 4), Cd=0, C=0, K=0, M=2),
    '2dcplx': dict(N=(3, 4), d=(2, 2), Cd=0, C=0, K=0, M=2, cplx=1),
    '1dcplx': dict(N=(5,), d=(2,), Cd=0, C=0, K=2, M=2, cplx=1),
    '2dCdcplx': dict(N=(3, 3), d=(2, 2), Cd=2, C=2, K=0, M=2, cplx=1),
    '2dCd1': dict(N=(3, 3), d=(2, 2), Cd=1, C=1, K=2, M=2),
}


def cprob(names):
    out = []
    for n in names:
        p = dict(CP[n])
        p['key'] = n
        p['N'] = list(p['N'])
        p['d'] = list(p['d'])
        out.append(p)
    return out


class ConvBase(Entry):
    cplx_ok = True

    def probs(self, tier):
        ns = ['2d', '2dK', '2dC', '2dCK', '2dCd', '2dCdK', '1d', '1dK',
              '1dCd', '3d', '2dM1', '2dfull']
        if self.cplx_ok:
            ns += ['2dcplx', '2dCdcplx']
        if tier != 'quick':
            ns += ['2dz', '2dCd1'] + (['1dcplx'] if self.cplx_ok else [])
        return cprob(ns)

    def arrays(self, p):
        """D, S as the user passes them"""
        r = rng('conv', p['key'])
        cx = bool(p.get('cplx'))
        D = randn(r, tuple(p['d']) + ((p['Cd'],) if p['Cd'] else ()) +
                  (p['M'],), cx)
        S = randn(r, tuple(p['N']) + ((p['C'],) if p['C'] else ()) +
                  ((p['K'],) if p['K'] else ()), cx)
        if p.get('zero'):
            S = S * 0
        return D, S

    def kw(self, p):
        k = {'dimN': len(p['N'])}
        if 'dimK' in p:
            k['dimK'] = p['dimK']
        return k

    def dims(self, p):
        dimN = len(p['N'])
        Cd = p['Cd'] or 1
        C = p['C'] or 1
        K = p['K'] or 1
        Cx = 1 if Cd > 1 else C
        return dimN, tuple(p['N']), Cd, C, K, Cx, p['M']

    def std(self, p):
        """D, S in standard layout"""
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        D, S = self.arrays(p)
        return (D.reshape(tuple(p['d']) + (Cd, 1, M)),
                S.reshape(Nv + (C, K, 1)))

    def xshape(self, p):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        return Nv + (Cx, K, M)

    # weights
    def l1w(self, p, o):
        """(value passed, value in standard layout)"""
        k = o.get('L1Weight', 'one')
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        if k == 'one':
            return 1.0, 1.0
        if k == 'scalar':
            return 0.6, 0.6
        r = rng('l1w', p['key'], k)
        if k == 'full':          # all dimensions explicit
            w = np.abs(randn(r, Nv + (Cx, K, M)))
            w.ravel()[1] = 0.0
            return w, w
        if k == 'M':             # filter dependent only
            w = np.abs(randn(r, (1,) * (dimN + 2) + (M,)))
            return w, w
        raise ValueError(k)

    def extra_axes(self, tier, p):
        a = OrderedDict()
        a['L1Weight'] = ['one', 'full'] if tier == 'quick' else \
            ['one', 'scalar', 'full', 'M']
        a['NonNegCoef'] = [False] if p.get('cplx') else [False, True]
        a['NoBndryCross'] = [False, True]
        a['HighMemSolve'] = [False, True]
        a['LinSolveCheck'] = [False, True] if tier != 'quick' else [True]
        a['AuxVarObj'] = [False, True]
        if tier == 'quick' and p['key'] not in ('2d', '2dCK', '2dCdK'):
            # reduced product for the secondary layouts
            a['NoBndryCross'] = [True] if p['key'] in ('2dfull', '1dCd', '2dM1') \
                else [False]
            a['AuxVarObj'] = [False]
        return a

    optnames = ('NonNegCoef', 'NoBndryCross', 'HighMemSolve',
                'LinSolveCheck', 'AuxVarObj')

    def extra_opts(self, p, o):
        d = {k: o[k] for k in self.optnames if k in o}
        if 'L1Weight' in o:
            d['L1Weight'] = self.l1w(p, o)[0]
        return d

    def post(self, p, o, y):
        """non-negativity and boundary options"""
        if o.get('NonNegCoef'):
            y = np.maximum(y, 0.0)
        if o.get('NoBndryCross'):
            y = y.copy()
            for n in range(len(p['N'])):
                if p['d'][n] > 1:
                    sl = [slice(None)] * y.ndim
                    sl[n] = slice(p['N'][n] - p['d'][n] + 1, None)
                    y[tuple(sl)] = 0.0
        return y

    def model(self, p, cls=Admm):
        dimN = len(p['N'])
        D, S = self.std(p)
        xs = self.xshape(p)
        m = cls(xs, xs)
        m.cplx = bool(p.get('cplx'))
        m.F = lambda x: ref.synth(D, x, dimN)
        m.s = S
        return m

    def dfd(self, p, o, st):
        D, S = self.std(p)
        x = self.xvar(st, not o['AuxVarObj'])
        return 0.5 * n2(ref.synth(D, x, len(p['N'])) - S)**2

    def gv(self, o, st):
        return st['y'] if o['AuxVarObj'] else st['x']

    def retval(self, o, st):
        return st['y']

    def recon(self, p, o, st):
        """expected value of reconstruct()"""
        D, S = self.std(p)
        return ref.synth(D, st['y'], len(p['N']))


class ConvBPDN(ConvBase):
    name = 'admm.cbpdn.ConvBPDN'
    lmbda = 0.3

    def make(self, p, o, d):
        from sporco.admm import cbpdn
        D, S = self.arrays(p)
        return cbpdn.ConvBPDN(D, S, self.lmbda, cbpdn.ConvBPDN.Options(d),
                              **self.kw(p))

    def spec(self, p, o):
        m = self.model(p)
        w = self.l1w(p, o)[1]
        m.prox = lambda v, rho: self.post(
            p, o, soft(v, self.lmbda * w / rho))
        return m

    def stats(self, p, o, m, st):
        f = self.dfd(p, o, st)
        rl1 = n1(self.l1w(p, o)[1] * self.gv(o, st))
        return {'ObjFun': f + self.lmbda * rl1, 'DFid': f, 'RegL1': rl1}


class ConvBPDNJoint(ConvBPDN):
    name = 'admm.cbpdn.ConvBPDNJoint'
    mu = 0.25
    cplx_ok = False

    def extra_axes(self, tier, p):
        a = ConvBPDN.extra_axes(self, tier, p)
        a['L21Weight'] = [1.0, 0.5]
        if tier == 'quick':
            a['NoBndryCross'] = [False]
        return a

    optnames = ConvBPDN.optnames + ('L21Weight',)

    def make(self, p, o, d):
        from sporco.admm import cbpdn
        D, S = self.arrays(p)
        return cbpdn.ConvBPDNJoint(D, S, self.lmbda, self.mu,
                                   cbpdn.ConvBPDNJoint.Options(d),
                                   **self.kw(p))

    def spec(self, p, o):
        m = self.model(p)
        w = self.l1w(p, o)[1]
        ax = len(p['N'])
        m.prox = lambda v, rho: gsoft(
            soft(self.post(p, o, v), self.lmbda * w / rho),
            self.mu * o['L21Weight'] / rho, ax)
        return m

    def stats(self, p, o, m, st):
        f = self.dfd(p, o, st)
        g = self.gv(o, st)
        rl1 = n1(self.l1w(p, o)[1] * g)
        rl21 = float(o['L21Weight'] * np.sum(np.sqrt(np.sum(
            g**2, axis=len(p['N'])))))
        return {'ObjFun': f + self.lmbda * rl1 + self.mu * rl21, 'DFid': f,
                'RegL1': rl1, 'RegL21': rl21}


class ConvElasticNet(ConvBPDN):
    name = 'admm.cbpdn.ConvElasticNet'
    mu = 0.35

    def make(self, p, o, d):
        from sporco.admm import cbpdn
        D, S = self.arrays(p)
        return cbpdn.ConvElasticNet(D, S, self.lmbda, self.mu,
                                    cbpdn.ConvElasticNet.Options(d),
                                    **self.kw(p))

    def spec(self, p, o):
        m = ConvBPDN.spec(self, p, o)
        m.R = lambda x: self.mu * x
        return m

    def stats(self, p, o, m, st):
        f = self.dfd(p, o, st)
        g = self.gv(o, st)
        rl1 = n1(self.l1w(p, o)[1] * g)
        rl2 = 0.5 * n2(g)**2
        return {'ObjFun': f + self.lmbda * rl1 + self.mu * rl2, 'DFid': f,
                'RegL1': rl1, 'RegL2': rl2}


def gradw(p, o, name):
    """per-filter weights: (passed, standard layout)"""
    dimN = len(p['N'])
    if o[name] == 'one':
        return 1.0, 1.0
    if o[name] == 'scalar':
        return 0.6, 0.6
    r = rng(name, p['key'])
    w = 0.3 + np.abs(randn(r, (p['M'],)))
    return w, w.reshape((1,) * (dimN + 2) + (p['M'],))


def lap(x, dimN):
    """G^H G x for circular differences on the leading axes"""
    out = 0.0
    for a in range(dimN):
        out = out + 2 * x - np.roll(x, 1, axis=a) - np.roll(x, -1, axis=a)
    return out


class ConvBPDNGradReg(ConvBPDN):
    name = 'admm.cbpdn.ConvBPDNGradReg'
    mu = 0.35

    def probs(self, tier):
        ps = ConvBPDN.probs(self, tier)
        return ps

    def extra_axes(self, tier, p):
        a = ConvBPDN.extra_axes(self, tier, p)
        a['GradWeight'] = ['one', 'arr']
        if tier == 'quick':
            a['NoBndryCross'] = [False]
        return a

    def extra_opts(self, p, o):
        d = ConvBPDN.extra_opts(self, p, o)
        d['GradWeight'] = gradw(p, o, 'GradWeight')[0]
        return d

    def make(self, p, o, d):
        from sporco.admm import cbpdn
        D, S = self.arrays(p)
        return cbpdn.ConvBPDNGradReg(D, S, self.lmbda, self.mu,
                                     cbpdn.ConvBPDNGradReg.Options(d),
                                     **self.kw(p))

    def spec(self, p, o):
        m = ConvBPDN.spec(self, p, o)
        w = gradw(p, o, 'GradWeight')[1]
        m.R = lambda x: self.mu * w * lap(x, len(p['N']))
        return m

    def stats(self, p, o, m, st):
        f = self.dfd(p, o, st)
        rl1 = n1(self.l1w(p, o)[1] * self.gv(o, st))
        x = self.xvar(st, not o['AuxVarObj'])
        w = gradw(p, o, 'GradWeight')[1]
        rgr = 0.5 * float(np.sum((np.conj(x) * w * lap(x, len(p['N']))).real))
        return {'ObjFun': f + self.lmbda * rl1 + self.mu * rgr, 'DFid': f,
                'RegL1': rl1, 'RegGrad': rgr}


class ConvBPDNProjL1(ConvBase):
    name = 'admm.cbpdn.ConvBPDNProjL1'
    gamma = 1.1
    cplx_ok = False

    def extra_axes(self, tier, p):
        a = ConvBase.extra_axes(self, tier, p)
        del a['L1Weight']
        return a

    def make(self, p, o, d):
        from sporco.admm import cbpdn
        D, S = self.arrays(p)
        return cbpdn.ConvBPDNProjL1(D, S, self.gamma,
                                    cbpdn.ConvBPDNProjL1.Options(d),
                                    **self.kw(p))

    def pax(self, p):
        dimN = len(p['N'])
        return tuple(range(dimN)) + (dimN, dimN + 2)

    def spec(self, p, o):
        m = self.model(p)
        m.prox = lambda v, rho: pball1(self.post(p, o, v), self.gamma,
                                       self.pax(p))
        return m

    def stats(self, p, o, m, st):
        g = self.gv(o, st)
        return {'ObjFun': self.dfd(p, o, st),
                'Cnstr': n2(pball1(g, self.gamma, self.pax(p)) - g)}


# ---------------------------------------------------- two-block conv. family
class ConvTwoBlock(ConvBase):
    """y = (y0, y1), flattened and concatenated; y0 in signal layout"""

    def extra_axes(self, tier, p):
        a = ConvBase.extra_axes(self, tier, p)
        a['ReturnVar'] = ['Y1'] if tier == 'quick' else ['X', 'Y0', 'Y1']
        return a

    optnames = ConvBase.optnames + ('ReturnVar',)

    def get(self, b):
        y = b.var_y()
        u = b.var_u()
        return (b.var_x(),
                np.concatenate([b.block_sep0(y).ravel(),
                                b.block_sep1(y).ravel()]),
                np.concatenate([b.block_sep0(u).ravel(),
                                b.block_sep1(u).ravel()]))

    def split(self, p, y):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        n = int(np.prod(Nv)) * C * K
        return y[:n].reshape(Nv + (C, K, 1)), y[n:].reshape(self.xshape(p))

    def model(self, p):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        D, S = self.std(p)
        xs = self.xshape(p)
        n0 = int(np.prod(Nv)) * C * K
        c = np.concatenate([S.ravel(), np.zeros(int(np.prod(xs)))])
        m = Admm(xs, c.shape, c)
        m.cplx = bool(p.get('cplx'))
        m.A = lambda x: np.concatenate(
            [ref.synth(D, x, dimN).ravel(), x.ravel()])
        m.F = lambda x: 0.0 * x
        m.s = np.zeros(xs)
        m.dualres = 'u'
        return m

    def g01(self, p, o, st):
        D, S = self.std(p)
        if o['AuxVarObj']:
            return self.split(p, st['y'])
        return ref.synth(D, st['x'], len(p['N'])) - S, st['x']

    def retval(self, o, st):
        return None

    def retval_p(self, p, o, st):
        y0, y1 = self.split(p, st['y'])
        return {'X': st['x'], 'Y0': y0, 'Y1': y1}[o['ReturnVar']]

    def recon(self, p, o, st):
        D, S = self.std(p)
        return ref.synth(D, st['x'], len(p['N']))


class ConvMinL1InL2Ball(ConvTwoBlock):
    name = 'admm.cbpdn.ConvMinL1InL2Ball'
    eps = 0.7
    cplx_ok = False

    def make(self, p, o, d):
        from sporco.admm import cbpdn
        D, S = self.arrays(p)
        return cbpdn.ConvMinL1InL2Ball(D, S, self.eps,
                                       cbpdn.ConvMinL1InL2Ball.Options(d),
                                       **self.kw(p))

    def spec(self, p, o):
        m = self.model(p)
        w = self.l1w(p, o)[1]
        axN = tuple(range(len(p['N'])))

        def prox(v, rho):
            v0, v1 = self.split(p, v)
            return np.concatenate([
                pball2(v0, self.eps, axN).ravel(),
                self.post(p, o, soft(v1, w / rho)).ravel()])
        m.prox = prox
        return m

    def stats(self, p, o, m, st):
        y0, y1 = self.g01(p, o, st)
        axN = tuple(range(len(p['N'])))
        return {'ObjFun': n1(self.l1w(p, o)[1] * y1),
                'Cnstr': n2(pball2(y0, self.eps, axN) - y0)}


def maskarr(p, kind, dims):
    """(passed, standard layout) mask"""
    dimN, Nv, Cd, C, K, Cx, M = dims
    if kind == 'none':
        return None, 1.0
    r = rng('mask', p['key'], kind)
    if kind == 'shared':
        w = (r.rand(*Nv) > 0.3).astype(float)
        return w, w.reshape(Nv + (1, 1, 1))
    if kind == 'gray':
        w = r.rand(*Nv)
        w.ravel()[0] = 0.0
        return w, w.reshape(Nv + (1, 1, 1))
    # one mask per signal, as the signal array is laid out
    shp = Nv + ((C,) if p['C'] else ()) + ((K,) if p['K'] else ())
    w = (r.rand(*shp) > 0.3).astype(float)
    return w, w.reshape(Nv + (C, K, 1))


class ConvBPDNMaskDcpl(ConvTwoBlock):
    name = 'admm.cbpdn.ConvBPDNMaskDcpl'
    lmbda = 0.3

    def extra_axes(self, tier, p):
        a = ConvTwoBlock.extra_axes(self, tier, p)
        a['W'] = ['none', 'shared', 'persig'] if tier == 'quick' else \
            ['none', 'shared', 'gray', 'persig']
        if tier == 'quick':
            a['NoBndryCross'] = [False]
        return a

    def make(self, p, o, d):
        from sporco.admm import cbpdn
        D, S = self.arrays(p)
        W = maskarr(p, o['W'], self.dims(p))[0]
        return cbpdn.ConvBPDNMaskDcpl(
            D, S, self.lmbda, W, cbpdn.ConvBPDNMaskDcpl.Options(d),
            **self.kw(p))

    def spec(self, p, o):
        m = self.model(p)
        w = self.l1w(p, o)[1]
        W = maskarr(p, o['W'], self.dims(p))[1]

        def prox(v, rho):
            v0, v1 = self.split(p, v)
            return np.concatenate([
                (rho * v0 / (W**2 + rho)).ravel(),
                self.post(p, o, soft(v1, self.lmbda * w / rho)).ravel()])
        m.prox = prox
        return m

    def stats(self, p, o, m, st):
        y0, y1 = self.g01(p, o, st)
        W = maskarr(p, o['W'], self.dims(p))[1]
        f = 0.5 * n2(W * y0)**2
        r = n1(self.l1w(p, o)[1] * y1)
        return {'ObjFun': f + self.lmbda * r, 'DFid': f, 'RegL1': r}


class ConvL1L1Grd(ConvBPDNMaskDcpl):
    name = 'admm.cbpdn.ConvL1L1Grd'
    mu = 0.4

    def extra_axes(self, tier, p):
        a = ConvBPDNMaskDcpl.extra_axes(self, tier, p)
        a['GradWeight'] = ['one', 'arr']
        if tier == 'quick':
            a['W'] = ['none', 'persig']
        return a

    def extra_opts(self, p, o):
        d = ConvBPDNMaskDcpl.extra_opts(self, p, o)
        d['GradWeight'] = gradw(p, o, 'GradWeight')[0]
        return d

    def make(self, p, o, d):
        from sporco.admm import cbpdn
        D, S = self.arrays(p)
        W = maskarr(p, o['W'], self.dims(p))[0]
        return cbpdn.ConvL1L1Grd(
            D, S, self.lmbda, self.mu, W, cbpdn.ConvL1L1Grd.Options(d),
            **self.kw(p))

    def spec(self, p, o):
        m = self.model(p)
        m.dualres = 'std'
        w = self.l1w(p, o)[1]
        W = maskarr(p, o['W'], self.dims(p))[1]
        gw = gradw(p, o, 'GradWeight')[1]
        m.R = lambda x: self.mu * gw * lap(x, len(p['N']))

        def prox(v, rho):
            v0, v1 = self.split(p, v)
            return np.concatenate([
                soft(v0, W / rho).ravel(),
                self.post(p, o, soft(v1, self.lmbda * w / rho)).ravel()])
        m.prox = prox
        return m

    def stats(self, p, o, m, st):
        y0, y1 = self.g01(p, o, st)
        W = maskarr(p, o['W'], self.dims(p))[1]
        gw = gradw(p, o, 'GradWeight')[1]
        x = st['x']
        f = n1(W * y0)
        r = n1(self.l1w(p, o)[1] * y1)
        g = 0.5 * float(np.sum((np.conj(x) * gw * lap(x, len(p['N']))).real))
        return {'ObjFun': f + self.lmbda * r + self.mu * g, 'DFid': f,
                'RegL1': r, 'RegGrad': g}
