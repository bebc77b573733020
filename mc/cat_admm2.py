"""Catalogue of ADMM solver classes, second part."""
from mc.cat_admm import *
from mc.cat_admm import _SHAPES


# ------------------------------------------------- TV-regularised CSC
class ConvBPDNScalarTV(ConvBPDN):
    name = 'admm.cbpdntv.ConvBPDNScalarTV'
    mu = 0.25
    cplx_ok = False
    clsname = 'ConvBPDNScalarTV'

    def probs(self, tier):
        ps = ConvBPDN.probs(self, tier)
        if tier == 'quick':
            ps = [p for p in ps if p['key'] not in ('2dfull', '1dCd')]
        return ps

    def extra_axes(self, tier, p):
        a = OrderedDict()
        a['L1Weight'] = ['one', 'full']
        a['TVWeight'] = ['one', 'arr']
        a['HighMemSolve'] = [False, True]
        a['LinSolveCheck'] = [True] if tier == 'quick' else [False, True]
        a['AuxVarObj'] = [False, True]
        return a

    matopts = ('TVWeight',)

    def extra_opts(self, p, o):
        d = ConvBPDN.extra_opts(self, p, o)
        d['TVWeight'] = gradw(p, o, 'TVWeight')[0]
        return d

    def make(self, p, o, d):
        from sporco.admm import cbpdntv
        cls = getattr(cbpdntv, self.clsname)
        D, S = self.arrays(p)
        return cls(D, S, self.lmbda, self.mu, cls.Options(d), **self.kw(p))

    gax = (-1,)

    def spec(self, p, o):
        dimN = len(p['N'])
        D, S = self.std(p)
        xs = self.xshape(p)
        m = Admm(xs, xs + (dimN + 1,))
        m.F = lambda x: ref.synth(D, x, dimN)
        m.s = S
        wt = gradw(p, o, 'TVWeight')[1]
        w = self.l1w(p, o)[1]

        def A(x):
            g = ref.cgrad(wt * x, range(dimN))
            return np.concatenate((g, x[..., None]), axis=-1)
        m.A = A
        gax = self.axes_g(dimN)

        def prox(v, rho):
            return np.concatenate(
                (gsoft(v[..., :-1], self.mu / rho, gax),
                 soft(v[..., -1], self.lmbda * w / rho)[..., None]), axis=-1)
        m.prox = prox
        return m

    def axes_g(self, dimN):
        return (-1,)

    def stats(self, p, o, m, st):
        dimN = len(p['N'])
        D, S = self.std(p)
        x = st['y'][..., -1] if o['AuxVarObj'] else st['x']
        f = 0.5 * n2(ref.synth(D, x, dimN) - S)**2
        g = st['y'] if o['AuxVarObj'] else st['Ax']
        rl1 = n1(self.l1w(p, o)[1] * (
            g[..., -1] if True else 0)) if o['L1Weight'] == 'one' else \
            n1(self.l1w(p, o)[1] * g[..., -1])
        rtv = float(np.sum(np.sqrt(np.sum(
            g[..., :-1]**2, axis=self.axes_g(dimN)))))
        return {'ObjFun': f + self.lmbda * rl1 + self.mu * rtv, 'DFid': f,
                'RegL1': rl1, 'RegTV': rtv}

    def retval(self, o, st):
        return st['y'][..., -1]

    def recon(self, p, o, st):
        D, S = self.std(p)
        return ref.synth(D, st['x'], len(p['N']))


class ConvBPDNVectorTV(ConvBPDNScalarTV):
    name = 'admm.cbpdntv.ConvBPDNVectorTV'
    clsname = 'ConvBPDNVectorTV'

    def axes_g(self, dimN):
        return (dimN + 2, -1)


class ConvBPDNRecTV(ConvBPDNScalarTV):
    name = 'admm.cbpdntv.ConvBPDNRecTV'
    clsname = 'ConvBPDNRecTV'

    def extra_axes(self, tier, p):
        a = ConvBPDNScalarTV.extra_axes(self, tier, p)
        del a['HighMemSolve']
        return a

    def get(self, b):
        return b.var_x(), self.flat(b, b.var_y()), self.flat(b, b.var_u())

    def flat(self, b, y):
        return np.concatenate([b.block_sep0(y).ravel(),
                               b.block_sep1(y).ravel()])

    def split(self, p, y):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        xs = self.xshape(p)
        n = int(np.prod(xs))
        return y[:n].reshape(xs), y[n:].reshape(Nv + (C, K, 1, dimN))

    def spec(self, p, o):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        D, S = self.std(p)
        xs = self.xshape(p)
        m = Admm(xs, (int(np.prod(xs)) + int(np.prod(Nv)) * C * K * dimN,))
        m.F = lambda x: ref.synth(D, x, dimN)
        m.s = S
        wt = gradw(p, o, 'TVWeight')[1]
        w = self.l1w(p, o)[1]
        m.A = lambda x: np.concatenate(
            [x.ravel(),
             ref.cgrad(ref.synth(wt * D, x, dimN), range(dimN)).ravel()])

        def prox(v, rho):
            a, g = self.split(p, v)
            return np.concatenate(
                [soft(a, self.lmbda * w / rho).ravel(),
                 gsoft(g, self.mu / rho, (dimN, -1)).ravel()])
        m.prox = prox
        return m

    def stats(self, p, o, m, st):
        dimN = len(p['N'])
        D, S = self.std(p)
        a, g = self.split(p, st['y'] if o['AuxVarObj'] else st['Ax'])
        f = 0.5 * n2(ref.synth(D, a, dimN) - S)**2
        rl1 = n1(self.l1w(p, o)[1] * a)
        rtv = float(np.sum(np.sqrt(np.sum(g**2, axis=(dimN, -1)))))
        return {'ObjFun': f + self.lmbda * rl1 + self.mu * rtv, 'DFid': f,
                'RegL1': rl1, 'RegTV': rtv}

    def retval(self, o, st):
        return None

    def retval_p(self, p, o, st):
        return self.split(p, st['y'])[0]


# ---------------------------------------------------------- inhibition
class ConvBPDNInhib(ConvBPDN):
    name = 'admm.cbpdnin.ConvBPDNInhib'
    cplx_ok = False

    def probs(self, tier):
        ps = [dict(key='in2d', N=[4, 5], d=[2, 2], Cd=0, C=0, K=0, M=3),
              dict(key='in2dCK', N=[3, 4], d=[3, 3], Cd=0, C=2, K=2, M=3),
              dict(key='in1d', N=[6], d=[3], Cd=0, C=0, K=0, M=4)]
        if tier != 'quick':
            ps += [dict(key='in2dCd', N=[4, 4], d=[2, 3], Cd=2, C=2, K=0,
                        M=3),
                   dict(key='in3d', N=[3, 3, 3], d=[2, 2, 2], Cd=0, C=0,
                        K=0, M=3)]
        return ps

    def extra_axes(self, tier, p):
        a = OrderedDict()
        a['L1Weight'] = ['one', 'full']
        a['NonNegCoef'] = [False, True]
        a['NoBndryCross'] = [False, True]
        a['inh'] = ['lat', 'self', 'both', 'none']
        a['win'] = [None, 3] if tier == 'quick' else [None, 2, 3]
        a['SmoothWeight'] = [0.9, 0.25]
        a['AuxVarObj'] = [False, True]
        return a

    optnames = ('NonNegCoef', 'NoBndryCross', 'AuxVarObj', 'SmoothWeight')

    def inh(self, p, o):
        M = p['M']
        Wg = np.zeros((2, M))
        Wg[0, :2] = 1
        Wg[1, 1:] = 1
        if o['inh'] in ('self', 'none'):
            Wg = None
        mu = 0.4 if o['inh'] in ('lat', 'both') else 0.0
        ga = 0.3 if o['inh'] in ('self', 'both') else 0.0
        return Wg, mu, ga

    def make(self, p, o, d):
        from sporco.admm import cbpdnin
        D, S = self.arrays(p)
        Wg, mu, ga = self.inh(p, o)
        return cbpdnin.ConvBPDNInhib(
            D, S, Wg, o['win'], None, self.lmbda, mu, ga,
            cbpdnin.ConvBPDNInhib.Options(d), **self.kw(p))

    def window(self, p, o):
        """separable, geometric-mean combined Tukey window centred at 0"""
        from scipy.signal import get_window
        dimN = len(p['N'])
        n = o['win'] if o['win'] is not None else p['d'][0]
        if n % 2 == 0:
            n += 1
        w1 = get_window(('tukey', 0.5), n)
        h = np.zeros(tuple(p['N']))
        for j in itertools.product(range(n), repeat=dimN):
            v = 1.0
            for k in j:
                v *= w1[k]
            h[tuple((k - n // 2) % N for k, N in zip(j, p['N']))] = \
                v ** (1.0 / dimN)
        return h

    def spec(self, p, o):
        m = self.model(p)
        w = self.l1w(p, o)[1]
        Wg, mu, ga = self.inh(p, o)
        sm = o['SmoothWeight']
        dimN = len(p['N'])
        hl = self.window(p, o)
        hs = hl.copy()
        hs[(0,) * dimN] = 0.0
        ex = (Ellipsis, None, None, None)
        base_step = m.step

        def step(st, rlx):
            wml, wms = st['wml'], st['wms']
            m.prox = lambda v, rho: self.post(p, o, soft(
                v, (self.lmbda * w + mu * wml + ga * wms) / rho))
            r = base_step(st, rlx)
            a = np.abs(r['x'])
            r['wml'], r['wms'] = wml, wms
            if Wg is not None and mu > 0:
                ca = ref.cconv(hl[ex], a, dimN)
                lat = np.zeros_like(ca)
                for g in range(Wg.shape[0]):
                    idx = np.nonzero(Wg[g])[0]
                    for i in idx:
                        for j in idx:
                            if i != j:
                                lat[..., i] += ca[..., j]
                r['wml'] = sm * wml + (1 - sm) * lat
            if ga > 0:
                r['wms'] = sm * wms + (1 - sm) * ref.cconv(hs[ex], a, dimN)
            return r
        m.step = step
        m.hidden0 = lambda b, st: {'wml': 0.0, 'wms': 0.0}
        return m

    def stats(self, p, o, m, st):
        Wg, mu, ga = self.inh(p, o)
        f = self.dfd(p, o, st)
        g = self.gv(o, st)
        rl1 = n1(self.l1w(p, o)[1] * g)
        rm = n1(st['wml'] * g)
        rs = n1(st['wms'] * g)
        return {'ObjFun': f + self.lmbda * rl1 + mu * rm + ga * rs,
                'DFid': f, 'RegL1': rl1, 'RegLat': rm, 'RegSelf': rs}


# ------------------------------------------------------- wrappers
class AddMaskSim(ConvBPDN):
    name = 'admm.cbpdn.AddMaskSim'
    cplx_ok = False

    def probs(self, tier):
        q = cprob(['2d', '2dK', '2dCd', '2dCdK', '1d', '2dC', '2dCK'])
        return q + [dict(x, key=x['key'] + 'def', defN=True)
                    for x in cprob(['2dCdK'])]

    def core(self, b):
        return getattr(b, 'cbpdn', b)

    def get(self, b):
        return ConvBPDN.get(self, self.core(b))

    def extra_axes(self, tier, p):
        a = OrderedDict()
        a['W'] = ['shared', 'persig']
        a['L1Weight'] = ['one', 'full']
        a['NonNegCoef'] = [False, True]
        a['NoBndryCross'] = [False, True]
        a['HighMemSolve'] = [False, True]
        a['AuxVarObj'] = [False, True]
        return a

    def l1w(self, p, o):
        if o['L1Weight'] == 'one':
            return 1.0, 1.0
        r = rng('l1wams', p['key'])
        w = np.abs(randn(r, self.xshape(p)))
        return w, w

    def valid(self, p, o):
        return True

    def xshape(self, p):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        return Nv + (Cx, K, M + Cd)

    def make(self, p, o, d):
        from sporco.admm import cbpdn
        D, S = self.arrays(p)
        W = maskarr(p, o['W'], self.dims(p))[0]
        kw = self.kw(p)
        if 'defN' in p:
            del kw['dimN']
        return cbpdn.AddMaskSim(cbpdn.ConvBPDN, D, S, W, self.lmbda,
                                cbpdn.ConvBPDN.Options(d), **kw)

    def dfull(self, p):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        D, S = self.std(p)
        imp = np.zeros(tuple(p['d']) + (Cd, 1, Cd))
        for c in range(Cd):
            imp[(0,) * dimN + (c, 0, c)] = 1.0
        return np.concatenate((D, imp), axis=-1), S

    def spec(self, p, o):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        D, S = self.dfull(p)
        xs = self.xshape(p)
        m = Admm(xs, xs)
        m.F = lambda x: ref.synth(D, x, dimN)
        m.s = S
        w = self.l1w(p, o)[1]
        W = maskarr(p, o['W'], self.dims(p))[1] + np.zeros(Nv + (C, K, 1))
        if Cd > 1:
            W = np.swapaxes(W, dimN, dimN + 2)

        def prox(v, rho):
            y = self.post(p, o, soft(v, self.lmbda * w / rho))
            y[..., M:] = np.where(W != 0, 0.0, v[..., M:])
            return y
        m.prox = prox
        return m

    def stats(self, p, o, m, st):
        M = p['M']
        D, S = self.dfull(p)
        x = self.xvar(st, not o['AuxVarObj'])
        f = 0.5 * n2(ref.synth(D, x, len(p['N'])) - S)**2
        g = self.gv(o, st).copy()
        g[..., M:] = 0
        rl1 = n1(self.l1w(p, o)[1] * g)
        return {'ObjFun': f + self.lmbda * rl1, 'DFid': f, 'RegL1': rl1}

    def retval(self, o, st):
        return None

    def retval_p(self, p, o, st):
        return st['y'][..., :p['M']]

    def recon(self, p, o, st):
        D, S = self.std(p)
        return ref.synth(D, st['y'][..., :p['M']], len(p['N']))


class MultiDict(ConvBPDN):
    name = 'admm.cbpdn.MultiDictConvBPDN'

    def probs(self, tier):
        return [dict(key='md2', N=[4, 3], d=[2, 2], d2=[3, 2], Cd=2, C=2,
                     K=0, M=2),
                dict(key='md1', N=[5], d=[2], d2=[2], Cd=2, C=2, K=0, M=3),
                dict(key='mdC', N=[3, 3], d=[2, 2], d2=[1, 2], Cd=3, C=3,
                     K=0, M=2, cp=[2, 1]),
                dict(key='mdX', N=[4, 4], d=[2, 3], d2=[3, 2], Cd=2, C=2,
                     K=0, M=2, defN=True),
                dict(key='md3', N=[4, 4], d=[2, 2], d2=[1, 3], d3=[3, 1],
                     Cd=4, C=4, K=0, M=2, cp=[1, 2, 1])]

    def core(self, b):
        return getattr(b, 'cbpdn', b)

    def get(self, b):
        return ConvBPDN.get(self, self.core(b))

    def parts(self, p):
        r = rng('md', p['key'])
        cc = [(c,) for c in p['cp']] if 'cp' in p else [(), ()]
        Ds = [randn(r, tuple(p[k]) + c + (p['M'],))
              for k, c in zip(('d', 'd2', 'd3'), cc)]
        Ss = [randn(r, tuple(p['N']) + c) for c in cc]
        return Ds, Ss

    def std(self, p):
        Ds, Ss = self.parts(p)
        dm = self.dmax(p)
        D = np.zeros(dm + (p['Cd'], 1, p['M']))
        dimN = len(p['N'])
        for c, (d, sl) in enumerate(zip(Ds, self.chans(p))):
            ss = tuple(slice(0, n) for n in d.shape[:dimN])
            D[ss + (sl, 0)] = d if 'cp' in p else d[..., None, :]
        S = np.concatenate(Ss, axis=-1) if 'cp' in p else \
            np.stack(Ss, axis=-1)
        return D, S.reshape(tuple(p['N']) + (p['Cd'], 1, 1))

    def chans(self, p):
        c = p.get('cp', [1, 1])
        return [slice(sum(c[:i]), sum(c[:i + 1])) for i in range(len(c))]

    def dmax(self, p):
        return tuple(max(v) for v in zip(*[p[k] for k in ('d', 'd2', 'd3')
                                           if k in p]))

    def post(self, p, o, y):
        q = dict(p)
        q['d'] = list(self.dmax(p))
        return ConvBPDN.post(self, q, o, y)

    def make(self, p, o, d):
        from sporco.admm import cbpdn
        Ds, Ss = self.parts(p)
        kw = self.kw(p)
        kw['dimK'] = 0
        if 'defN' in p:
            del kw['dimN']
        return cbpdn.MultiDictConvBPDN(
            cbpdn.ConvBPDN, Ds, Ss, self.lmbda, cbpdn.ConvBPDN.Options(d),
            **kw)

    recon_args = ((0,), (1,))

    def recon(self, p, o, st, arg):
        D, S = self.std(p)
        dimN = len(p['N'])
        r = ref.synth(D, st['y'], dimN)
        return r[(slice(None),) * dimN + (self.chans(p)[arg],)]


# ---------------------------------------------------- product dictionary
class ProdDict(ConvBPDN):
    name = 'admm.pdcsc.ConvProdDictBPDN'
    cplx_ok = False

    def probs(self, tier):
        ps = [dict(key='pd2d', N=[3, 4], d=[2, 2], Cd=0, C=3, K=0, M=2, nb=2,
                   dimK=0),
              dict(key='pd2dK', N=[3, 3], d=[2, 2], Cd=0, C=2, K=2, M=2,
                   nb=3),
              dict(key='pd1d', N=[5], d=[2], Cd=0, C=2, K=0, M=2, nb=2,
                   dimK=0)]
        if tier != 'quick':
            ps += [dict(key='pd1nb', N=[3, 3], d=[2, 2], Cd=0, C=3, K=0, M=2,
                        nb=1, dimK=0)]
        return ps

    def Bm(self, p):
        return randn(rng('B', p['key']), (p['C'], p['nb']))

    def xshape(self, p):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        return Nv + (p['nb'], K, M)

    def l1w(self, p, o):
        if o.get('L1Weight', 'one') == 'one':
            return 1.0, 1.0
        w = np.abs(randn(rng('l1wpd', p['key']), self.xshape(p)))
        return w, w

    def extra_axes(self, tier, p):
        a = ConvBPDN.extra_axes(self, tier, p)
        a['L1Weight'] = ['one', 'full']
        a['late'] = ['', 'D', 'B', 'DB']
        return a

    def fwd(self, p, x):
        dimN = len(p['N'])
        D, S = self.std(p)
        B = self.Bm(p)
        z = ref.synth(D, x, dimN)
        z = np.moveaxis(z, dimN, -1) @ B.T
        return np.moveaxis(z, -1, dimN)

    def other(self, p, o):
        """dictionaries passed at construction"""
        D, S = self.arrays(p)
        B = self.Bm(p)
        r = rng('other', p['key'])
        if 'D' in o['late']:
            D = randn(r, D.shape)
        if 'B' in o['late']:
            B = randn(r, B.shape)
        return D, B, S

    def late(self, p, o, b):
        if o['late']:
            kw = {}
            if 'D' in o['late']:
                kw['D'] = self.std(p)[0]
            if 'B' in o['late']:
                kw['B'] = self.Bm(p)
            b.setdict(**kw)
        return b

    def make(self, p, o, d):
        from sporco.admm import pdcsc
        D, B, S = self.other(p, o)
        return self.late(p, o, pdcsc.ConvProdDictBPDN(
            D, B, S, self.lmbda, pdcsc.ConvProdDictBPDN.Options(d),
            **self.kw(p)))

    def model(self, p):
        D, S = self.std(p)
        xs = self.xshape(p)
        m = Admm(xs, xs)
        m.F = lambda x: self.fwd(p, x)
        m.s = S
        return m

    def dfd(self, p, o, st):
        D, S = self.std(p)
        x = self.xvar(st, not o['AuxVarObj'])
        return 0.5 * n2(self.fwd(p, x) - S)**2

    def recon(self, p, o, st):
        return self.fwd(p, st['y'])


class ProdDictJoint(ProdDict):
    name = 'admm.pdcsc.ConvProdDictBPDNJoint'
    mu = 0.3

    def make(self, p, o, d):
        from sporco.admm import pdcsc
        D, B, S = self.other(p, o)
        return self.late(p, o, pdcsc.ConvProdDictBPDNJoint(
            D, B, S, self.lmbda, self.mu,
            pdcsc.ConvProdDictBPDNJoint.Options(d), **self.kw(p)))

    def spec(self, p, o):
        m = self.model(p)
        w = self.l1w(p, o)[1]
        ax = len(p['N'])
        m.prox = lambda v, rho: gsoft(soft(
            self.post(p, o, v), self.lmbda * w / rho), self.mu / rho, ax)
        return m

    def stats(self, p, o, m, st):
        f = self.dfd(p, o, st)
        g = self.gv(o, st)
        rl1 = n1(self.l1w(p, o)[1] * g)
        rl21 = float(np.sum(np.sqrt(np.sum(g**2, axis=len(p['N'])))))
        return {'ObjFun': f + self.lmbda * rl1 + self.mu * rl21, 'DFid': f,
                'RegL1': rl1, 'RegL21': rl21}


class ProdDictL1L1Grd(ProdDict):
    name = 'admm.pdcsc.ConvProdDictL1L1Grd'
    mu = 0.4

    def extra_axes(self, tier, p):
        a = ProdDict.extra_axes(self, tier, p)
        a['GradWeight'] = ['one', 'arr']
        if tier == 'quick':
            a['late'] = ['', 'DB']
            a['NoBndryCross'] = [False]
        return a

    def extra_opts(self, p, o):
        d = ProdDict.extra_opts(self, p, o)
        d['GradWeight'] = gradw(p, o, 'GradWeight')[0]
        return d

    def kw(self, p):
        k = ProdDict.kw(self, p)
        k['dimK'] = 1 if p['K'] else 0
        return k

    def make(self, p, o, d):
        from sporco.admm import pdcsc
        D, B, S = self.other(p, o)
        return self.late(p, o, pdcsc.ConvProdDictL1L1Grd(
            D, B, S, self.lmbda, self.mu, None,
            pdcsc.ConvProdDictL1L1Grd.Options(d), **self.kw(p)))

    get = ConvTwoBlock.get

    def split(self, p, y):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        n = int(np.prod(Nv)) * C * K
        return y[:n].reshape(Nv + (C, K, 1)), y[n:].reshape(self.xshape(p))

    def spec(self, p, o):
        D, S = self.std(p)
        xs = self.xshape(p)
        c = np.concatenate([S.ravel(), np.zeros(int(np.prod(xs)))])
        m = Admm(xs, c.shape, c)
        m.A = lambda x: np.concatenate([self.fwd(p, x).ravel(), x.ravel()])
        m.F = lambda x: 0.0 * x
        m.s = np.zeros(xs)
        m.dualres = 'u'
        gw = gradw(p, o, 'GradWeight')[1]
        m.R = lambda x: self.mu * gw * lap(x, len(p['N']))
        m.prox = lambda v, rho: self.prx(p, o, v, rho)
        return m

    def prx(self, p, o, v, rho):
        v0, v1 = self.split(p, v)
        return np.concatenate([
            soft(v0, 1.0 / rho).ravel(),
            self.post(p, o, soft(v1, self.lmbda * self.l1w(p, o)[1] / rho)
                      ).ravel()])

    def terms(self, p, o, st):
        D, S = self.std(p)
        if o['AuxVarObj']:
            y0, y1 = self.split(p, st['y'])
        else:
            y0, y1 = self.fwd(p, st['x']) - S, st['x']
        gw = gradw(p, o, 'GradWeight')[1]
        g = 0.5 * float(np.sum(st['x'] * gw * lap(st['x'], len(p['N']))))
        return n1(y0), y1, g

    def stats(self, p, o, m, st):
        f, y1, g = self.terms(p, o, st)
        r = n1(self.l1w(p, o)[1] * y1)
        return {'ObjFun': f + self.lmbda * r + self.mu * g, 'DFid': f,
                'RegL1': r, 'RegGrad': g}

    def retval(self, o, st):
        return None

    def retval_p(self, p, o, st):
        return self.split(p, st['y'])[1]

    def recon(self, p, o, st):
        return self.fwd(p, st['x'])


class ProdDictL1L1GrdJoint(ProdDictL1L1Grd):
    name = 'admm.pdcsc.ConvProdDictL1L1GrdJoint'

    def extra_axes(self, tier, p):
        a = ProdDictL1L1Grd.extra_axes(self, tier, p)
        del a['L1Weight']
        a['L21Weight'] = [1.0, 0.5]
        return a

    optnames = ProdDictL1L1Grd.optnames + ('L21Weight',)

    def make(self, p, o, d):
        from sporco.admm import pdcsc
        D, B, S = self.other(p, o)
        return self.late(p, o, pdcsc.ConvProdDictL1L1GrdJoint(
            D, B, S, self.lmbda, self.mu,
            pdcsc.ConvProdDictL1L1GrdJoint.Options(d), **self.kw(p)))

    def prx(self, p, o, v, rho):
        v0, v1 = self.split(p, v)
        return np.concatenate([
            soft(v0, 1.0 / rho).ravel(),
            gsoft(self.post(p, o, v1), self.lmbda * o['L21Weight'] / rho,
                  len(p['N'])).ravel()])

    def stats(self, p, o, m, st):
        f, y1, g = self.terms(p, o, st)
        r = o['L21Weight'] * float(np.sum(np.sqrt(np.sum(
            y1**2, axis=len(p['N'])))))
        return {'ObjFun': f + self.lmbda * r + self.mu * g, 'DFid': f,
                'RegL21': r, 'RegGrad': g}


# --------------------------------------------------------- total variation
class TVBase(Entry):
    lmbda = 0.35
    matopts = ('DFidWeight',)

    def probs(self, tier):
        ps = [dict(key='4x3', shp=[4, 3], axes=[0, 1], caxis=None),
              dict(key='5', shp=[5], axes=[0], caxis=None),
              dict(key='3x4x2c', shp=[3, 4, 2], axes=[0, 1], caxis=2),
              dict(key='3x3x2', shp=[3, 3, 2], axes=[0, 1], caxis=None),
              dict(key='2x3x3a12', shp=[2, 3, 3], axes=[1, 2], caxis=None),
              dict(key='3x4a1', shp=[3, 4], axes=[1], caxis=None),
              dict(key='4x3cplx', shp=[4, 3], axes=[0, 1], caxis=None,
                   cplx=1)]
        if tier != 'quick':
            ps += [dict(key='3x2x3', shp=[3, 2, 3], axes=[0, 1, 2],
                        caxis=None),
                   dict(key='2x3x3a12c', shp=[2, 3, 3], axes=[1, 2],
                        caxis=0),
                   dict(key='3x4a10', shp=[3, 4], axes=[1, 0], caxis=None)]
        return ps

    def sig(self, p):
        return randn(rng('tv', p['key']), p['shp'], bool(p.get('cplx')))

    def w(self, p, o, name):
        if o[name] == 'one':
            return 1.0
        if o[name] == 'scalar':
            return 0.6
        w = np.abs(randn(rng('tvw', name, p['key']), p['shp']))
        if name == 'DFidWeight':
            w.ravel()[0] = 0.0
        return w

    def extra_axes(self, tier, p):
        a = OrderedDict()
        a['TVWeight'] = ['one', 'scalar'] if p['caxis'] is not None else \
            ['one', 'arr']
        a['gEvalY'] = [True, False]
        return a

    def extra_opts(self, p, o):
        d = {k: o[k] for k in ('gEvalY', 'MaxGSIter', 'GSTol',
                               'LinSolveCheck') if k in o}
        d['TVWeight'] = self.w(p, o, 'TVWeight')
        if 'DFidWeight' in o:
            d['DFidWeight'] = self.w(p, o, 'DFidWeight')
        return d

    def saxes(self, p):
        return (-1,) if p['caxis'] is None else (p['caxis'], -1)

    def retval(self, o, st):
        return st['x']

    def tvreg(self, p, o, g):
        w = self.w(p, o, 'TVWeight')
        return float(np.sum(w * np.sqrt(np.sum(np.abs(g)**2,
                                               axis=self.saxes(p)))))

    def ptv(self, p, o, v, rho):
        w = self.w(p, o, 'TVWeight')
        if np.ndim(w):
            w = w[..., None]
        return gsoft(v, self.lmbda * w / rho, self.saxes(p))

    def kwa(self, p):
        return {'axes': tuple(p['axes']), 'caxis': p['caxis']}


class TVL2Denoise(TVBase):
    name = 'admm.tvl2.TVL2Denoise'

    def extra_axes(self, tier, p):
        a = TVBase.extra_axes(self, tier, p)
        a['DFidWeight'] = ['one', 'arr']
        a['MaxGSIter'] = [1, 2, 5]
        a['GSTol'] = [0.0, 0.05]
        return a

    def make(self, p, o, d):
        from sporco.admm import tvl2
        return tvl2.TVL2Denoise(self.sig(p), self.lmbda,
                                tvl2.TVL2Denoise.Options(d), **self.kwa(p))

    def gs(self, m, x, H, b, o, Hr=None, br=None):
        """Jacobi sweeps on H x = b, stopping on the relative residual"""
        Hr = H if Hr is None else Hr
        br = b if br is None else br
        dg = np.diag(H)
        it, rs = 0, np.inf
        x = x.ravel()
        while it < o['MaxGSIter'] and rs > o['GSTol']:
            x = (b - (H @ x - dg * x)) / dg
            a = Hr @ x
            nn = max(n2(a), n2(br))
            rs = n2(a - br) / nn if nn else 0.0
            it += 1
        m.gsr = (it, rs)
        return x

    def spec(self, p, o):
        S = self.sig(p)
        shp = tuple(p['shp'])
        m = Admm(shp, shp + (len(p['axes']),))
        m.cplx = bool(p.get('cplx'))
        m.A = lambda x: ref.fgrad(x, p['axes'])
        W2 = (self.w(p, o, 'DFidWeight')**2 + np.zeros(shp)).ravel()

        def xstep(x, y, u, rho):
            A = m.Am()
            H = np.diag(W2) + rho * (A.T @ A)
            b = W2 * S.ravel() + rho * (A.T @ (y - u).ravel())
            return self.gs(m, x, H, b, o).reshape(shp)
        m.xstep = xstep
        m.prox = lambda v, rho: self.ptv(p, o, v, rho)
        return m

    def stats(self, p, o, m, st):
        S = self.sig(p)
        f = 0.5 * n2(self.w(p, o, 'DFidWeight') * (st['x'] - S))**2
        r = self.tvreg(p, o, st['y'] if o['gEvalY'] else st['Ax'])
        return {'ObjFun': f + self.lmbda * r, 'DFid': f, 'RegTV': r,
                'GSIter': m.gsr[0], 'GSRelRes': m.gsr[1]}


class TVL1Denoise(TVL2Denoise):
    name = 'admm.tvl1.TVL1Denoise'

    def make(self, p, o, d):
        from sporco.admm import tvl1
        return tvl1.TVL1Denoise(self.sig(p), self.lmbda,
                                tvl1.TVL1Denoise.Options(d), **self.kwa(p))

    def spec(self, p, o):
        S = self.sig(p)
        shp = tuple(p['shp'])
        na = len(p['axes'])
        c = np.zeros(shp + (na + 1,), dtype=S.dtype)
        c[..., -1] = S
        m = Admm(shp, shp + (na + 1,), c)
        m.cplx = bool(p.get('cplx'))
        m.dualres = 'u'
        m.A = lambda x: np.concatenate(
            (ref.fgrad(x, p['axes']), x[..., None]), axis=-1)

        def xstep(x, y, u, rho):
            A = m.Am()
            H = A.T @ A
            b = A.T @ (c + y - u).ravel()
            return self.gs(m, x, H, b, o).reshape(shp)
        m.xstep = xstep
        wd = self.w(p, o, 'DFidWeight')
        m.prox = lambda v, rho: np.concatenate(
            (self.ptv(p, o, v[..., :-1], rho),
             soft(v[..., -1], wd / rho)[..., None]), axis=-1)
        return m

    def stats(self, p, o, m, st):
        g = st['y'] if o['gEvalY'] else st['Ax'] - m.c
        f = n1(self.w(p, o, 'DFidWeight') * g[..., -1])
        r = self.tvreg(p, o, g[..., :-1])
        d = {'ObjFun': f + self.lmbda * r, 'DFid': f, 'RegTV': r}
        if hasattr(m, 'gsr'):
            d.update({'GSIter': m.gsr[0], 'GSRelRes': m.gsr[1]})
        return d


class TVL2Deconv(TVBase):
    name = 'admm.tvl2.TVL2Deconv'

    def extra_axes(self, tier, p):
        a = TVBase.extra_axes(self, tier, p)
        a['LinSolveCheck'] = [False, True]
        return a

    def kern(self, p):
        shp = [2 if k in p['axes'] else 1 for k in range(len(p['shp']))]
        h = 0.3 * randn(rng('k', p['key']), shp, bool(p.get('cplx')))
        h.ravel()[0] += 1.0
        # kernels are given on the leading axes when those are the blurred
        # ones
        return h

    def blur(self, p, x):
        h = self.kern(p)
        out = 0.0
        for j in itertools.product(*[range(n) for n in h.shape]):
            out = out + h[j] * ref.shift(x, j, range(x.ndim))
        return out

    def make(self, p, o, d):
        from sporco.admm import tvl2
        return tvl2.TVL2Deconv(self.kern(p), self.sig(p), self.lmbda,
                               tvl2.TVL2Deconv.Options(d), **self.kwa(p))

    def spec(self, p, o):
        S = self.sig(p)
        shp = tuple(p['shp'])
        m = Admm(shp, shp + (len(p['axes']),))
        m.cplx = bool(p.get('cplx'))
        m.A = lambda x: ref.cgrad(x, p['axes'])
        m.F = lambda x: self.blur(p, x)
        m.s = S
        m.prox = lambda v, rho: self.ptv(p, o, v, rho)
        return m

    def stats(self, p, o, m, st):
        S = self.sig(p)
        f = 0.5 * n2(self.blur(p, st['x']) - S)**2
        r = self.tvreg(p, o, st['y'] if o['gEvalY'] else st['Ax'])
        return {'ObjFun': f + self.lmbda * r, 'DFid': f, 'RegTV': r}


class TVL1Deconv(TVL2Deconv):
    name = 'admm.tvl1.TVL1Deconv'

    def extra_axes(self, tier, p):
        a = TVL2Deconv.extra_axes(self, tier, p)
        a['DFidWeight'] = ['one', 'arr']
        return a

    def make(self, p, o, d):
        from sporco.admm import tvl1
        return tvl1.TVL1Deconv(self.kern(p), self.sig(p), self.lmbda,
                               tvl1.TVL1Deconv.Options(d), **self.kwa(p))

    def spec(self, p, o):
        S = self.sig(p)
        shp = tuple(p['shp'])
        na = len(p['axes'])
        c = np.zeros(shp + (na + 1,), dtype=S.dtype)
        c[..., -1] = S
        m = Admm(shp, shp + (na + 1,), c)
        m.cplx = bool(p.get('cplx'))
        m.dualres = 'u'
        m.A = lambda x: np.concatenate(
            (ref.cgrad(x, p['axes']), self.blur(p, x)[..., None]), axis=-1)
        m.F = lambda x: 0.0 * x
        m.s = np.zeros(shp)
        wd = self.w(p, o, 'DFidWeight')
        m.prox = lambda v, rho: np.concatenate(
            (self.ptv(p, o, v[..., :-1], rho),
             soft(v[..., -1], wd / rho)[..., None]), axis=-1)
        return m

    stats = TVL1Denoise.__dict__['stats']


# ------------------------------------------------------------- spline, rpca
class SplineL1(Entry):
    name = 'admm.spline.SplineL1'
    lmbda = 0.8
    matopts = ()

    def probs(self, tier):
        return [dict(key='4x3', shp=[4, 3], axes=[0, 1]),
                dict(key='5', shp=[5], axes=[0]),
                dict(key='3x4a1', shp=[3, 4], axes=[1]),
                dict(key='2x3x3', shp=[2, 3, 3], axes=[1, 2])]

    def sig(self, p):
        return randn(rng('spl', p['key']), p['shp'])

    def w(self, p, o):
        return 1.0 if o['DFidWeight'] == 'one' else \
            np.abs(randn(rng('splw', p['key']), p['shp']))

    def extra_axes(self, tier, p):
        return OrderedDict([('DFidWeight', ['one', 'arr']),
                            ('gEvalY', [True, False]),
                            ('LinSolveCheck', [False, True])])

    def extra_opts(self, p, o):
        return {'DFidWeight': self.w(p, o), 'gEvalY': o['gEvalY'],
                'LinSolveCheck': o['LinSolveCheck']}

    def make(self, p, o, d):
        from sporco.admm import spline
        return spline.SplineL1(self.sig(p), self.lmbda,
                               spline.SplineL1.Options(d),
                               axes=tuple(p['axes']))

    def lapn(self, p, x):
        """reflecting-boundary second difference"""
        out = np.zeros_like(x)
        for a in p['axes']:
            xm = np.moveaxis(x, a, 0)
            e = np.concatenate((xm[:1], xm, xm[-1:]), axis=0)
            out += np.moveaxis(e[2:] - 2 * xm + e[:-2], 0, a)
        return out

    def spec(self, p, o):
        S = self.sig(p)
        m = Admm(S.shape, S.shape, S)
        m.F = lambda x: np.sqrt(self.lmbda) * self.lapn(p, x)
        m.s = np.zeros(S.shape)
        w = self.w(p, o)
        m.prox = lambda v, rho: soft(v, w / rho)
        return m

    def stats(self, p, o, m, st):
        g = st['y'] if o['gEvalY'] else st['x'] - m.c
        f = n1(self.w(p, o) * g)
        r = 0.5 * n2(self.lapn(p, st['x']))**2
        return {'ObjFun': f + self.lmbda * r, 'DFid': f, 'Reg': r}

    def retval(self, o, st):
        return st['x']


class RobustPCA(Entry):
    name = 'admm.rpca.RobustPCA'
    lmbda = 0.4

    def probs(self, tier):
        return [dict(key='4x3', shp=[4, 3]), dict(key='3x5', shp=[3, 5]),
                dict(key='4x4r1', shp=[4, 4])]

    def sig(self, p):
        r = rng('rpca', p['key'])
        if p['key'].endswith('r1'):
            return np.outer(r.randn(4), r.randn(4))
        return randn(r, p['shp'])

    def extra_axes(self, tier, p):
        return OrderedDict([('gEvalY', [True, False]),
                            ('fEvalX', [True, False])])

    def extra_opts(self, p, o):
        return {'gEvalY': o['gEvalY'], 'fEvalX': o['fEvalX']}

    def make(self, p, o, d):
        from sporco.admm import rpca
        return rpca.RobustPCA(self.sig(p), self.lmbda,
                              rpca.RobustPCA.Options(d))

    def spec(self, p, o):
        S = self.sig(p)
        m = Admm(S.shape, S.shape, S)
        m.sB = 1.0
        m.xstep = lambda x, y, u, rho: ref.pnuc(S - y - u, 1.0 / rho)[0]
        m.prox = lambda v, rho: soft(v, self.lmbda / rho)
        return m

    def stats(self, p, o, m, st):
        S = self.sig(p)
        X = st['x'] if o['fEvalX'] else S - st['y']
        Y = st['y'] if o['gEvalY'] else S - st['x']
        nn = float(np.sum(np.linalg.svd(X, compute_uv=False)))
        l1 = n1(Y)
        return {'ObjFun': nn + self.lmbda * l1, 'NrmNuc': nn, 'NrmL1': l1,
                'Cnstr': n2(st['x'] + st['y'] - S)}

    def retval(self, o, st):
        return (st['x'], st['y'])


# ------------------------------------------------------- plug and play priors
class PPP(Entry):
    name = 'admm.ppp.PPP'

    def probs(self, tier):
        return [dict(key='4x3', shp=[4, 3]), dict(key='5', shp=[5])]

    def sig(self, p):
        return randn(rng('ppp', p['key']), p['shp'])

    def fs(self, p):
        S = self.sig(p)
        W = np.abs(randn(rng('pppw', p['key']), p['shp']))
        return (lambda X: 0.5 * n2(W * (X - S))**2,
                lambda X, rho: (W**2 * S + rho * X) / (W**2 + rho),
                lambda X, rho: soft(X, 0.3 / rho))

    def make(self, p, o, d):
        from sporco.admm import ppp
        d['DataType'] = np.float64
        f, pf, pg = self.fs(p)
        return ppp.PPP(tuple(p['shp']), f, pf, pg, ppp.PPP.Options(d))

    def spec(self, p, o):
        m = Admm(p['shp'], p['shp'])
        f, pf, pg = self.fs(p)
        m.xstep = lambda x, y, u, rho: pf(y - u, rho)
        m.prox = pg
        return m

    def stats(self, p, o, m, st):
        return {'FVal': self.fs(p)[0](st['x'])}

    def retval(self, o, st):
        return st['x']


class Cons(Admm):
    """consensus: x_i = y for all i (weights alpha)"""

    def __init__(self, yshape, Nb, alpha=None):
        Admm.__init__(self, tuple(yshape) + (Nb,), tuple(yshape) + (Nb,))
        self.Nb = Nb
        self.alpha = np.ones(Nb) if alpha is None else alpha
        self.weighted = alpha is not None

    def step(self, st, rlx):
        x0, y0, u0, rho = st['x'], st['y'], st['u'], st['rho']
        x = self.xstep(x0, np.repeat(y0[..., None], self.Nb, axis=-1), u0,
                       rho)
        xr = rlx * x + (1 - rlx) * y0[..., None]
        v = np.sum((xr + u0) * self.alpha, axis=-1) / self.alpha.sum()
        y = self.prox(v, rho * self.alpha.sum())
        u = u0 + xr - y[..., None]
        return {'x': x, 'y': y, 'u': u, 'rho': rho, 'Ax': x, 'yprev': y0}

    def A(self, x):
        return x

    def resid(self, st):
        a = self.alpha
        if self.weighted:
            sa = np.sqrt(a)
            nb = np.sqrt(np.sum(a**2))
        else:
            sa = 1.0
            nb = np.sqrt(self.Nb)
        r = n2(sa * (st['x'] - st['y'][..., None]))
        rn = max(n2(sa * st['x']), nb * n2(st['y']))
        s = st['rho'] * nb * n2(st['y'] - st['yprev'])
        sn = st['rho'] * n2(st['u'])
        n = int(np.prod(self.xshape))
        return r, s, rn, sn, n, n


class PPPConsensus(Entry):
    name = 'admm.ppp.PPPConsensus'

    def probs(self, tier):
        return [dict(key='4x3', shp=[4, 3], nb=2, w=False),
                dict(key='5w', shp=[5], nb=3, w=True),
                dict(key='4x1', shp=[4], nb=1, w=False)]

    def extra_axes(self, tier, p):
        return OrderedDict([('g', [True, False])])

    def fs(self, p, o):
        r = rng('pppc', p['key'])
        fi = []
        for i in range(p['nb']):
            S = randn(r, p['shp'])
            W = np.abs(randn(r, p['shp']))
            fi.append(lambda X, rho, S=S, W=W:
                      (W**2 * S + rho * X) / (W**2 + rho))
        return fi, ((lambda X, rho: soft(X, 0.3 / rho)) if o['g'] else None)

    def alpha(self, p):
        return 0.3 + np.arange(p['nb']) * 0.5 if p['w'] else None

    def make(self, p, o, d):
        from sporco.admm import ppp
        d['DataType'] = np.float64
        fi, g = self.fs(p, o)
        return ppp.PPPConsensus(tuple(p['shp']), fi, g, self.alpha(p),
                                ppp.PPPConsensus.Options(d))

    def spec(self, p, o):
        a = self.alpha(p)
        m = Cons(p['shp'], p['nb'], np.ones(p['nb']) if a is None else a)
        fi, g = self.fs(p, o)

        def xstep(x, y, u, rho):
            return np.stack([fi[i]((y - u)[..., i], rho)
                             for i in range(p['nb'])], axis=-1)
        m.xstep = xstep
        m.prox = g if g is not None else (lambda X, rho: X)
        return m

    def stats(self, p, o, m, st):
        return {}

    def retval(self, o, st):
        return st['y']


# ---------------------------------------------------- dictionary update
class CCMod(ConvBase):
    name = 'admm.ccmod.ConvCnstrMOD_IterSM'
    clsname = 'ConvCnstrMOD_IterSM'
    cplx_ok = True
    matopts = ()

    def probs(self, tier):
        ns = ['2d', '2dK', '2dC', '2dCK', '2dCd', '2dCdK', '1dK', '2dM1',
              '2dfull', '3d']
        if self.cplx_ok:
            ns += ['2dcplx']
        ps = cprob(ns)
        ps.append(dict(key='multi', N=[4, 4], d=[3, 3], Cd=0, C=0, K=2, M=3,
                       dsz=[[2, 2, 1], [3, 3, 2]]))
        ps.append(dict(key='multiCd', N=[4, 4], d=[3, 3], Cd=2, C=2, K=2,
                       M=3, dsz=[[2, 2, 2, 1], [3, 3, 2, 2]]))
        return ps

    def arrays(self, p):
        r = rng('ccmod', p['key'])
        cx = bool(p.get('cplx'))
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        Z = randn(r, Nv + (Cx, K, M), cx)
        S = randn(r, Nv + ((C,) if p['C'] else ()) +
                  ((K,) if p['K'] else ()), cx)
        return Z, S

    def std(self, p):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        Z, S = self.arrays(p)
        return Z, S.reshape(Nv + (C, K, 1))

    def dsz(self, p):
        if 'dsz' in p:
            return tuple(tuple(b) for b in p['dsz'])
        return tuple(p['d']) + ((p['Cd'],) if p['Cd'] else ()) + (p['M'],)

    def kw(self, p):
        return {'dimN': len(p['N']), 'dimK': 1 if p['K'] else 0}

    def dshape(self, p):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        return Nv + (Cd, 1, M)

    def extra_axes(self, tier, p):
        a = OrderedDict()
        a['ZeroMean'] = [False, True]
        a['LinSolveCheck'] = [True] if tier == 'quick' else [False, True]
        a['AuxVarObj'] = [False, True]
        a['late'] = [False, True]
        return a

    optnames = ('ZeroMean', 'LinSolveCheck', 'AuxVarObj')

    def mod(self):
        from sporco.admm import ccmod
        return getattr(ccmod, self.clsname)

    def mkopt(self, d):
        return self.mod().Options(d)

    def make(self, p, o, d):
        cls = self.mod()
        Z, S = self.arrays(p)
        if o['late']:
            Zo = randn(rng('zo', p['key']), Z.shape, Z.dtype.kind == 'c')
            b = cls(Zo, S, self.dsz(p), self.mkopt(d), **self.kw(p))
            b.setcoef(Z)
            return b
        return cls(Z, S, self.dsz(p), self.mkopt(d), **self.kw(p))

    def P(self, p, o, v):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        sup = ref.fsupport(self.dsz(p), Nv, dimN, Cd, M)
        return ref.pdict(v, sup, dimN, o['ZeroMean'])

    def fwd(self, p, d):
        """sum_m z_m * d_m in signal layout"""
        dimN = len(p['N'])
        Z = self.arrays(p)[0]
        return np.sum(ref.cconv(Z, d, dimN), axis=dimN + 2, keepdims=True)

    def model(self, p):
        S = self.std(p)[1]
        ds = self.dshape(p)
        m = Admm(ds, ds)
        m.cplx = bool(p.get('cplx'))
        m.F = lambda d: self.fwd(p, d)
        m.s = S
        return m

    def spec(self, p, o):
        m = self.model(p)
        m.prox = lambda v, rho: self.P(p, o, v)
        return m

    def stats(self, p, o, m, st):
        S = self.std(p)[1]
        x = self.xvar(st, not o['AuxVarObj'])
        g = self.gv(o, st)
        return {'DFid': 0.5 * n2(self.fwd(p, x) - S)**2,
                'Cnstr': n2(self.P(p, o, g) - g)}

    def recon(self, p, o, st):
        return self.fwd(p, st['x'])

    def result(self, p, o, b, last):
        """cropped dictionary"""
        dimN = len(p['N'])
        e = last['y']
        sl = tuple(slice(0, n) for n in p['d'])
        return b.getdict(), e[sl]


class CCModCG(CCMod):
    name = 'admm.ccmod.ConvCnstrMOD_CG'
    clsname = 'ConvCnstrMOD_CG'
    tol = 1e-6

    def extra_opts(self, p, o):
        d = CCMod.extra_opts(self, p, o)
        d['CG'] = {'MaxIter': 500, 'StopTol': 1e-11}
        return d


class CCModCns(CCMod):
    name = 'admm.ccmod.ConvCnstrMOD_Consensus'
    clsname = 'ConvCnstrMOD_Consensus'

    def nb(self, p):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        return K if C == Cd else C * K

    def zs(self, p):
        """per-block maps and signals"""
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        Z, S = self.std(p)
        if Cd == 1 and C > 1:
            Z = Z.reshape(Nv + (1, Cx * K, M))
            S = S.reshape(Nv + (1, C * K, 1))
        return Z, S

    def fwdb(self, p, d):
        """d: (Nv, Cd, 1, M, Nb) -> signal per block (Nv, Cd, Nb, 1)"""
        dimN = len(p['N'])
        Z, S = self.zs(p)
        out = []
        for i in range(d.shape[-1]):
            Zi = np.take(Z, [i], axis=dimN + 1)
            out.append(np.sum(ref.cconv(Zi, d[..., i], dimN), axis=dimN + 2,
                              keepdims=True))
        return np.concatenate(out, axis=dimN + 1)

    def model(self, p):
        Z, S = self.zs(p)
        m = Cons(self.dshape(p), self.nb(p))
        m.cplx = bool(p.get('cplx'))
        m.F = lambda d: self.fwdb(p, d)
        m.s = S
        return m

    def stats(self, p, o, m, st):
        Z, S = self.zs(p)
        if o['AuxVarObj']:
            x = np.repeat(st['y'][..., None], self.nb(p), axis=-1)
            g = st['y']
        else:
            x = st['x']
            g = np.mean(st['x'], axis=-1)
        return {'DFid': 0.5 * n2(self.fwdb(p, x) - S)**2,
                'Cnstr': n2(self.P(p, o, g) - g)}

    recon = None


class CCModMD(CCMod):
    name = 'admm.ccmodmd.ConvCnstrMODMaskDcpl_IterSM'
    clsname = 'ConvCnstrMODMaskDcpl_IterSM'
    cplx_ok = False

    def mod(self):
        from sporco.admm import ccmodmd
        return getattr(ccmodmd, self.clsname)

    def extra_axes(self, tier, p):
        a = CCMod.extra_axes(self, tier, p)
        a['W'] = ['shared', 'persig', 'gray']
        a['ReturnVar'] = ['Y1'] if tier == 'quick' else ['X', 'Y0', 'Y1']
        if tier == 'quick':
            a['late'] = [False]
        return a

    optnames = CCMod.optnames + ('ReturnVar',)

    def make(self, p, o, d):
        cls = self.mod()
        Z, S = self.arrays(p)
        W = maskarr(p, o['W'], self.dims(p))[0]
        if o['late']:
            Zo = randn(rng('zo', p['key']), Z.shape)
            b = cls(Zo, S, W, self.dsz(p), self.mkopt(d), **self.kw(p))
            b.setcoef(Z)
            return b
        return cls(Z, S, W, self.dsz(p), self.mkopt(d), **self.kw(p))

    get = ConvTwoBlock.get

    def split(self, p, y):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        n = int(np.prod(Nv)) * C * K
        return y[:n].reshape(Nv + (C, K, 1)), y[n:].reshape(self.dshape(p))

    def spec(self, p, o):
        S = self.std(p)[1]
        ds = self.dshape(p)
        c = np.concatenate([S.ravel(), np.zeros(int(np.prod(ds)))])
        m = Admm(ds, c.shape, c)
        m.A = lambda d: np.concatenate([self.fwd(p, d).ravel(), d.ravel()])
        m.F = lambda d: 0.0 * d
        m.s = np.zeros(ds)
        m.dualres = 'u'
        W = maskarr(p, o['W'], self.dims(p))[1]

        def prox(v, rho):
            v0, v1 = self.split(p, v)
            return np.concatenate([(rho * v0 / (W**2 + rho)).ravel(),
                                   self.P(p, o, v1).ravel()])
        m.prox = prox
        return m

    def stats(self, p, o, m, st):
        S = self.std(p)[1]
        W = maskarr(p, o['W'], self.dims(p))[1]
        if o['AuxVarObj']:
            y0, y1 = self.split(p, st['y'])
        else:
            y0, y1 = self.fwd(p, st['x']) - S, st['x']
        return {'DFid': 0.5 * n2(W * y0)**2,
                'Cnstr': n2(self.P(p, o, y1) - y1)}

    def retval(self, o, st):
        return None

    def retval_p(self, p, o, st):
        if o.get('ReturnVar', 'Y1') == 'X':
            return st['x']
        if o['ReturnVar'] == 'Y0':
            return None
        return self.split(p, st['y'])[1]

    def result(self, p, o, b, last):
        e = self.split(p, last['y'])[1]
        return b.getdict(), e[tuple(slice(0, n) for n in p['d'])]


class CCModMDCG(CCModMD):
    name = 'admm.ccmodmd.ConvCnstrMODMaskDcpl_CG'
    clsname = 'ConvCnstrMODMaskDcpl_CG'
    tol = 1e-6

    def extra_opts(self, p, o):
        d = CCMod.extra_opts(self, p, o)
        d['CG'] = {'MaxIter': 500, 'StopTol': 1e-11}
        return d


class CCModMDCns(CCModCns):
    name = 'admm.ccmodmd.ConvCnstrMODMaskDcpl_Consensus'
    clsname = 'ConvCnstrMODMaskDcpl_Consensus'
    cplx_ok = False

    mod = CCModMD.__dict__['mod']

    def extra_axes(self, tier, p):
        a = CCMod.extra_axes(self, tier, p)
        a['W'] = ['none', 'shared', 'persig', 'gray']
        if tier == 'quick':
            a['late'] = [False]
        return a

    make = CCModMD.__dict__['make']

    def get(self, b):
        y = b.var_y()
        u = b.var_u()
        return (b.var_x(), np.concatenate((y.ravel(), b.Y1.ravel())),
                np.concatenate((u.ravel(), b.U1.ravel())))

    def split(self, p, y):
        Z, S = self.zs(p)
        n = y.size - S.size
        ds = self.dshape(p)
        if n > int(np.prod(ds)) or self.nb(p) == 1 and False:
            return y[:n].reshape(ds + (self.nb(p),)), y[n:].reshape(S.shape)
        return y[:n].reshape(ds), y[n:].reshape(S.shape)

    def mask(self, p, o):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        W = maskarr(p, o['W'], self.dims(p))[1] + np.zeros(Nv + (C, K, 1))
        return W.reshape(self.zs(p)[1].shape)

    def spec(self, p, o):
        Z, S = self.zs(p)
        ds = self.dshape(p)
        nb = self.nb(p)
        W = self.mask(p, o)
        m = Cons(ds, nb)
        ent = self

        def xstep(y, y1, u, u1):
            # min 1/2 sum_i |Z_i d_i - (s + y1 - u1)_i|^2
            #     + 1/2 sum_i |d_i - (y - u_i)|^2
            if not hasattr(m, 'Fm'):
                k = ('ccmdcns', p['key'], getattr(ent, 'alt', False))
                if k not in _FM:
                    _FM[k] = ref.mat(lambda d: ent.fwdb(p, d), ds + (nb,))
                m.Fm = _FM[k]
            F = m.Fm
            b = F.T @ (S + y1 - u1).ravel() + (y[..., None] - u).ravel()
            return np.linalg.solve(F.T @ F + np.eye(F.shape[1]), b).reshape(
                ds + (nb,))

        def unp(st):
            y, y1 = ent.split(p, st['y'])
            n = st['u'].size - S.size
            return (y, y1, st['u'][:n].reshape(ds + (nb,)),
                    st['u'][n:].reshape(S.shape))

        def step(st, rlx):
            y, y1, u, u1 = unp(st)
            rho = st['rho']
            x = xstep(y, y1, u, u1)
            ax = x
            a1 = ent.fwdb(p, x)
            xr = rlx * ax + (1 - rlx) * y[..., None]
            a1r = rlx * a1 + (1 - rlx) * (y1 + S)
            yn = ent.P(p, o, np.mean(xr + u, axis=-1))
            y1n = rho * (a1r + u1 - S) / (W**2 + rho)
            un = u + xr - yn[..., None]
            u1n = u1 + a1r - y1n - S
            return {'x': x, 'y': np.concatenate((yn.ravel(), y1n.ravel())),
                    'u': np.concatenate((un.ravel(), u1n.ravel())),
                    'rho': rho, 'Ax': None, 'yprev': st['y']}

        def resid(st):
            y, y1, u, u1 = unp(st)
            x = st['x']
            rho = st['rho']
            a1 = ent.fwdb(p, x)
            r = np.sqrt(n2(x - y[..., None])**2 + n2(a1 - y1 - S)**2)
            if not hasattr(m, 'Fm'):
                m.Fm = ref.mat(lambda d: ent.fwdb(p, d), ds + (nb,))
            atu = u.ravel() + m.Fm.T @ u1.ravel()
            nax = np.sqrt(n2(x)**2 + n2(a1)**2)
            ny = np.sqrt(n2(y)**2 + n2(y1)**2)
            rn = max(nax, ny, n2(S))
            sn = rho * np.sqrt(n2(u)**2 + n2(u1)**2)
            n = int(np.prod(ds)) * nb
            return r, rho * n2(atu), rn, sn, n, n
        m.step = step
        m.resid = resid
        m.xstep = None
        return m

    def stats(self, p, o, m, st):
        Z, S = self.zs(p)
        y, y1 = self.split(p, st['y'])
        W = self.mask(p, o)
        if o['AuxVarObj']:
            x = np.repeat(y[..., None], self.nb(p), axis=-1)
            g = y
        else:
            x = st['x']
            g = np.mean(st['x'], axis=-1)
        return {'DFid': 0.5 * n2(W * (self.fwdb(p, x) - S))**2,
                'Cnstr': n2(self.P(p, o, g) - g)}

    def startpoint(self, p, o):
        return CCModCns.startpoint(self, p, o)

    nostart = True

    def retval(self, o, st):
        return None

    def retval_p(self, p, o, st):
        return self.split(p, st['y'])[0]

    def result(self, p, o, b, last):
        e = self.split(p, last['y'])[0]
        return b.getdict(), e[tuple(slice(0, n) for n in p['d'])]


_FM = {}

ENTRIES = [BPDN, BPDNJoint, ElasticNet, BPDNProjL1, MinL1InL2Ball, CnstrMOD,
           ConvBPDN, ConvBPDNJoint, ConvElasticNet, ConvBPDNGradReg,
           ConvBPDNProjL1, ConvMinL1InL2Ball, ConvBPDNMaskDcpl, ConvL1L1Grd,
           ConvBPDNScalarTV, ConvBPDNVectorTV, ConvBPDNRecTV, ConvBPDNInhib,
           AddMaskSim, MultiDict, ProdDict, ProdDictJoint, ProdDictL1L1Grd,
           ProdDictL1L1GrdJoint, TVL2Denoise, TVL1Denoise, TVL2Deconv,
           TVL1Deconv, SplineL1, RobustPCA, PPP, PPPConsensus, CCMod,
           CCModCG, CCModCns, CCModMD, CCModMDCG, CCModMDCns]
