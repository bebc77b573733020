"""Families of equivalent problems, each solved by several solver classes.

A case is (name, function) where the function returns an array in the standard
layout; the objective function of the family is evaluated from its definition.
"""
import numpy as np
from mc import ref
from mc.cat_admm import ConvBase, BPDN, maskarr, rng, randn

NIT = [3000]
ITER = [0]


def count(obj):
    # the number of the last iteration of the last solver that ran
    ITER[0] = obj.k


def aopt(**kw):
    d = {'Verbose': False, 'MaxMainIter': NIT[0], 'RelStopTol': 1e-6,
         'AbsStopTol': 1e-9, 'rho': 2.0, 'AutoRho': {'Enabled': False},
         'Callback': count}
    d.update(kw)
    return d


def popt(tol=1e-14, **kw):
    d = {'Verbose': False, 'MaxMainIter': NIT[0], 'RelStopTol': tol, 'Callback': count}
    d.update(kw)
    return d


class Csc(object):
    """1/2 ||W (sum d * x - s)||^2 + lmbda ||w x||_1 [x >= 0]"""
    base = ConvBase()
    lmbda = 0.3

    def probs(self):
        out = []
        for p in self.base.probs('quick'):
            for w in ('one', 'full'):
                for nn in ((False,) if p.get('cplx') else (False, True)):
                    for W in ('none', 'shared', 'persig'):
                        if W != 'none' and (p.get('cplx') or w == 'full'):
                            continue
                        out.append(dict(p, key='%s/%s/%d/%s' % (
                            p['key'], w, nn, W), prob=p, w=w, nn=nn, W=W))
        return out

    def arrays(self, q):
        return self.base.arrays(q['prob'])

    def obj(self, q, x):
        p = q['prob']
        D, S = self.base.std(p)
        w = self.base.l1w(p, {'L1Weight': q['w']})[1]
        W = maskarr(p, q['W'], self.base.dims(p))[1]
        r = W * (ref.synth(D, x, len(p['N'])) - S)
        if q['nn'] and np.min(x) < -1e-4:
            return np.inf
        if q['nn']:
            x = np.maximum(x, 0.0)
        return float(0.5 * np.sum(np.abs(r)**2) +
                     self.lmbda * np.sum(np.abs(w * x)))

    def cases(self, q):
        p = q['prob']
        b = self.base
        D, S = b.arrays(p)
        kw = b.kw(p)
        wl = b.l1w(p, {'L1Weight': q['w']})[0]
        W = maskarr(p, q['W'], b.dims(p))[0]
        xs = b.xshape(p)
        cx = bool(p.get('cplx'))
        lm = self.lmbda
        o = {'L1Weight': wl, 'NonNegCoef': q['nn']}
        dimN, Nv, Cd, C, K, Cx, M = b.dims(p)
        out = []

        def add(name, f):
            out.append((name, lambda: np.asarray(f()).reshape(xs)))
        from sporco.admm import cbpdn, cbpdntv, cbpdnin, parcbpdn, pdcsc
        from sporco.pgm import cbpdn as pcb
        if q['W'] == 'none':
            for hm in (False, True):
                add('ConvBPDN/%d' % hm, lambda hm=hm: cbpdn.ConvBPDN(
                    D, S, lm, cbpdn.ConvBPDN.Options(aopt(
                        HighMemSolve=hm, **o)), **kw).solve())
            add('ConvElasticNet', lambda: cbpdn.ConvElasticNet(
                D, S, lm, 0.0, cbpdn.ConvElasticNet.Options(aopt(**o)),
                **kw).solve())
            add('ConvBPDNGradReg', lambda: cbpdn.ConvBPDNGradReg(
                D, S, lm, 0.0, cbpdn.ConvBPDNGradReg.Options(aopt(**o)),
                **kw).solve())
            if not cx:
                add('ConvBPDNJoint', lambda: cbpdn.ConvBPDNJoint(
                    D, S, lm, 0.0, cbpdn.ConvBPDNJoint.Options(aopt(**o)),
                    **kw).solve())
                add('ConvBPDNInhib', lambda: cbpdnin.ConvBPDNInhib(
                    D, S, None, None, None, lm, 0.0, 0.0,
                    cbpdnin.ConvBPDNInhib.Options(aopt(**o)), **kw).solve())
                for c in ('Standard', 'Robust', None):
                    add('pgm.ConvBPDN/%s' % c, lambda c=c: pcb.ConvBPDN(
                        D, S, lm, pcb.ConvBPDN.Options(self.po(o, c)),
                        **kw).solve())
            if not cx and not q['nn']:
                for n in ('ConvBPDNScalarTV', 'ConvBPDNVectorTV',
                          'ConvBPDNRecTV'):
                    c = getattr(cbpdntv, n)
                    add(n, lambda c=c: c(D, S, lm, 0.0, c.Options(aopt(
                        L1Weight=wl)), **kw).solve())
            if Cd == 1 and C > 1 and not cx:
                add('ConvProdDictBPDN', lambda: pdcsc.ConvProdDictBPDN(
                    D, np.eye(C), S, lm, pdcsc.ConvProdDictBPDN.Options(
                        aopt(**o)), **kw).solve())
        if not cx:
            for c in ('Standard', 'Robust', None):
                add('pgm.ConvBPDNMask/%s' % c, lambda c=c: pcb.ConvBPDNMask(
                    D, S, lm, W, pcb.ConvBPDNMask.Options(self.po(o, c)),
                    **kw).solve())
            add('ParConvBPDN', lambda: parcbpdn.ParConvBPDN(
                D, S, lm, W, parcbpdn.ParConvBPDN.Options(aopt(
                    alpha=1.5, **o)), nproc=0, ngrp=M, **kw).solve())
            if np.ndim(wl) == 0:
                W1 = W if W is not None else np.ones(Nv)
                add('AddMaskSim', lambda: cbpdn.AddMaskSim(
                    cbpdn.ConvBPDN, D, S, W1, lm,
                    cbpdn.ConvBPDN.Options(self.ams(p, o)), **kw).solve())
        add('ConvBPDNMaskDcpl', lambda: cbpdn.ConvBPDNMaskDcpl(
            D, S, lm, W, cbpdn.ConvBPDNMaskDcpl.Options(aopt(**o)),
            **kw).solve())
        return out

    def ams(self, p, o):
        # no sparsity penalty on the mask simulation coefficients
        dimN, Nv, Cd, C, K, Cx, M = self.base.dims(p)
        w = np.ones((1,) * (dimN + 2) + (M + Cd,))
        w[..., M:] = 0.0
        return aopt(L1Weight=w, NonNegCoef=False) if not o['NonNegCoef'] \
            else aopt(L1Weight=w, NonNegCoef=True)

    def po(self, o, bt):
        from sporco.pgm import backtrack
        d = popt(**o)
        d['L'] = 200.0
        if bt:
            d['L'] = 20.0
            d['Backtrack'] = getattr(backtrack, 'Backtrack' + bt)()
        return d


class Bpdn(object):
    """1/2 ||D x - s||^2 + lmbda ||x||_1 and the equivalent constrained
    problems"""
    base = BPDN()
    lmbda = 0.3

    def probs(self):
        return [dict(p, key='%s/%d' % (p['key'], nn), prob=p, nn=nn)
                for p in self.base.probs('quick') for nn in (False, True)]

    def obj(self, q, x):
        D, S = self.base.data(q['prob'])
        if q['nn'] and np.min(x) < -1e-4:
            return np.inf
        if q['nn']:
            x = np.maximum(x, 0.0)
        return float(0.5 * np.sum((D @ x - S)**2) +
                     self.lmbda * np.sum(np.abs(x)))

    def cases(self, q):
        from sporco.admm import bpdn
        from sporco.pgm import bpdn as pb
        D, S = self.base.data(q['prob'])
        lm = self.lmbda
        o = {'NonNegCoef': q['nn']}
        n = D.shape[0]
        out = [('BPDN', lambda: bpdn.BPDN(
            D, S, lm, bpdn.BPDN.Options(aopt(**o))).solve()),
            ('BPDNJoint', lambda: bpdn.BPDNJoint(
                D, S, lm, 0.0, bpdn.BPDNJoint.Options(aopt(**o))).solve()),
            ('ElasticNet', lambda: bpdn.ElasticNet(
                D, S, lm, 0.0, bpdn.ElasticNet.Options(aopt(**o))).solve()),
            ('pgm.BPDN', lambda: pb.BPDN(
                D, S, lm, pb.BPDN.Options(popt(1e-7, L=200.0, **o))).solve())]

        def part(f):
            # one problem per signal: the constraint couples all the signals
            ref_ = bpdn.BPDN(D, S, lm, bpdn.BPDN.Options(aopt(**o))).solve()
            return np.hstack([f(D, S[:, [k]], ref_[:, [k]])
                              for k in range(S.shape[1])])

        def proj(D, s, x):
            return bpdn.BPDNProjL1(
                D, s, float(np.sum(np.abs(x))), bpdn.BPDNProjL1.Options(
                    aopt(**o))).solve()

        def ball(D, s, x):
            return bpdn.MinL1InL2Ball(
                D, s, float(np.linalg.norm(D @ x - s)),
                bpdn.MinL1InL2Ball.Options(aopt(ReturnVar='Y0', **o))).solve()
        out.append(('BPDNProjL1', lambda: part(proj)))
        out.append(('MinL1InL2Ball', lambda: part(ball)))
        return out


class Enet(Bpdn):
    """elastic net as a basis pursuit denoising problem"""
    mu = 0.4

    def obj(self, q, x):
        return Bpdn.obj(self, q, x) + 0.5 * self.mu * float(np.sum(x**2))

    def cases(self, q):
        from sporco.admm import bpdn
        from sporco.pgm import bpdn as pb
        D, S = self.base.data(q['prob'])
        lm, mu = self.lmbda, self.mu
        o = {'NonNegCoef': q['nn']}
        m = D.shape[1]
        Da = np.vstack([D, np.sqrt(mu) * np.eye(m)])
        Sa = np.vstack([S, np.zeros((m, S.shape[1]))])
        return [('ElasticNet', lambda: bpdn.ElasticNet(
            D, S, lm, mu, bpdn.ElasticNet.Options(aopt(**o))).solve()),
            ('BPDN', lambda: bpdn.BPDN(
                Da, Sa, lm, bpdn.BPDN.Options(aopt(**o))).solve()),
            ('pgm.BPDN', lambda: pb.BPDN(
                Da, Sa, lm, pb.BPDN.Options(popt(1e-7, L=200.0, **o)))
                .solve())]


class ConvCns(Csc):
    """constrained forms of the convolutional problem"""

    def probs(self):
        return [dict(q, key='%s/%d' % (q['key'], nb), nb=nb)
                for q in Csc.probs(self) if q['W'] == 'none' and
                q['w'] == 'one' and not q['prob'].get('cplx')
                for nb in (False, True)]

    def cases(self, q):
        from sporco.admm import cbpdn
        p = q['prob']
        b = self.base
        D, S = b.arrays(p)
        kw = b.kw(p)
        xs = b.xshape(p)
        o = {'NonNegCoef': q['nn'], 'NoBndryCross': q['nb']}
        lm = self.lmbda
        Ds, Ss = b.std(p)

        def plain():
            return np.asarray(cbpdn.ConvBPDN(
                D, S, lm, cbpdn.ConvBPDN.Options(aopt(**o)),
                **kw).solve()).reshape(xs)

        def proj():
            return np.asarray(cbpdn.ConvBPDNProjL1(
                D, S, float(np.sum(np.abs(plain()))),
                cbpdn.ConvBPDNProjL1.Options(aopt(**o)),
                **kw).solve()).reshape(xs)

        def ball():
            e = np.linalg.norm(ref.synth(Ds, plain(), len(p['N'])) - Ss)
            return np.asarray(cbpdn.ConvMinL1InL2Ball(
                D, S, float(e), cbpdn.ConvMinL1InL2Ball.Options(aopt(**o)),
                **kw).solve()).reshape(xs)
        out = [('ConvBPDN', plain)]
        # the constraints are per signal
        if xs[-2] == 1:
            out += [('ConvBPDNProjL1', proj)]
            if b.dims(p)[3] == 1:
                out += [('ConvMinL1InL2Ball', ball)]
        return out


FAMILIES = {'csc': Csc(), 'bpdn': Bpdn(), 'enet': Enet(), 'cns': ConvCns()}
