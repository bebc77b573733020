"""Catalogue of dictionary learning configurations."""
from collections import OrderedDict
import numpy as np
from mc.cat_admm import rng, randn, ConvBase, maskarr, cprob
from mc.cat_pgm import BT


def sstate(s):
    """observable state of an inner ADMM or PGM solver"""
    if hasattr(s, 'rho'):
        return [np.array(s.var_y()), np.array(s.var_u()), float(s.rho)]
    return [np.array(s.getmin()), np.array(s.var_y()), float(s.L)]


class DL(object):
    name = None

    def state(self, b):
        return sstate(b.xstep) + sstate(b.dstep) + [
            np.array(b.getdict()), np.array(b.getcoef())]


class BPDNDL(DL):
    name = 'bpdndl.BPDNDictLearn'
    lmbda = 0.2

    def probs(self, tier):
        return [dict(key='4,3,5', n=4, m=3, k=5), dict(key='3,4,2', n=3, m=4,
                                                       k=2)]

    def data(self, p):
        r = rng('bpdndl', p['key'])
        return randn(r, (p['n'], p['m'])), randn(r, (p['n'], p['k']))

    def make(self, p, d, x=None, dd=None):
        from sporco.dictlrn import bpdndl
        D0, S = self.data(p)
        o = {'BPDN': dict({'rho': 1.5}, **(x or {})),
             'CMOD': dict({'rho': 2.0}, **(dd or {}))}
        o.update(d)
        return bpdndl.BPDNDictLearn(D0, S, self.lmbda,
                                    bpdndl.BPDNDictLearn.Options(o))


class WBPDNDL(BPDNDL):
    name = 'wbpdndl.WeightedBPDNDictLearn'

    def wt(self, p):
        w = rng('wdl', p['key']).rand(p['n'], p['k'])
        w.ravel()[0] = 0.0
        return w

    def make(self, p, d, x=None, dd=None):
        from sporco.dictlrn import wbpdndl
        D0, S = self.data(p)
        o = {'BPDN': dict({'L': 9.0}, **(x or {})),
             'CMOD': dict({'L': 11.0}, **(dd or {}))}
        o.update(d)
        return wbpdndl.WeightedBPDNDictLearn(
            D0, S, self.lmbda, self.wt(p),
            wbpdndl.WeightedBPDNDictLearn.Options(o))


class ConvDL(DL):
    lmbda = 0.2
    mask = False

    def __init__(self, xm, dm):
        self.xm, self.dm = xm, dm
        self.name = '%s/%s/%s' % (
            'cbpdndlmd' if self.mask else 'cbpdndl', xm, dm)

    dims = ConvBase.dims

    def probs(self, tier):
        ps = cprob(['2dK', '2dCdK', '2dCK', '1dK', '2d'])
        ps.append(dict(key='multi', N=[4, 4], d=[3, 3], Cd=0, C=0, K=2, M=3,
                       dsz=[[2, 2, 1], [3, 3, 2]]))
        return ps

    def data(self, p):
        r = rng('cdl', p['key'])
        D0 = randn(r, tuple(p['d']) + ((p['Cd'],) if p['Cd'] else ()) +
                   (p['M'],))
        S = randn(r, tuple(p['N']) + ((p['C'],) if p['C'] else ()) +
                  ((p['K'],) if p['K'] else ()))
        return D0, S

    def kw(self, p):
        return {'dimN': len(p['N']), 'dimK': 1 if p['K'] else 0}

    def dsz(self, p):
        if 'dsz' in p:
            return tuple(tuple(b) for b in p['dsz'])
        return None

    def optdict(self, p, d, x, dd):
        o = {'CBPDN': dict({'rho': 1.5} if self.xm == 'admm' else {'L': 30.0},
                           **(x or {})),
             'CCMOD': dict({'rho': 2.0} if self.dm != 'pgm' else {'L': 40.0},
                           **(dd or {}))}
        if self.dm == 'cg':
            o['CCMOD']['CG'] = {'StopTol': 1e-13, 'MaxIter': 500}
        if self.dsz(p):
            o['DictSize'] = self.dsz(p)
        o.update(d)
        return o

    def make(self, p, d, x=None, dd=None):
        from sporco.dictlrn import cbpdndl
        D0, S = self.data(p)
        c = cbpdndl.ConvBPDNDictLearn
        o = c.Options(self.optdict(p, d, x, dd), xmethod=self.xm,
                      dmethod=self.dm)
        return c(D0, S, self.lmbda, o, xmethod=self.xm, dmethod=self.dm,
                 **self.kw(p))


class ConvMaskDL(ConvDL):
    mask = True
    wkind = 'shared'

    def W(self, p):
        return maskarr(p, self.wkind, self.dims(p))

    def make(self, p, d, x=None, dd=None):
        from sporco.dictlrn import cbpdndlmd
        D0, S = self.data(p)
        c = cbpdndlmd.ConvBPDNMaskDictLearn
        o = c.Options(self.optdict(p, d, x, dd), xmethod=self.xm,
                      dmethod=self.dm)
        return c(D0, S, self.lmbda, self.W(p)[0], o, xmethod=self.xm,
                 dmethod=self.dm, **self.kw(p))


def entries():
    out = [BPDNDL(), WBPDNDL()]
    for xm in ('admm', 'pgm'):
        for dm in ('ism', 'cg', 'cns', 'pgm'):
            out.append(ConvDL(xm, dm))
            out.append(ConvMaskDL(xm, dm))
    return out


class Par(ConvDL):
    """consensus dictionary learning with worker processes"""
    def __init__(self, mask, nproc=0):
        self.mask = mask
        self.nproc = nproc
        self.xm, self.dm = 'admm', 'cns'
        self.name = 'prlcnscdl/%s' % ('mask' if mask else 'plain')

    wkind = 'shared'

    def probs(self, tier):
        return [p for p in ConvDL.probs(self, tier)
                if p['key'] not in ('2dCK', '2d')]

    def W(self, p):
        return maskarr(p, self.wkind, self.dims(p))

    def make(self, p, d, x=None, dd=None):
        from sporco.dictlrn import prlcnscdl
        D0, S = self.data(p)
        kw = dict(self.kw(p), nproc=self.nproc)
        o = self.optdict(p, d, x, dd)
        if self.mask:
            c = prlcnscdl.ConvBPDNMaskDcplDictLearn_Consensus
            return c(D0, S, self.lmbda, self.W(p)[0], c.Options(o), **kw)
        c = prlcnscdl.ConvBPDNDictLearn_Consensus
        return c(D0, S, self.lmbda, c.Options(o), **kw)

    def state(self, b):
        return [np.array(b.getdict()), np.array(b.getcoef())]
