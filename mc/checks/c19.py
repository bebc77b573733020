"""C19: dictionary learning alternates its two solvers."""
import itertools
from collections import OrderedDict
import numpy as np
from mc import ref, cat_dl
from mc.cat_admm import cprob, maskarr, rng, randn
from mc.conform import close
from mc.checks.c02 import devs

PROPERTY = 'C19'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 600
N = 3
DEEP = {'quick': 15, 'thorough': 40}
BOUNDS = {
    'quick': 'all 18 dictionary learning classes (matrix, weighted, 4 x 2 x 2 '
             'convolutional combinations) and the generic class; all '
             'layouts x every single non-default option (and pairs for one '
             'layout), 3 outer iterations in every split, callback stop and '
             'zero length call; 15 outer iterations of every class and '
             'layout with the base options and with residual balancing or '
             'backtracking at every inner iteration',
    'thorough': 'all pairs of non-default options on every layout; 40 outer '
                'iterations'}

ARX = {'Period': 10, 'AutoScaling': False, 'RsdlRatio': 10.0, 'Scaling': 2.0,
       'RsdlTarget': 1.0}
AR1 = {'Enabled': True, 'Period': 1, 'AutoScaling': True, 'RsdlRatio': 1.1,
       'Scaling': 3.0, 'RsdlTarget': 1.0}


class Cat(object):
    """one dictionary learning class with its two component classes"""

    def axes(self, p):
        a = OrderedDict([('AccurateDFid', [False, True]),
                         ('ZeroMean', [False, True]),
                         ('xi', [1, 2]), ('di', [1, 2]),
                         ('L1Weight', ['one', 'arr'])])
        if self.xm == 'admm':
            a['xrlx'] = [1.8, 1.0]
            a['xar'] = [0, 1]
        else:
            a['xbt'] = [0, 1]
        if self.dm != 'pgm':
            a['drlx'] = [1.8, 1.0]
            a['dar'] = [0, 1]
        else:
            a['dbt'] = [0, 1]
        a['NonNegCoef'] = [False, True]
        a['xstart'] = [0, 1]
        return a

    def xshape(self, p):
        dimN, Nv, Cd, C, K, M = layout(p)
        return Nv + (1 if Cd > 1 else C, K, M)

    def subopts(self, p, o, full):
        """options of the coding and dictionary updates; full: everything,
        otherwise what the user gives"""
        from sporco.pgm.backtrack import BacktrackStandard
        x = {'L1Weight': self.l1w(p, o)}
        if self.nn:
            x['NonNegCoef'] = o['NonNegCoef']
        d = {'ZeroMean': o['ZeroMean']}
        if full or o['xi'] != 1:
            x['MaxMainIter'] = o['xi']
        if full or o['di'] != 1:
            d['MaxMainIter'] = o['di']
        if self.xm == 'admm':
            x.update({'rho': 1.5, 'RelaxParam': o['xrlx']})
            if o['xar']:
                x['AutoRho'] = dict(AR1)
            elif full:
                x['AutoRho'] = dict(ARX)
            if o['xstart']:
                x.update(self.xstart(p))
        else:
            x['L'] = 30.0
            if o['xbt']:
                x['Backtrack'] = BacktrackStandard(gamma_u=1.3)
            if o['xstart']:
                x['X0'] = randn(rng('x0', p['key']), self.xshape(p))
        if self.dm != 'pgm':
            d.update({'rho': 2.0, 'RelaxParam': o['drlx']})
            if self.dm == 'cg':
                d['CG'] = {'StopTol': 1e-14, 'MaxIter': 800}
            if o['dar']:
                d['AutoRho'] = dict(AR1)
            elif full:
                d['AutoRho'] = self.dar()
        else:
            d['L'] = 40.0
            if o['dbt']:
                d['Backtrack'] = BacktrackStandard(gamma_u=1.3)
        return x, d

    def dar(self):
        return dict(ARX)

    def xstart(self, p):
        return {'Y0': randn(rng('y0', p['key']), self.xshape(p))}


def layout(p):
    Nv = tuple(p['N'])
    return len(Nv), Nv, p['Cd'] or 1, p['C'] or 1, p['K'] or 1, p['M']


class Matrix(Cat):
    nn = True

    def __init__(self, weighted):
        self.w = weighted
        self.xm = 'pgm' if weighted else 'admm'
        self.dm = 'pgm' if weighted else 'ism'
        self.name = 'wbpdndl' if weighted else 'bpdndl'
        self.e = cat_dl.WBPDNDL() if weighted else cat_dl.BPDNDL()

    def axes(self, p):
        a = Cat.axes(self, p)
        if self.w:
            a['dnn'] = [False, True]
            a['W'] = ['arr', 'none', 'scalar', 'row']
        return a

    def valid(self, o):
        return not (o.get('dnn') and o['ZeroMean'])

    def probs(self, tier):
        return self.e.probs(tier)

    def dar(self):
        return {'Period': 10}

    def xshape(self, p):
        return (p['m'], p['k'])

    def l1w(self, p, o):
        if o['L1Weight'] == 'one':
            return 1.0
        return rng('l1', p['key']).rand(p['m'], p['k']) + 0.3

    def data(self, p, o):
        D0, S = self.e.data(p)
        W = None
        if self.w and o['W'] != 'none':
            W = self.e.wt(p)
            if o['W'] == 'scalar':
                W = np.array([0.6])
            elif o['W'] == 'row':
                W = W[:1]
        return D0, S, W

    def make(self, p, o, extra):
        from sporco.dictlrn import bpdndl, wbpdndl
        D0, S, W = self.data(p, o)
        x, d = self.subopts(p, o, False)
        if self.w:
            d['NonNegCoef'] = o['dnn']
        opt = {'Verbose': False, 'AccurateDFid': o['AccurateDFid'],
               'BPDN': x, 'CMOD': d}
        opt.update(extra)
        if self.w:
            c = wbpdndl.WeightedBPDNDictLearn
            return c(D0, S, self.e.lmbda, W, c.Options(opt))
        c = bpdndl.BPDNDictLearn
        return c(D0, S, self.e.lmbda, c.Options(opt))

    def proj(self, D, o):
        if o['ZeroMean']:
            D = D - D.mean(0)
        if o.get('dnn'):
            D = np.maximum(D, 0)
        n = np.sqrt(np.sum(D**2, 0, keepdims=True))
        return np.divide(D, n, out=np.zeros_like(D), where=n > 0)

    def parts(self, p, o):
        """the two component solvers and the first dictionary"""
        from sporco.admm import bpdn, cmod
        from sporco.pgm import bpdn as pbpdn, cmod as pcmod
        D0, S, W = self.data(p, o)
        x, d = self.subopts(p, o, True)
        Dp = self.proj(D0, o)
        x['Verbose'] = d['Verbose'] = False
        if self.w:
            d['NonNegCoef'] = o['dnn']
            d['X0'] = Dp
            xs = pbpdn.WeightedBPDN(Dp, S, self.e.lmbda, W,
                                    pbpdn.WeightedBPDN.Options(x))
            ds = pcmod.WeightedCnstrMOD(
                None, S, W, (p['m'], p['k']),
                pcmod.WeightedCnstrMOD.Options(d))
        else:
            d.update({'Y0': Dp, 'U0': np.zeros(Dp.shape),
                      'AuxVarObj': False})
            xs = bpdn.BPDN(Dp, S, self.e.lmbda, bpdn.BPDN.Options(x))
            ds = cmod.CnstrMOD(None, S, (p['m'], p['k']),
                               cmod.CnstrMOD.Options(d))
        return xs, ds, Dp, Dp

    def objective(self, p, o, D, X):
        D0, S, W = self.data(p, o)
        w = 1.0 if W is None else W
        dfd = 0.5 * np.sum(w * (D.dot(X) - S)**2)
        return dfd, np.sum(np.abs(self.l1w(p, o) * X)), self.e.lmbda

    def full(self, b):
        return np.array(b.getdict())

    fulld = full

    def crop(self, p, D):
        return D


class Conv(Cat):
    nn = True

    def __init__(self, e, generic=False):
        self.e, self.mask = e, e.mask
        self.xm, self.dm = e.xm, e.dm
        self.generic = generic
        self.name = e.name + ('/generic' if generic else '')

    def axes(self, p):
        a = Cat.axes(self, p)
        if self.generic:
            for k in ('AccurateDFid',):
                a[k] = a[k][:1]
        if self.mask:
            a['W'] = ['shared', 'gray', 'persig']
            if self.xm == 'admm':
                a['xstart'] = [0]
        return a

    def probs(self, tier):
        ps = self.e.probs(tier)
        ps += cprob(['2dCd', '1d', '3d', '2dC'])
        return ps

    def valid(self, o):
        return True

    def l1w(self, p, o):
        if o['L1Weight'] == 'one':
            return 1.0
        return rng('l1', p['key']).rand(*self.xshape(p)) + 0.3

    def dictlrn_opts(self, p, o):
        pass

    def make(self, p, o, extra):
        D0, S = self.e.data(p)
        x, d = self.subopts(p, o, False)
        top = {'Verbose': False, 'AccurateDFid': o['AccurateDFid']}
        top.update(extra)
        if self.generic:
            from sporco.dictlrn import dictlrn
            del top['AccurateDFid']
            xs, ds, Dp, Dc = self.parts(p, o)
            return dictlrn.DictLearn(xs, ds, dictlrn.DictLearn.Options(top))
        e = self.e
        if self.mask:
            e.wkind = o['W']
        return e.make(p, top, x, d)

    def dsz(self, p):
        return self.e.dsz(p) or tuple(p['d']) + (
            (p['Cd'],) if p['Cd'] else ()) + (p['M'],)

    def proj(self, p, o):
        dimN, Nv, Cd, C, K, M = layout(p)
        D0, S = self.e.data(p)
        D = np.zeros(Nv + (Cd, 1, M))
        D[tuple(slice(0, n) for n in p['d'])] = D0.reshape(
            tuple(p['d']) + (Cd, 1, M))
        return self.feas(p, o, D)

    def feas(self, p, o, D):
        dimN, Nv, Cd, C, K, M = layout(p)
        sup = ref.fsupport(self.dsz(p), Nv, dimN, Cd, M)
        return ref.pdict(D, sup, dimN, zm=o['ZeroMean'])

    def crop(self, p, D):
        dimN, Nv, Cd, C, K, M = layout(p)
        dsz = self.dsz(p)
        mx = dsz[:dimN]
        if isinstance(dsz[0], tuple):
            mx = tuple(max(b[i] for b in dsz) for i in range(dimN))
        return D[tuple(slice(0, n) for n in mx)]

    def parts(self, p, o):
        from sporco.admm import cbpdn, ccmod, ccmodmd
        from sporco.pgm import cbpdn as pcbpdn, ccmod as pccmod
        dimN, Nv, Cd, C, K, M = layout(p)
        D0, S = self.e.data(p)
        x, d = self.subopts(p, o, True)
        x['Verbose'] = d['Verbose'] = False
        Dp = self.proj(p, o)
        Dc = self.crop(p, Dp)
        De = Dc.reshape(Dc.shape[:dimN] + ((Cd,) if Cd > 1 else ()) + (M,))
        kw = self.e.kw(p)
        dk = dict(kw, dimK=kw.get('dimK', 1))
        dsz = self.dsz(p)
        if self.mask:
            w, ws = maskarr(p, o['W'], self.e.dims(p))
            if self.xm == 'admm':
                c = cbpdn.ConvBPDNMaskDcpl
            else:
                c = pcbpdn.ConvBPDNMask
            xs = c(De, S, self.e.lmbda, w, c.Options(x), **kw)
            c = {'ism': ccmodmd.ConvCnstrMODMaskDcpl_IterSM,
                 'cg': ccmodmd.ConvCnstrMODMaskDcpl_CG,
                 'cns': ccmodmd.ConvCnstrMODMaskDcpl_Consensus,
                 'pgm': pccmod.ConvCnstrMODMask}[self.dm]
            if self.dm == 'pgm':
                d['X0'] = Dp
                w = np.array([1.0]) if w is None else ws
            elif self.dm == 'cns':
                d['Y0'] = Dp
            else:
                # data block of the decoupled variable, stacked along the
                # filter axis
                b0 = np.zeros(Nv + (C, 1, K)) if C == Cd else \
                    np.zeros(Nv + (1, 1, C * K))
                d['Y0'] = np.concatenate((b0, Dp), axis=-1)
            ds = c(None, S, w, dsz, c.Options(d), **dk)
        else:
            c = cbpdn.ConvBPDN if self.xm == 'admm' else pcbpdn.ConvBPDN
            xs = c(De, S, self.e.lmbda, c.Options(x), **kw)
            c = {'ism': ccmod.ConvCnstrMOD_IterSM,
                 'cg': ccmod.ConvCnstrMOD_CG,
                 'cns': ccmod.ConvCnstrMOD_Consensus,
                 'pgm': pccmod.ConvCnstrMOD}[self.dm]
            d['X0' if self.dm == 'pgm' else 'Y0'] = Dp
            ds = c(None, S, dsz, c.Options(d), **dk)
        return xs, ds, Dp, Dc

    def objective(self, p, o, D, X):
        dimN, Nv, Cd, C, K, M = layout(p)
        D0, S = self.e.data(p)
        w = 1.0
        if self.mask:
            w = maskarr(p, o['W'], self.e.dims(p))[1]
        r = ref.synth(D, X.reshape(self.xshape(p)), dimN) - S.reshape(
            Nv + (C, K, 1))
        dfd = 0.5 * np.sum((w * r)**2)
        return dfd, np.sum(np.abs(self.l1w(p, o) * X.reshape(
            self.xshape(p)))), self.e.lmbda

    def full(self, b):
        if self.generic:
            return np.array(b.dstep.getdict(crop=False))
        return np.array(b.getdict(crop=False))

    def fulld(self, d):
        return np.array(d.getdict(crop=False))


def cats():
    out = [Matrix(False), Matrix(True)]
    for e in cat_dl.entries():
        if isinstance(e, cat_dl.ConvDL):
            out.append(Conv(e))
    out.append(Conv(cat_dl.ConvDL('admm', 'cns'), True))
    out.append(Conv(cat_dl.ConvMaskDL('admm', 'ism'), True))
    return OrderedDict((c.name, c) for c in out)


def scenarios(tier):
    out = []
    for nm, c in cats().items():
        for i, p in enumerate(c.probs(tier)):
            ax = c.axes(p)
            n = 1 if tier == 'quick' and p['key'] != '2dK' else 2
            for o in devs(ax, 1):
                k = [k for k in o if o[k] != ax[k][0]]
                if not k or k[0] in ('xar', 'dar', 'xbt', 'dbt'):
                    out.append({'key': '%s/%s/deep/%s' % (
                        nm, p['key'], ','.join(k)), 'c': nm, 'p': p, 'o': o,
                        'n': n, 'N': DEEP[tier]})
            for o in devs(ax, n):
                if hasattr(c, 'valid') and not c.valid(o):
                    continue
                out.append({'key': '%s/%s/%s' % (
                    nm, p['key'], ','.join('%s=%s' % (k, o[k]) for k in o
                                           if o[k] != ax[k][0])),
                    'c': nm, 'p': p, 'o': o, 'n': n})
    return out


def sstats(s):
    return s.itstat[-1]._asdict() if s.itstat else {}


def course(c, p, o, rec, N=N):
    """alternation of the two component solvers"""
    xs, ds, Dp, Dc = c.parts(p, o)
    out = [(Dp, np.array(xs.getcoef()), None)]
    for j in range(N + 1):
        xs.solve()
        ds.setcoef(xs.getcoef())
        ds.solve()
        xs.setdict(ds.getdict())
        rec.step(o['xi'] + o['di'])
        D, X = c.fulld(ds), np.array(xs.getcoef())
        ix, id_ = sstats(xs), sstats(ds)
        st = {'Iter': j}
        if getattr(c, 'generic', False):
            st.update(ObjFunX=ix['ObjFun'], XPrRsdl=ix['PrimalRsdl'],
                      XDlRsdl=ix['DualRsdl'], XRho=ix['Rho'],
                      ObjFunD=id_['DFid'], DPrRsdl=id_['PrimalRsdl'],
                      DDlRsdl=id_['DualRsdl'], DRho=id_['Rho'])
        else:
            if o['AccurateDFid']:
                dfd, l1, lm = c.objective(p, o, D, X)
                st.update(DFid=dfd, RegL1=l1, ObjFun=dfd + lm * l1)
            else:
                st.update({k: ix[k] for k in ('ObjFun', 'DFid', 'RegL1')})
            st['Cnstr'] = id_['Cnstr']
            if c.name == 'wbpdndl':
                st.update(XRsdl=ix['Rsdl'], XL=ix['L'], DRsdl=id_['Rsdl'],
                          DL=id_['L'])
            else:
                for pre, s, m in (('X', ix, c.xm), ('D', id_, c.dm)):
                    if m != 'pgm':
                        st.update({pre + 'PrRsdl': s['PrimalRsdl'],
                                   pre + 'DlRsdl': s['DualRsdl'],
                                   pre + 'Rho': s['Rho']})
                    else:
                        st.update({pre + '_L': s['L'],
                                   pre + '_Rsdl': s['Rsdl']})
                        if o[pre.lower() + 'bt']:
                            st.update({pre + '_F_Btrack': s['F_Btrack'],
                                       pre + '_Q_Btrack': s['Q_Btrack'],
                                       pre + '_ItBt': s['IterBTrack']})
        out.append((D, X, st))
    return out


def check(c, scn, b, ret, n, cs, rec, what):
    p, o = scn['p'], scn['o']
    D, X, _ = cs[n]
    rec.state()
    todo = [('dictionary', c.full(b), D),
            ('cropped dictionary', np.array(b.getdict()), c.crop(p, D)),
            ('coefficients', np.array(b.getcoef()), X)]
    if ret is not None:
        todo.append(('returned dictionary', ret, c.crop(p, D)))
    for nm, a, e in todo:
        ok, msg = close(np.asarray(a), e, 1e-7)
        if not ok:
            rec.violate('alternation', '%s %s: %s after %d iterations: %s' % (
                scn['key'], what, nm, n, msg))
            return False
    # the dictionary is feasible
    D = c.full(b)
    F = c.proj(D, o) if isinstance(c, Matrix) else c.feas(p, o, D)
    if n == 0 or c.dm == 'pgm' or not isinstance(c, Matrix):
        ok, msg = close(D, F, 1e-7)
        if not ok:
            rec.violate('infeasible', '%s %s: dictionary after %d iterations:'
                        ' %s' % (scn['key'], what, n, msg))
            return False
    if len(b.itstat) != n or b.j != n:
        rec.violate('iterations', '%s %s: %d statistics entries, j=%d after '
                    '%d iterations' % (scn['key'], what, len(b.itstat), b.j,
                                       n))
        return False
    tp = 0.0
    for k in range(n):
        its, st = b.itstat[k], cs[k + 1][2]
        if its.Time < tp:
            rec.violate('statistics', '%s: Time decreases' % scn['key'])
        tp = its.Time
        if set(its._fields) - set(st) != {'Time'}:
            rec.violate('statistics', '%s: fields %s' % (
                scn['key'], its._fields))
            return False
        for f in st:
            v = getattr(its, f)
            if v is None or not abs(v - st[f]) <= 1e-6 * abs(st[f]) + 1e-8:
                rec.violate('statistics', '%s %s: iteration %d %s reported '
                            '%r, expected %r' % (scn['key'], what, k, f, v,
                                                 st[f]))
                return False
    return True


def parts(n):
    return [(n,)] + [(i, n - i) for i in range(1, n)] + [(1,) * n]


def run(scn, rec):
    try:
        run_(scn, rec)
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        rec.violate('solver-exception', '%s: %s: %s (%s:%d)' % (
            scn['key'], type(ex).__name__, ex, tb.filename, tb.lineno))


def run_(scn, rec):
    c = cats()[scn['c']]
    p, o = scn['p'], scn['o']
    N = scn.get('N', 3)
    cs = course(c, p, o, rec, N)
    for comp in parts(N) if N == 3 else ((N,), (N - 4, 4), (1,) * N):
        b = c.make(p, o, {'MaxMainIter': 0})
        if not check(c, scn, b, None, 0, cs, rec, 'at the start'):
            return
        ret = b.solve()
        if not check(c, scn, b, ret, 0, cs, rec, 'zero iterations'):
            return
        n = 0
        for k in comp:
            b.opt['MaxMainIter'] = k
            ret = b.solve()
            n += k
            if not check(c, scn, b, ret, n, cs, rec, 'split %s' % (comp,)):
                return
        rec.trace()
    for j in range(2):
        seen = []

        def cb(obj):
            seen.append(np.array(obj.getdict()))
            return len(seen) == j + 1
        b = c.make(p, o, {'MaxMainIter': N, 'Callback': cb})
        ret = b.solve()
        rec.trace()
        if not check(c, scn, b, ret, j + 1, cs, rec, 'callback stop %d' % j):
            return
        for i, d in enumerate(seen):
            if not close(d, c.crop(p, cs[i + 1][0]), 1e-7)[0]:
                rec.violate('callback', '%s: dictionary seen by the callback '
                            'of iteration %d' % (scn['key'], i))
        b.opt['MaxMainIter'] = 1
        b.opt['Callback'] = None
        ret = b.solve()
        if not check(c, scn, b, ret, j + 2, cs, rec, 'after callback stop'):
            return
    # reconstruction
    if isinstance(c, Conv) and not c.generic:
        dimN = layout(p)[0]
        xsh = c.xshape(p)
        D, X, _ = cs[j + 2]
        X = X.reshape(xsh)
        D2, X2 = np.roll(D, 1, 0), X[::-1] + 0.1
        for args, (Dr, Xr) in (((), (D, X)), ((D2,), (D2, X)),
                               ((D2, X2), (D2, X2)), ((None, X2), (D, X2))):
            want = ref.synth(Dr, Xr, dimN)
            ok, msg = close(np.asarray(b.reconstruct(*args)), want, 1e-7)
            if not ok:
                rec.violate('reconstruct', '%s: %d arguments: %s' % (
                    scn['key'], len(args), msg))
    h = b.getitstat()
    for f in b.itstat[0]._fields:
        if list(getattr(h, f)) != [getattr(t, f) for t in b.itstat]:
            rec.violate('statistics', '%s: getitstat().%s' % (scn['key'], f))
    rec.outcome(cs[N][1])
    rec.sample = {'options': {k: str(v) for k, v in o.items()}}
