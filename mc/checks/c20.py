"""C20: equivalent ways of stating a problem give the same solver."""
import copy
import inspect
import itertools
from collections import OrderedDict
import numpy as np
from mc import conform
from mc.cat_admm import rng, randn, cprob, ConvBase
from mc.checks import c02
from mc.checks.c02 import devs, base, stats, setmax

PROPERTY = 'C20'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 600
N = 3
BOUNDS = {
    'quick': 'every solver and dictionary learning class and layout; all '
             'single restatements and all pairs of restatements of '
             'different arguments (options omitted / empty / copied / set '
             'item by item in either order; arrays in other memory layouts '
             'or read-only; scalar and full or singleton-axis weights; '
             'masks of every numeric type and every singleton pattern; '
             'integer and real scalars; positional and keyword arguments), '
             '3 iterations; every default parameter against its formula; '
             'every label of every dispatch function',
    'thorough': 'in addition with every single non-default option, and all '
                'triples of restatements'}


# ----------------------------------------------------------------- building
def patched(cls, tr, build):
    """build(), with the arguments of cls.__init__ transformed by tr"""
    own = '__init__' in cls.__dict__
    orig = cls.__init__
    sig = inspect.signature(orig)

    def init(self, *a, **k):
        ba = sig.bind(self, *a, **k)
        flat = OrderedDict()
        for n, v in list(ba.arguments.items())[1:]:
            kind = sig.parameters[n].kind
            if kind is inspect.Parameter.VAR_POSITIONAL:
                for i, w in enumerate(v):
                    flat['*%d' % i] = w
            elif kind is inspect.Parameter.VAR_KEYWORD:
                for i, w in v.items():
                    flat['**' + i] = w
            else:
                flat[n] = v
        style = tr(flat)
        pos, kw = [], {}
        vp = any(n.startswith('*') and not n.startswith('**') for n in flat)
        names = [n for n in sig.parameters][1:]
        contiguous = True
        for n in names:
            kind = sig.parameters[n].kind
            if kind in (inspect.Parameter.VAR_POSITIONAL,
                        inspect.Parameter.VAR_KEYWORD):
                continue
            if n not in flat:
                contiguous = False
                continue
            if contiguous and (style != 'keyword' or vp):
                pos.append(flat[n])
            else:
                kw[n] = flat[n]
        for n in flat:
            if n.startswith('**'):
                kw[n[2:]] = flat[n]
            elif n.startswith('*'):
                pos.append(flat[n])
        return orig(self, *pos, **kw)
    cls.__init__ = init
    try:
        return build()
    finally:
        if own:
            cls.__init__ = orig
        else:
            del cls.__init__


def isopt(v):
    from sporco.cdict import ConstrainedDict
    return isinstance(v, ConstrainedDict)


def isarr(v):
    return isinstance(v, np.ndarray) and v.ndim > 0 and v.dtype.kind in 'fc'


# ------------------------------------------------------------- restatements
def relayout(v, how):
    if how == 'fortran':
        return np.asfortranarray(v)
    if how == 'strided':
        big = np.full(tuple(2 * n + 1 for n in v.shape), np.nan, v.dtype)
        w = big[tuple(slice(1, None, 2) for _ in v.shape)]
        w[...] = v
        return w
    if how == 'reversed':
        rv = tuple(slice(None, None, -1) for _ in v.shape)
        return np.ascontiguousarray(v[rv])[rv]
    if how == 'readonly':
        w = v.copy()
        w.setflags(write=False)
        return w
    raise ValueError(how)


def leaves(d, pre=()):
    for k in d:
        v = dict.__getitem__(d, k) if isopt(d) else d[k]
        if isinstance(v, dict):
            for x in leaves(v, pre + (k,)):
                yield x
        else:
            yield pre + (k,), v


def opttype(s, v):
    """constructor of option objects of the type of v"""
    t = type(v)
    if s is not None and s.nm.startswith('d:cbpdndl'):
        c = s.cls()
        return lambda d=None: c.Options(d, xmethod=s.e.xm, dmethod=s.e.dm)
    return t


def reopt(s, v, how):
    t = opttype(s, v)
    if how == 'omitted':
        return None
    if how == 'empty':
        return t({})
    if how == 'deepcopy':
        return copy.deepcopy(v)
    if how == 'dict':
        return t(plain(v))
    out = t()
    ls = list(leaves(v))
    for path, x in (ls if how == 'itemwise' else ls[::-1]):
        if len(path) == 1:
            out[path[0]] = x
        else:
            out[path] = x
    return out


def plain(d):
    return {k: plain(v) if isinstance(v, dict) else v for k, v in d.items()}


def policies(d):
    """policy objects represented by their class and parameters"""
    return {k: policies(v) if isinstance(v, dict) else
            (type(v).__name__, sorted(vars(v).items()))
            if hasattr(v, '__dict__') and not callable(v) and
            not isinstance(v, np.ndarray) else v for k, v in d.items()}


def restate(s, kind, how):
    def tr(a):
        if kind == 'opt':
            for n in a:
                if isopt(a[n]):
                    a[n] = reopt(s, a[n], how)
        elif kind.startswith('arr:'):
            n = kind[4:]
            a[n] = relayout(a[n], how)
        elif kind.startswith('optarr:'):
            for n in a:
                if isopt(a[n]):
                    o = copy.deepcopy(a[n])
                    path = tuple(kind[7:].split('/'))
                    cur = o
                    for k in path[:-1]:
                        cur = cur[k]
                    v = np.asarray(cur[path[-1]])
                    cur[path[-1]] = relayout(v, how)
                    a[n] = o
        elif kind.startswith('num:'):
            n = kind[4:]
            a[n] = {'int': int, 'npfloat': np.float64, 'npint': np.int64,
                    'f32': np.float32}[how](a[n])
        elif kind == 'call':
            return how
        elif kind.startswith('w:'):
            n, t = kind[2:], how
            a[n] = None if isinstance(t, str) else t
        elif kind.startswith('ow:'):
            for n in a:
                if isopt(a[n]):
                    o = copy.deepcopy(a[n])
                    cur = o
                    path = kind[3:].split('/')
                    for k in path[:-1]:
                        cur = cur[k]
                    cur[path[-1]] = how
                    a[n] = o
        else:
            raise ValueError(kind)
        return None
    return tr


class Subject(object):
    """A catalogue entry with a problem and options."""
    def __init__(self, nm, p, o):
        self.nm, self.p, self.o = nm, p, o
        self.e = ents()[nm]

    def build0(self):
        e, p, o = self.e, self.p, self.o
        if self.nm[0] == 'd':
            d, x, dd = c02.DLOPT[o]
            return e.make(p, dict(d, Verbose=False, MaxMainIter=1), x, dd)
        ex = {'RelStopTol': 1e-12, 'MaxMainIter': 1}
        if self.nm[0] == 'a':
            ex['AbsStopTol'] = 1e-12
        return e.build(p, o, ex)

    def core(self, b):
        return self.e.core(b) if self.nm[0] == 'a' else b

    def build(self, trs):
        cls = self.cls()

        def tr(a):
            style = None
            for t in trs:
                style = t(a) or style
            return style
        return patched(cls, tr, self.build0)

    def cls(self):
        k = (self.nm, self.p['key'])
        if self.e.name.startswith('user.'):
            # the framework class that the solver class derives from
            from sporco.admm import admm
            from sporco.pgm import pgm
            return getattr(admm if self.nm[0] == 'a' else pgm,
                           self.e.name[5:])
        if k not in _CLS:
            b = self.build0()
            # the class constructed by the harness
            _CLS[k] = type(b)
            if self.nm[0] == 'a' and type(self.core(b)) is not type(b):
                _CLS[k] = type(self.core(b))
        return _CLS[k]

    def args(self):
        """the arguments the harness passes"""
        seen = []

        def tr(a):
            if not seen:
                seen.append(OrderedDict(
                    (n, copy.deepcopy(v) if isopt(v) else v)
                    for n, v in a.items()))
        b = self.build([tr])
        return seen[0], b

    def traj(self, b, n=N, single=True):
        """states after each of n iterations, statistics, returned value"""
        out = []
        setmax(self.nm, self.e, b, 1)
        self.core(b).opt['Verbose'] = False
        r = None
        for i in range(n):
            r = b.solve()
            out.append(self.snap(b))
        return out, stats(self.core(b)), r

    def snap(self, b):
        if self.nm[0] == 'd':
            return self.e.state(b)
        if self.nm[0] == 'a':
            s = [np.array(v) for v in self.e.get(b) if v is not None]
            s.append(float(self.core(b).rho))
            return s
        return list(self.e.get(b)) + [float(b.L)]


_CLS = {}


def differ(t1, t2, tol=1e-8):
    """first difference of two trajectories, or None"""
    for k, (a, b) in enumerate(zip(t1[0], t2[0])):
        for i, (x, y) in enumerate(zip(a, b)):
            ok, msg = conform.close(x, y, tol)
            if not ok:
                return 'iteration %d, variable %d: %s' % (k, i, msg)
    if len(t1[1]) != len(t2[1]):
        return '%d statistics instead of %d' % (len(t1[1]), len(t2[1]))
    for k, (p, q) in enumerate(zip(t1[1], t2[1])):
        if list(p) != list(q):
            return 'statistics %s instead of %s' % (list(p), list(q))
        for n in q:
            u, v = p[n], q[n]
            if (u is None) != (v is None) or (
                    u is not None and abs(u - v) > 1e-6 * abs(v) + 1e-8):
                return 'iteration %d %s: %r instead of %r' % (k, n, u, v)
    if t1[2] is None and t2[2] is None:
        return None
    m = c02.same(t1[2], t2[2])
    return 'returned value: ' + m if m else None


def ents():
    if not _E:
        _E.update(c02.ents())
        from mc import cat_user
        for pre, es in (('a:', cat_user.ADMM_ENTRIES),
                        ('p:', cat_user.PGM_ENTRIES)):
            for e in es:
                _E[pre + e.__name__] = e()
    return _E


_E = {}
WARGS = ('W',)


def maskshape(nm, a, p):
    """external shape of the mask, or None where masks are not by shape"""
    return None


def candidates(s, args, b):
    """restatements of every argument: list of (kind, how, pre) where pre
    are restatements that the reference is given"""
    out = []
    for h in ('deepcopy', 'dict', 'itemwise', 'itemwise-rev'):
        out.append(('opt', h, ()))
    names = [n for n in args if not n.startswith('*')]
    out.append(('call', 'keyword', ()))
    for n, v in args.items():
        if isarr(v):
            for h in ('fortran', 'strided', 'reversed', 'readonly'):
                out.append(('arr:' + n, h, ()))
        elif isinstance(v, float):
            out.append(('num:' + n, 'npfloat', ()))
            # integral values in all numeric types
            pre = (('num1:' + n, None),)
            for h in ('int', 'npint', 'f32'):
                out.append(('num:' + n, h, pre))
        elif isopt(v):
            for path, x in leaves(v):
                if isarr(x):
                    for h in ('fortran', 'strided', 'reversed', 'readonly'):
                        out.append(('optarr:' + '/'.join(path), h, ()))
    return out


def scenarios(tier):
    out = []
    for nm, e in ents().items():
        ps = e.probs('quick')
        for p in ps:
            if nm[0] == 'd':
                out.append({'key': 'restate/%s/%s' % (nm, p['key']),
                            'kind': 'restate', 'e': nm, 'p': p, 'o': 0,
                            'tier': tier})
                continue
            ax = e.axes('quick', p)
            for o in devs(ax, 0 if tier == 'quick' else 1):
                if hasattr(e, 'valid') and not e.valid(p, o):
                    continue
                out.append({'key': 'restate/%s/%s/%s' % (
                    nm, p['key'], ','.join('%s=%s' % (k, o[k]) for k in o
                                           if o[k] != ax[k][0])),
                    'kind': 'restate', 'e': nm, 'p': p, 'o': o,
                    'tier': tier})
    for nm, e in ents().items():
        for p in e.probs('quick'):
            out.append({'key': 'default/%s/%s' % (nm, p['key']),
                        'kind': 'default', 'e': nm, 'p': p, 'tier': tier})
            out.append({'key': 'weights/%s/%s' % (nm, p['key']),
                        'kind': 'weights', 'e': nm, 'p': p, 'tier': tier})
    for nm in ('par', 'online', 'onlinemask'):
        for p in Extra(nm).probs(tier):
            out.append({'key': 'default/x:%s/%s' % (nm, p['key']),
                        'kind': 'default', 'e': 'x:' + nm, 'p': p,
                        'tier': tier})
    out.append({'key': 'dispatch', 'kind': 'dispatch', 'tier': tier})
    return out


def run(scn, rec):
    globals()['run_' + scn['kind']](scn, rec)


def one(v):
    return np.sign(v) * max(1.0, np.round(abs(v))) if v else 0.0


def pre_tr(s, pre):
    trs = []
    for k, h in pre:
        if k.startswith('num1:'):
            n = k[5:]

            def tr(a, n=n):
                a[n] = float(one(a[n]))
            trs.append(tr)
        else:
            trs.append(restate(s, k, h))
    return trs


def run_restate(scn, rec):
    o = scn['o'] if scn['e'][0] == 'd' else scn['o']
    s = Subject(scn['e'], scn['p'], o)
    args, b = s.args()
    cand = candidates(s, args, b)
    refs = {(): s.traj(b)}

    def ref(pre):
        pre = tuple(sorted(set(pre)))
        if pre not in refs:
            refs[pre] = s.traj(s.build(pre_tr(s, pre)))
        return refs[pre]
    q = scn['tier'] == 'quick'
    combos = [(c,) for c in cand]
    pairs = [(c, d) for c, d in itertools.combinations(cand, 2)
             if c[0] != d[0]]
    if q and len(pairs) > 700:
        # each restatement with all of the representative ones
        rep = ('strided', 'itemwise', 'int', 'keyword')
        pairs = [(c, d) for c, d in pairs if c[1] in rep and d[1] in rep]
    combos += pairs
    for cs in combos:
        pre = sum((c[2] for c in cs), ())
        lab = ' + '.join('%s %s' % c[:2] for c in cs)
        try:
            t = s.traj(s.build(pre_tr(s, sorted(set(pre))) +
                               [restate(s, *c[:2]) for c in cs]))
        except Exception as ex:
            rec.violate('restatement-exception', '%s [%s]: %s: %s' % (
                scn['key'], lab, type(ex).__name__, ex))
            continue
        rec.trace()
        rec.step(N)
        rec.state(N)
        m = differ(t, ref(pre), 1e-5 if 'f32' in lab else 1e-8)
        if m:
            rec.violate('restatement-differs', '%s [%s]: %s' % (
                scn['key'], lab, m))
            if len(rec.violations) > 8:
                return
    rec.outcome(scn['key'], len(cand))


# ------------------------------------------------------------- defaults
class Extra(object):
    """Classes outside the solver catalogues: parallel and online solvers"""
    def __init__(self, name):
        self.name = name

    def probs(self, tier):
        return cprob(['2d', '2dC', '2dCd', '1d'] +
                     (['2dK', '2dCK', '2dCdK'] if self.name == 'par' else []))

    def arrays(self, p):
        return ConvBase.arrays(self, p)

    def make(self, p, extra):
        D, S = self.arrays(p)
        if self.name == 'par':
            from sporco.admm import parcbpdn
            c = parcbpdn.ParConvBPDN
            return c(D, S, 0.3, None, c.Options(extra), nproc=0, ngrp=1,
                     dimN=len(p['N']))
        from sporco.dictlrn import onlinecdl
        c = onlinecdl.OnlineConvBPDNDictLearn if self.name == 'online' \
            else onlinecdl.OnlineConvBPDNMaskDictLearn
        return c(D, 0.2, c.Options(extra), dimN=len(p['N']))

    def run(self, b, p, n):
        D, S = self.arrays(p)
        out = []
        if self.name == 'par':
            b.opt['MaxMainIter'] = 1
        else:
            b.opt['Verbose'] = False
            b.opt['CBPDN', 'MaxMainIter'] = 3
        for i in range(n):
            if self.name == 'par':
                b.solve()
                out.append([np.array(b.X), np.array(b.Y), float(b.rho)])
                continue
            if self.name == 'online':
                b.solve(S * (1 + i))
            else:
                b.solve(S * (1 + i), np.ones((1,) * S.ndim))
            out.append([np.array(b.getdict())])
        return out, stats(b), None


def lmbda_formula(cls, args, p):
    """one tenth of the largest magnitude of the correlation of the
    dictionary and the signal"""
    D = args['D0'] if 'D0' in args else args.get('D')
    S = args['S']
    if cls.__module__.endswith('rpca'):
        return S.shape[0] ** -0.5
    if cls.__module__.endswith('bpdndl') and \
            not cls.__module__.endswith('cbpdndl'):
        D = D / np.sqrt(np.sum(D**2, axis=0, keepdims=True))
    if S.ndim == 2 and D.ndim == 2 and 'N' not in p:
        return 0.1 * np.max(np.abs(D.T.dot(S)))
    dimN = len(p['N'])
    Cd, C, K, M = p['Cd'] or 1, p['C'] or 1, p['K'] or 1, D.shape[-1]
    D = D.reshape(D.shape[:dimN] + (Cd, 1, M))
    if 'D0' in args:
        D = D / np.sqrt(np.sum(D**2, axis=tuple(range(dimN + 2)),
                               keepdims=True))
    S = S.reshape(S.shape[:dimN] + (C, K, 1))
    ax = tuple(range(dimN))
    Df = np.fft.fftn(D, S.shape[:dimN], axes=ax)
    return 0.1 * np.max(np.abs(np.conj(Df) * np.fft.fftn(S, axes=ax)))


RHO50 = ('BPDN', 'BPDNJoint', 'ElasticNet', 'ConvBPDN', 'ConvBPDNJoint',
         'ConvElasticNet', 'ConvBPDNGradReg', 'ConvBPDNInhib', 'MultiDict',
         'AddMaskSim', 'ProdDict', 'ProdDictJoint')
RHO2 = ('TVL2Denoise', 'TVL1Denoise', 'TVL2Deconv', 'TVL1Deconv', 'SplineL1',
        'RobustPCA')


def with_opts(s, f):
    """transformation giving the options f(empty options)"""
    def tr(a):
        for n in a:
            if isopt(a[n]):
                a[n] = f(opttype(s, a[n]))
    return tr


def setarg(name, val):
    def tr(a):
        a[name] = val
    return tr


def run_default(scn, rec):
    nm, p = scn['e'], scn['p']
    if nm[0] == 'x':
        return run_extra(scn, rec)
    e = ents()[nm]
    o = 0 if nm[0] == 'd' else base(e.axes('quick', p))
    s = Subject(nm, p, o)
    cls = s.cls()
    args, _ = s.args()
    sig = inspect.signature(cls.__init__)

    def same(lab, trs1, trs2, tol=1e-8):
        rec.trace()
        rec.step(N)
        rec.state(N)
        try:
            m = differ(s.traj(s.build(trs1)), s.traj(s.build(trs2)), tol)
        except Exception as ex:
            m = '%s: %s' % (type(ex).__name__, ex)
        if m:
            rec.violate('default-differs', '%s [%s]: %s' % (scn['key'], lab,
                                                            m))
    empty = with_opts(s, lambda t: t({}))
    if any(isopt(v) for v in args.values()):
        same('options omitted', [with_opts(s, lambda t: None)] if
             nm[0] != 'd' or nm[2] != 'c' else
             [with_opts(s, lambda t: None)], [empty])
    # regularisation parameter
    if 'lmbda' in sig.parameters and 'lmbda' in args and \
            sig.parameters['lmbda'].default is None and not p.get('cplx') \
            and not p.get('dsz') and nm != 'd:prlcnscdl/mask':
        lam = lmbda_formula(cls, args, p)
        same('lmbda omitted', [setarg('lmbda', None)],
             [setarg('lmbda', float(lam))], 1e-7)
    short = nm[2:]
    if nm[0] == 'a' and short in RHO50 + RHO2:
        for lam in (0.02, 1.7):
            if short in RHO50:
                rho = 50.0 * lam + 1.0
                tgt = 1.0 + 18.3**(np.log10(lam) + 1.0)
            else:
                rho, tgt = 2.0 * lam + 0.1, 1.0
            ls = [n for n in args if n == 'lmbda'] or \
                [n for n, v in args.items() if isinstance(v, float)][:1]
            if not ls:
                continue
            ar = {'Enabled': True, 'Period': 1, 'RsdlRatio': 1.1}
            same('penalty for lmbda=%g' % lam,
                 [setarg(ls[0], lam), with_opts(
                     s, lambda t: t({'AutoRho': dict(ar)}))],
                 [setarg(ls[0], lam), with_opts(
                     s, lambda t: t({'rho': rho, 'AutoRho': dict(
                         ar, RsdlTarget=tgt)}))])
    if nm[0] == 'p':
        L = 500.0 if short in ('BPDN', 'WeightedBPDN', 'ConvBPDN',
                               'ConvBPDNMask', 'CnstrMOD',
                               'WeightedCnstrMOD') else None
        if L is not None:
            same('step size', [empty], [with_opts(s, lambda t: t({'L': L}))])
    if short == 'ConvBPDNInhib':
        for n, d in (('mu', 10 * args['lmbda'] if 'lmbda' in args else None),
                     ('gamma', 0.0), ('win_args', ('tukey', 0.5)),
                     ('Whn', p['d'][0])):
            if n in sig.parameters and d is not None:
                same('%s omitted' % n, [setarg(n, None)], [setarg(n, d)])
    if nm[0] in 'ap' and any(isopt(v) for v in args.values()):
        try:
            s.build([with_opts(s, lambda t: {'MaxMainIter': 1})])
            rec.violate('options-type', '%s: options given as a plain dict '
                        'accepted' % scn['key'])
        except Exception:
            pass
    rec.outcome(scn['key'])


def run_extra(scn, rec):
    e, p = Extra(scn['e'][2:]), scn['p']
    b = e.make(p, {})
    cls = type(b)
    ref = e.run(e.make(p, {}), p, N)
    D, S = e.arrays(p)

    def same(lab, tr, ref):
        rec.trace()
        rec.step(N)
        rec.state(N)
        try:
            t = e.run(patched(cls, tr, lambda: e.make(p, {})), p, N)
            m = differ(t, ref)
        except Exception as ex:
            m = '%s: %s' % (type(ex).__name__, ex)
        if m:
            rec.violate('default-differs', '%s [%s]: %s' % (scn['key'], lab,
                                                            m))
    same('options omitted', with_opts(None, lambda t: None), ref)
    same('keywords', lambda a: 'keyword', ref)
    for how in ('deepcopy', 'dict', 'itemwise', 'itemwise-rev'):
        same('options ' + how, restate(None, 'opt', how), ref)
    for how in ('fortran', 'strided', 'reversed', 'readonly'):
        for n in ('D', 'D0', 'S'):
            def tr(a, n=n, how=how):
                if n in a:
                    a[n] = relayout(a[n], how)
            same('%s %s' % (n, how), tr, ref)
    if e.name == 'par':
        a = {'D': D, 'S': S}
        lam = float(lmbda_formula(cls, a, p))
        r2 = e.run(patched(cls, setarg('lmbda', lam),
                           lambda: e.make(p, {})), p, N)
        same('lmbda omitted', setarg('lmbda', None), r2)
        r2 = e.run(patched(cls, setarg('W', np.ones(S.shape)),
                           lambda: e.make(p, {})), p, N)
        same('mask omitted', setarg('W', None), r2)
        r2 = e.run(patched(cls, with_opts(None, lambda t: t(
            {'rho': 50 * 0.3 + 1, 'alpha': 1.0})),
            lambda: e.make(p, {})), p, N)
        same('penalty omitted', with_opts(None, lambda t: t({})), r2)
        for G in range(1, p['M'] + 1):
            r2 = e.run(patched(cls, setarg('ngrp', G),
                               lambda: e.make(p, {})), p, N)
            for nproc in (0, None):
                def tr(a, G=G, nproc=nproc):
                    a['ngrp'] = G
                    a['nproc'] = 0
                same('ngrp=%d' % G, tr, r2)
    rec.outcome(scn['key'])


# -------------------------------------------------------------- weights
def run_weights(scn, rec):
    nm, p = scn['e'], scn['p']
    e = ents()[nm]
    o = 0 if nm[0] == 'd' else base(e.axes('quick', p))
    s = Subject(nm, p, o)
    args, b = s.args()
    opt = [v for v in args.values() if isopt(v)]
    opt = opt[0] if opt else {}
    full = scn['tier'] != 'quick'
    r = rng('weights', nm, p['key'])

    def traj(tr):
        return s.traj(s.build([tr]))

    def alt(kind, base_, others, tol=1e-8):
        """all the values mean the same"""
        try:
            ref = traj(restate(s, kind, base_))
        except Exception as ex:
            rec.violate('weight-exception', '%s [%s %s]: %s: %s' % (
                scn['key'], kind, np.shape(base_), type(ex).__name__, ex))
            return
        for v in others:
            rec.trace()
            rec.step(N)
            rec.state(N)
            try:
                m = differ(traj(restate(s, kind, v)), ref, tol)
            except Exception as ex:
                m = '%s: %s' % (type(ex).__name__, ex)
            if m:
                rec.violate('weight-differs', '%s [%s %s %s]: %s' % (
                    scn['key'], kind, np.shape(v),
                    getattr(v, 'dtype', type(v).__name__), m))

    def patterns(shape):
        """arrays constant along every subset of axes, each with its full
        equivalent"""
        w = r.rand(*shape) + 0.2
        w.ravel()[0] = 0.0
        big = [i for i, n in enumerate(shape) if n > 1]
        for k in range(len(big) + 1):
            for sub in itertools.combinations(big, k):
                sl = tuple(slice(0, 1) if i in sub else slice(None)
                           for i in range(len(shape)))
                v = w[sl]
                yield v, np.ascontiguousarray(np.broadcast_to(v, shape))

    # coefficient weights
    shp = None
    if nm[0] in 'ap':
        if nm[2:] in ('BPDN', 'BPDNJoint', 'ElasticNet', 'MinL1InL2Ball',
                      'WeightedBPDN'):
            shp = np.shape(args['D'])[1:] + np.shape(args['S'])[1:]
        elif hasattr(e, 'xshape') and 'N' in p and \
                nm[2:] not in ('AddMaskSim', 'MultiDict', 'ProdDict',
                               'ProdDictJoint', 'ProdDictL1L1Grd',
                               'ProdDictL1L1GrdJoint'):
            shp = e.xshape(p)
    if shp is not None and 'L1Weight' in opt:
        alt('ow:L1Weight', 0.6, [np.full(shp, 0.6),
                                 np.full((1,) * len(shp), 0.6)])
        for v, f in patterns(shp):
            alt('ow:L1Weight', f, [v, np.asfortranarray(f)])
        iw = r.randint(0, 3, shp) * 60
        alt('ow:L1Weight', iw.astype(float), [
            iw, iw.astype('uint8'), iw.astype('int8')])
    for n in ('GradWeight', 'TVWeight'):
        if n in opt and 'M' in p:
            alt('ow:' + n, 0.6, [np.full((p['M'],), 0.6)])
            alt('ow:' + n, 1.0, [np.ones((p['M'],)), 1,
                                 np.ones((p['M'],), int)])
    if 'DFidWeight' in opt:
        S = args['S']
        alt('ow:DFidWeight', 0.6, [np.full(S.shape, 0.6),
                                   np.full((1,) * S.ndim, 0.6)])
        for v, f in patterns(S.shape):
            alt('ow:DFidWeight', f, [v, np.asfortranarray(f)])
        bw = (r.rand(*S.shape) > 0.4)
        alt('ow:DFidWeight', bw.astype(float), [bw, bw.astype(int),
                                                bw.astype('uint8')])
        iw = np.where(bw, r.randint(12, 120, S.shape), 0)
        alt('ow:DFidWeight', iw.astype(float), [
            iw, iw.astype('uint8'), iw.astype('int8')])
    # masks
    if 'W' in args and args['W'] is not None or 'W' in args and \
            nm in ('p:ConvBPDNMask', 'p:WeightedBPDN'):
        internal = nm in ('p:ConvCnstrMODMask',)
        if nm in ('p:WeightedCnstrMOD', 'd:wbpdndl.WeightedBPDNDictLearn'):
            shape, pats = np.shape(args['S']), False
        elif internal:
            dimN, Nv, Cd, C, K, Cx, M = e.dims(p)
            shape, pats = Nv + (C, K, 1), True
        else:
            shape, pats = np.shape(args['S']), nm != 'p:WeightedBPDN'
        bw = r.rand(*shape) > 0.35
        alt('w:W', bw.astype(float), [bw, bw.astype('int8'),
                                      bw.astype('uint8'), bw.astype(int),
                                      bw.astype('float32'),
                                      np.asfortranarray(bw.astype(float))])
        # values whose squares and products do not fit the small types
        iw = np.where(bw, r.randint(12, 120, shape), 0)
        alt('w:W', iw.astype(float), [iw.astype('int8'), iw.astype('uint8'),
                                      iw, iw.astype('float32')])
        sig = inspect.signature(s.cls().__init__)
        if 'W' in sig.parameters and sig.parameters['W'].default is None:
            alt('w:W', np.ones(shape), ['none'])
        if pats:
            for v, f in patterns(shape):
                alt('w:W', f, [v])
                if len(rec.violations) > 6:
                    break
    rec.outcome(scn['key'])


# -------------------------------------------------------------- dispatch
def run_dispatch(scn, rec):
    from sporco.admm import ccmod, ccmodmd, cbpdn
    from sporco.pgm import cbpdn as pcbpdn, ccmod as pccmod
    from sporco.dictlrn import cbpdndl, cbpdndlmd
    r = np.random.RandomState(4)
    S = r.randn(5, 4, 2)
    D = r.randn(2, 2, 3)
    Z = r.randn(5, 4, 1, 2, 3)
    W = (r.rand(5, 4, 2) > 0.3).astype(float)
    A = {'ism': ccmod.ConvCnstrMOD_IterSM, 'cg': ccmod.ConvCnstrMOD_CG,
         'cns': ccmod.ConvCnstrMOD_Consensus, 'pgm': pccmod.ConvCnstrMOD}
    AM = {'ism': ccmodmd.ConvCnstrMODMaskDcpl_IterSM,
          'cg': ccmodmd.ConvCnstrMODMaskDcpl_CG,
          'cns': ccmodmd.ConvCnstrMODMaskDcpl_Consensus,
          'pgm': pccmod.ConvCnstrMODMask}
    X = {'admm': cbpdn.ConvBPDN, 'pgm': pcbpdn.ConvBPDN}
    XM = {'admm': cbpdn.ConvBPDNMaskDcpl, 'pgm': pcbpdn.ConvBPDNMask}
    adm = {k: A[k] for k in ('ism', 'cg', 'cns')}
    admm = {k: AM[k] for k in ('ism', 'cg', 'cns')}
    Wi = W.reshape(5, 4, 1, 2, 1)
    dz = (2, 2, 3)
    tab = [
        ('admm.ccmod', ccmod.ConvCnstrMOD, ccmod.ConvCnstrMODOptions, None,
         adm, 'cns', (Z, S, dz), (Z, S, dz)),
        ('admm.ccmodmd', ccmodmd.ConvCnstrMODMaskDcpl,
         ccmodmd.ConvCnstrMODMaskDcplOptions, None, admm, 'cns',
         (Z, S, W, dz), (Z, S, W, dz)),
        ('cbpdndl X', cbpdndl.ConvBPDN, cbpdndl.ConvBPDNOptions,
         cbpdndl.ConvBPDNOptionsDefaults, X, 'admm', (D, S, 0.2),
         (D, S, 0.2)),
        ('cbpdndl D', cbpdndl.ConvCnstrMOD, cbpdndl.ConvCnstrMODOptions,
         cbpdndl.ConvCnstrMODOptionsDefaults, A, 'pgm', (Z, S, dz), None),
        ('cbpdndlmd X', cbpdndlmd.ConvBPDNMask,
         cbpdndlmd.ConvBPDNMaskOptions,
         cbpdndlmd.ConvBPDNMaskOptionsDefaults, XM, 'admm', (D, S, 0.2, W),
         None),
        ('cbpdndlmd D', cbpdndlmd.ConvCnstrMODMask,
         cbpdndlmd.ConvCnstrMODMaskOptions,
         cbpdndlmd.ConvCnstrMODMaskOptionsDefaults, AM, 'pgm',
         None, None)]

    def go(b):
        b.opt['MaxMainIter'] = 1
        out = []
        for i in range(N):
            b.solve()
            out.append([np.array(b.getdict() if hasattr(b, 'getdict') else
                                 b.getcoef())])
        return out, stats(b), None

    def check(lab, f, g):
        rec.trace()
        rec.step(N)
        rec.state(N)
        try:
            m = differ(go(f()), go(g()))
        except Exception as ex:
            m = '%s: %s' % (type(ex).__name__, ex)
        if m:
            rec.violate('dispatch-differs', '%s: %s' % (lab, m))

    def bad(lab, f, exc=ValueError):
        rec.evaluation()
        try:
            f()
        except exc:
            return
        except Exception as ex:
            rec.violate('dispatch-error', '%s: %s: %s' % (
                lab, type(ex).__name__, ex))
            return
        rec.violate('dispatch-error', '%s: no exception' % lab)

    for lab, fn, fo, fd, classes, dflt, a, _ in tab:
        for m in list(classes) + [None]:
            c = classes[m or dflt]
            kw = {'method': m} if m else {}
            x = a or (Z, S, Wi if c is pccmod.ConvCnstrMODMask else W, dz)
            for od in ({}, {'RelStopTol': 0.5, 'MaxMainIter': 7}):
                check('%s method=%s %s' % (lab, m, od),
                      lambda: fn(*x, opt=fo(od, **kw), **kw),
                      lambda: c(*x, opt=c.Options(od)))
                check('%s method=%s %s positional' % (lab, m, od),
                      lambda: fn(*(x + (fo(od, **kw),)), **kw),
                      lambda: c(*(x + (c.Options(od),))))
                o1, o2 = policies(fo(od, **kw)), policies(c.Options(od))
                rec.evaluation()
                if o1 != o2:
                    rec.violate('dispatch-options', '%s method=%s %s: %s '
                                'instead of %s' % (lab, m, od, o1, o2))
            check('%s method=%s no options' % (lab, m),
                  lambda: fn(*x, **kw), lambda: c(*x))
            check('%s method=%s options None' % (lab, m),
                  lambda: fn(*x, opt=fo(**kw), **kw), lambda: c(*x))
            # pgm options for pgm etc.
            if not issubclass(type(fo({}, **kw)), c.Options):
                rec.violate('dispatch-options', '%s method=%s: options of '
                            'type %s' % (lab, m, type(fo({}, **kw))))
            if not isinstance(fn(*x, **kw), c):
                rec.violate('dispatch-class', '%s method=%s: %s' % (
                    lab, m, type(fn(*x, **kw))))
            if fd is not None:
                want = policies(c.Options.defaults)
                got = policies(fd(**kw))
                up = {'MaxMainIter': 1}
                if (m or dflt) != 'pgm':
                    up['AutoRho'] = dict(want['AutoRho'], **{
                        'Period': 10, 'AutoScaling': False,
                        'RsdlRatio': 10.0, 'Scaling': 2.0,
                        'RsdlTarget': 1.0})
                want.update(up)
                g2 = dict(got)
                if 'AutoRho' in g2:
                    g2['AutoRho'] = dict(want['AutoRho'], **g2['AutoRho'])
                rec.evaluation()
                if g2 != want:
                    rec.violate('dispatch-defaults', '%s method=%s: %s' % (
                        lab, m, {k: (g2.get(k), want.get(k)) for k in
                                 set(g2) | set(want)
                                 if g2.get(k) != want.get(k)}))
        for m in ('xyz', 'CNS', ''):
            x = a or (Z, S, W, dz)
            bad('%s method=%r' % (lab, m), lambda: fn(*x, method=m))
            bad('%s options method=%r' % (lab, m),
                lambda: fo({}, method=m))
            if fd:
                bad('%s defaults method=%r' % (lab, m),
                    lambda: fd(method=m))
    # dictionary learning: labels of the options object and the solver
    for c, mask in ((cbpdndl.ConvBPDNDictLearn, False),
                    (cbpdndlmd.ConvBPDNMaskDictLearn, True)):
        xs, ds = ('admm', 'pgm', None), ('ism', 'cg', 'cns', 'pgm', None)
        a = (D, S, 0.2) + ((W,) if mask else ())
        dx, dd = 'admm', ('cns' if False else 'pgm')
        for x0, d0, x1, d1 in itertools.product(xs, ds, xs, ds):
            lab = '%s Options(%s, %s) with (%s, %s)' % (
                c.__name__, x0, d0, x1, d1)
            ok = (x1 in (None, x0 or dx)) and (d1 in (None, d0 or dd))

            def f():
                return c(*a, opt=c.Options({}, xmethod=x0, dmethod=d0),
                         xmethod=x1, dmethod=d1, dimK=1)
            if not ok:
                bad(lab, f)
                continue
            try:
                b = f()
                k = (mask, x0 or dx, d0 or dd)
                rec.trace()
                xc = (XM if mask else X)[k[1]]
                dc = (AM if mask else A)[k[2]]
                if not isinstance(b.xstep, xc) or \
                        not isinstance(b.dstep, dc):
                    rec.violate('dispatch-class', '%s: %s, %s' % (
                        lab, type(b.xstep), type(b.dstep)))
            except Exception as ex:
                rec.violate('dispatch-error', '%s: %s: %s' % (
                    lab, type(ex).__name__, ex))
        for x0, d0 in itertools.product(xs, ds):
            lab = '%s without options (%s, %s)' % (c.__name__, x0, d0)
            try:
                b = c(*a, xmethod=x0, dmethod=d0, dimK=1)
                g = c(*a, opt=c.Options({}, xmethod=x0, dmethod=d0),
                      xmethod=x0, dmethod=d0, dimK=1)
                t = []
                for q in (b, g):
                    q.opt['MaxMainIter'] = 2
                    q.solve()
                    t.append([np.array(q.getdict()), np.array(q.getcoef())])
                rec.trace()
                m = c02.same(t[0], t[1])
            except Exception as ex:
                m = '%s: %s' % (type(ex).__name__, ex)
            if m:
                rec.violate('dispatch-differs', '%s: %s' % (lab, m))
        for x0, d0 in (('xyz', None), (None, 'xyz'), ('cns', 'cns'),
                       ('admm', 'admm')):
            bad('%s Options(%s, %s)' % (c.__name__, x0, d0),
                lambda: c.Options({}, xmethod=x0, dmethod=d0))
            bad('%s(%s, %s)' % (c.__name__, x0, d0),
                lambda: c(*a, xmethod=x0, dmethod=d0, dimK=1))
    rec.outcome('dispatch')
