"""C03: the parallel convolutional BPDN solver."""
import itertools
from collections import OrderedDict
import numpy as np
from mc import ref, pool
from mc.cat_admm import ConvBase, cprob, maskarr, rng, randn
from mc.conform import close, enlarged
from mc.checks.c02 import devs

PROPERTY = 'C03'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 900
N = 3
BOUNDS = {
    'quick': 'all layouts x every number of groups x every single '
             'non-default option, 3 iterations against the dense model; '
             'traces of 16 iterations; the dictionary replaced after 0 to 3 '
             'of 4 iterations; every layout enlarged in each '
             'dimension in turn, with up to as many groups as filters; '
             'worker processes under a controlled scheduler: every task '
             'order and assignment of up to 3 groups to up to 3 workers and '
             'every single preemption at line granularity of 2 groups',
    'thorough': 'all pairs of non-default options; every pair of preemption '
                'points of 2 groups and every single one of 3 groups'}


class Par(ConvBase):
    name = 'parcbpdn.ParConvBPDN'
    lmbda = 0.3
    rho = 1.7

    def probs(self, tier):
        return cprob(['2d', '2dK', '2dC', '2dCK', '2dCd', '2dCdK', '1d',
                      '1dK', '1dCd', '3d', '2dM1'])

    def axes(self, tier, p):
        return OrderedDict([
            ('W', ['none', 'shared', 'gray', 'persig']),
            ('L1Weight', ['one', 'scalar', 'full', 'M']),
            ('alpha', [None, 0.6, 1.9]),
            ('RelaxParam', [1.0, 1.8]),
            ('NonNegCoef', [False, True]),
            ('NoBndryCross', [False, True]),
            ('HighMemSolve', [False, True]),
            ('AuxVarObj', [False, True]),
            ('ReturnX', [False, True]),
            ('rho', [1.7, 0.4]),
            ('start', ['zero', 'Y', 'YU'])])

    def arrays(self, p):
        D, S = ConvBase.arrays(self, p)
        if ALT[0]:
            D = 0.7 * np.roll(D, 1, axis=0) - 0.2 * D[::-1]
        return D, S

    def starts(self, p, o, G):
        dimN, Nv, Cd, C, K, Cx, M = self.dims(p)
        r = rng('par', p['key'], G)
        out = {}
        if o['start'] != 'zero':
            out['Y0'] = randn(r, Nv + (C, K, G))
            out['Y1'] = randn(r, Nv + (Cx, K, M))
        if o['start'] == 'YU':
            out['U0'] = 0.5 * randn(r, Nv + (C, K, G))
            out['U1'] = 0.5 * randn(r, Nv + (Cx, K, M))
        return out

    def make(self, p, o, G, nproc, extra):
        from sporco.admm import parcbpdn
        D, S = self.arrays(p)
        d = {k: o[k] for k in ('alpha', 'RelaxParam', 'NonNegCoef', 'rho',
                               'NoBndryCross', 'HighMemSolve', 'AuxVarObj',
                               'ReturnX')}
        d.update({'Verbose': False, 'RelStopTol': 1e-14,
                  'L1Weight': self.l1w(p, o)[0]})
        d.update(self.starts(p, o, G))
        d.update(extra)
        W = maskarr(p, o['W'], self.dims(p))[0]
        return parcbpdn.ParConvBPDN(
            D, S, self.lmbda, W, parcbpdn.ParConvBPDN.Options(d),
            nproc=nproc, ngrp=G, **self.kw(p))


E = Par()
_A = {}


class Model(object):
    """The group-wise ADMM recursion, with dense linear algebra"""
    def __init__(self, p, o, G):
        self.p, self.o, self.G = p, o, G
        self.dimN, Nv, Cd, C, K, Cx, M = E.dims(p)
        self.D, self.S = E.std(p)
        self.W = maskarr(p, o['W'], E.dims(p))[1]
        self.wl1 = E.l1w(p, o)[1]
        # groups as even as possible, larger ones first
        q, r = divmod(M, G)
        b = [0]
        for i in range(G):
            b.append(b[-1] + q + (1 if i < r else 0))
        self.b = b
        self.xs = [Nv + (Cx, K, b[i + 1] - b[i]) for i in range(G)]
        k = (p['key'], G)
        if k not in _A:
            _A[k] = self.mats()
        self.A = _A[k]
        self.a = 1.0 if o['alpha'] is None else o['alpha']
        st = E.starts(p, o, G)
        ys, xs = Nv + (C, K, G), Nv + (Cx, K, M)
        self.Y0 = st.get('Y0', np.zeros(ys))
        self.U0 = st.get('U0', np.zeros(ys))
        self.Y1 = st.get('Y1', np.zeros(xs))
        self.U1 = st.get('U1', np.zeros(xs))

    def mats(self):
        return [ref.mat(lambda x, i=i: self.syn(x, i), self.xs[i])
                for i in range(self.G)]

    def syn(self, x, i):
        return ref.synth(self.D[..., self.b[i]:self.b[i + 1]], x, self.dimN)

    def step(self):
        o, a, rho, G = self.o, self.a, self.o['rho'], self.G
        X = np.zeros(self.Y1.shape)
        DX = np.zeros(self.Y0.shape)
        for i in range(G):
            s = slice(self.b[i], self.b[i + 1])
            A = self.A[i]
            rhs = A.T.dot((self.Y0 - self.U0)[..., i].ravel()) + \
                a**2 * (self.Y1 - self.U1 / a)[..., s].ravel()
            x = np.linalg.solve(A.T.dot(A) + a**2 * np.eye(A.shape[1]), rhs)
            X[..., s] = x.reshape(self.xs[i])
            DX[..., i:i + 1] = self.syn(X[..., s], i)
        rl = o['RelaxParam']
        Xr = rl * X + (1 - rl) * self.Y1
        DXr = rl * DX + (1 - rl) * self.Y0
        Y0p, Y1p = self.Y0, self.Y1
        # y0: (1/2) ||W (sum_i y_i - s)||^2 + (rho/2) sum_i ||y_i - v_i||^2
        V = DXr + self.U0
        W2 = self.W**2 * np.ones(self.S.shape)
        T = (rho * V.sum(-1, keepdims=True) + G * W2 * self.S) / (
            rho + G * W2)
        self.Y0 = V + W2 * (self.S - T) / rho
        # y1
        y = ref.soft(Xr + self.U1 / a,
                     self.lm() * self.wl1 / (a**2 * rho) * np.ones(Xr.shape))
        self.Y1 = E.post(self.p, o, y)
        self.U0 = self.U0 + DXr - self.Y0
        self.U1 = self.U1 + a * (Xr - self.Y1)
        self.X = X
        xo, yo = (self.Y1, self.Y1) if o['AuxVarObj'] else (X, X)
        dfd = 0.5 * np.sum((self.W * (ref.synth(self.D, xo, self.dimN) -
                                      self.S))**2)
        l1 = np.sum(np.abs(self.wl1 * yo))
        return {'ObjFun': dfd + self.lm() * l1, 'DFid': dfd, 'RegL1': l1,
                'PrimalRsdl': np.sqrt(np.sum((DX - self.Y0)**2) + a**2 *
                                      np.sum((X - self.Y1)**2)),
                'DualRsdl': np.sqrt(np.sum((Y0p - self.Y0)**2) + a**2 *
                                    np.sum((Y1p - self.Y1)**2)),
                'Rho': rho}

    def lm(self):
        return E.lmbda


def scenarios(tier):
    out = []
    for p in E.probs(tier):
        M = p['M']
        for G in range(1, M + 1):
            ax = E.axes(tier, p)
            for o in devs(ax, 1 if tier == 'quick' else 2):
                out.append({'key': 'serial/%s/%d/%s' % (
                    p['key'], G, ','.join('%s=%s' % (k, o[k]) for k in o
                                          if o[k] != ax[k][0])),
                    'kind': 'serial', 'p': p, 'G': G, 'o': o, 'tier': tier})
    # long traces and enlarged layouts
    for p in E.probs(tier):
        ax = E.axes(tier, p)
        base = {k: v[0] for k, v in ax.items()}
        big = dict(base, W='gray', RelaxParam=1.8, alpha=0.6, L1Weight='full',
                   NonNegCoef=True, start='YU')
        for G in range(1, min(p['M'], 2) + 1):
            for o in devs(ax, 1) if p['key'] in ('2dCdK', '2dC') else [
                    base, big]:
                out.append({'kind': 'deep', 'p': p, 'G': G, 'o': o,
                            'n': DEEP[tier], 'tier': tier})
        for q in enlarged(p):
            for G in sorted({1, 2, 5, q['M'] - 1, q['M']}):
                if not 0 < G <= q['M'] or q['key'].endswith('+N') and G > 2:
                    continue
                for o in (base, big):
                    out.append({'kind': 'deep', 'p': q, 'G': G, 'o': o,
                                'n': N, 'tier': tier})
    for s in out:
        if s['kind'] == 'deep':
            s['key'] = 'deep/%s/%d/%d/%s' % (
                s['p']['key'], s['G'], s['n'], ','.join(
                    '%s=%s' % (k, s['o'][k]) for k in s['o']
                    if s['o'][k] != E.axes(tier, s['p'])[k][0]))
    # dictionary replacement
    for p in E.probs(tier):
        ax = E.axes(tier, p)
        for G in range(1, p['M'] + 1):
            for o in devs(ax, 1):
                out.append({'key': 'switch/%s/%d/%s' % (
                    p['key'], G, ','.join('%s=%s' % (k, o[k]) for k in o
                                          if o[k] != ax[k][0])),
                    'kind': 'switch', 'p': p, 'G': G, 'o': o, 'tier': tier})
    # worker processes
    cf = [{}, {'RelaxParam': 1.8, 'alpha': 0.6, 'W': 'gray',
               'NonNegCoef': True, 'HighMemSolve': True, 'start': 'YU'},
          {'RelaxParam': 1.8, 'NoBndryCross': True, 'L1Weight': 'full',
           'start': 'YU', 'W': 'persig'}]
    for key in ('2d', '2dCdK', '2dCd', '1dCd', '2dK'):
        p = cprob([key])[0]
        p['M'] = 3
        p['key'] = key + 'M3'
        for ci, c in enumerate(cf):
            o = {k: v[0] for k, v in E.axes(tier, p).items()}
            o.update(c)
            for G, nproc in ((2, 2), (3, 2), (3, 3), (2, 3)):
                out.append({'key': 'order/%s/%d/%d/%d' % (
                    p['key'], ci, G, nproc), 'kind': 'order', 'p': p, 'G': G,
                    'nproc': nproc, 'o': o, 'tier': tier})
            for G in ((2,) if tier == 'quick' else (2, 3)):
                for t in range(G):
                    out.append({'key': 'preempt/%s/%d/%d/%d' % (
                        p['key'], ci, G, t), 'kind': 'preempt', 'p': p,
                        'G': G, 'first': t, 'o': o, 'tier': tier})
            out.append({'key': 'real/%s/%d' % (p['key'], ci), 'kind': 'real',
                        'p': p, 'G': 3, 'o': o, 'tier': tier})
    for i in range(6):
        out.append({'key': 'conf/%d' % i, 'kind': 'conf', 'i': i,
                    'tier': tier})
    return out


def run(scn, rec):
    try:
        globals()[scn['kind']](scn, rec)
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        rec.violate('solver-exception', '%s: %s: %s (%s:%d)' % (
            scn['key'], type(ex).__name__, ex, tb.filename, tb.lineno))


DEEP = {'quick': 16, 'thorough': 40}


def courses(scn, n=N + 1):
    """model state and statistics after every iteration"""
    m = Model(scn['p'], scn['o'], scn['G'])
    out = []
    for k in range(n):
        st = m.step()
        out.append((m.X, m.Y1, st))
    return out


ALT = [False]


def switch(scn, rec):
    """the dictionary is replaced between two calls of solve"""
    n = 4
    for k0 in range(n):
        ALT[0] = False
        try:
            m = Model(scn['p'], scn['o'], scn['G'])
            cs = []
            for k in range(n):
                if k == k0:
                    ALT[0] = True
                    m.D = E.std(scn['p'])[0]
                    m.A = m.mats()
                st = m.step()
                cs.append((m.X, m.Y1, st))
            D = m.D
            ALT[0] = False
            for nproc in (1, 2):
                with pool.controlled(pool.Schedule()):
                    b = E.make(scn['p'], scn['o'], scn['G'], nproc,
                               {'MaxMainIter': k0})
                    if k0:
                        b.solve()
                    b.setdict(D.copy())
                    b.opt['MaxMainIter'] = n - k0
                    ret = b.solve()
                rec.step(n)
                rec.trace()
                if not check(scn, b, ret, n, cs, rec, 'dictionary replaced '
                             'after %d iterations, %d processes' % (
                                 k0, nproc)):
                    return
                want = ref.synth(D, cs[-1][1], m.dimN)
                ok, msg = close(np.asarray(b.reconstruct()).reshape(
                    want.shape), want, 1e-8)
                if not ok:
                    rec.violate('reconstruct', '%s: %s' % (scn['key'], msg))
        finally:
            ALT[0] = False
    rec.outcome(cs[-1][1])


def check(scn, b, ret, n, ref_, rec, what, tol=1e-8):
    o = scn['o']
    X, Y, _ = ref_[n - 1]
    rec.state()
    for nm, a, e in (('Y', b.Y, Y), ('X', b.X, X),
                     ('returned value', ret, X if o['ReturnX'] else Y)):
        ok, msg = close(a, e, tol)
        if not ok:
            rec.violate('iterate', '%s %s: %s after %d iterations: %s' % (
                scn['key'], what, nm, n, msg))
            return False
    if len(b.itstat) != n or b.k != n:
        rec.violate('iterations', '%s %s: %d statistics entries, k=%d after '
                    '%d iterations' % (scn['key'], what, len(b.itstat), b.k,
                                       n))
        return False
    for k in range(n):
        its, st = b.itstat[k], ref_[k][2]
        if its.Iter != k:
            rec.violate('iterations', '%s: %s' % (scn['key'], its.Iter))
        for f in st:
            v = getattr(its, f)
            if not abs(v - st[f]) <= 10 * tol * abs(st[f]) + tol / 10:
                rec.violate('statistics', '%s %s: iteration %d %s reported '
                            '%r, recomputed %r' % (scn['key'], what, k, f, v,
                                                   st[f]))
                return False
    return True


def parts(n):
    return [(n,)] + [(i, n - i) for i in range(1, n)] + [(1,) * n]


def serial(scn, rec):
    cs = courses(scn)
    for comp in parts(N):
        b = E.make(scn['p'], scn['o'], scn['G'], 1, {'MaxMainIter': 1})
        n = 0
        for c in comp:
            b.opt['MaxMainIter'] = c
            ret = b.solve()
            n += c
            rec.step(c)
            if not check(scn, b, ret, n, cs, rec, 'split %s' % (comp,)):
                return
        rec.trace()
    # an early stop leaves the state of the iteration it happened in
    for j in range(2):
        cnt = [0]

        def cb(obj):
            cnt[0] += 1
            return cnt[0] == j + 1
        b = E.make(scn['p'], scn['o'], scn['G'], 1,
                   {'MaxMainIter': N, 'Callback': cb})
        ret = b.solve()
        rec.trace()
        if not check(scn, b, ret, j + 1, cs, rec, 'callback stop %d' % j):
            return
        b.opt['MaxMainIter'] = 1
        b.opt['Callback'] = None
        ret = b.solve()
        if not check(scn, b, ret, j + 2, cs, rec, 'after callback stop'):
            return
    # reconstruction, and residual based stops
    D, S = E.std(scn['p'])
    want = ref.synth(D, cs[j + 1][1], E.dims(scn['p'])[0])
    ok, msg = close(np.asarray(b.reconstruct()).reshape(want.shape), want,
                    1e-8)
    if not ok:
        rec.violate('reconstruct', '%s: %s' % (scn['key'], msg))
    for R in (0.05, 0.2, 0.5, 0.9, 2.0):
        b = E.make(scn['p'], scn['o'], scn['G'], 1,
                   {'MaxMainIter': N, 'RelStopTol': R})
        ret = b.solve()
        n = len(b.itstat)
        met = [t.PrimalRsdl < t.EpsPrimal and t.DualRsdl < t.EpsDual
               for t in b.itstat]
        rec.trace()
        if any(met[:-1]) or (n < N and not met[-1]):
            rec.violate('stopping', '%s: RelStopTol %g: stopped after %d '
                        'iterations with residual rule %s' % (
                            scn['key'], R, n, met))
        if not check(scn, b, ret, n, cs, rec, 'RelStopTol %g' % R):
            return
    # without statistics
    b = E.make(scn['p'], scn['o'], scn['G'], 1,
               {'MaxMainIter': N, 'FastSolve': True,
                'AutoRho': {'Enabled': False}})
    b.solve()
    ok, msg = close(b.Y, cs[N - 1][1], 1e-8)
    if not ok or b.itstat:
        rec.violate('fastsolve', '%s: %s' % (scn['key'], msg))
    rec.outcome(cs[N - 1][1])
    rec.sample = {'ObjFun': cs[N - 1][2]['ObjFun']}


def deep(scn, rec):
    n = scn['n']
    cs = courses(scn, n)
    b = E.make(scn['p'], scn['o'], scn['G'], 1, {'MaxMainIter': n})
    ret = b.solve()
    rec.step(n)
    rec.trace()
    check(scn, b, ret, n, cs, rec, 'long trace', 1e-8 if n <= N else 1e-6)
    rec.outcome(cs[n - 1][1])


def execute(scn, nproc, sch, cs, rec, what):
    live = pool.CtlPool.live
    with pool.controlled(sch):
        b = E.make(scn['p'], scn['o'], scn['G'], nproc, {'MaxMainIter': 2})
        ret = b.solve()
        rec.step(sch.tasks)
        if not check(scn, b, ret, 2, cs, rec, what):
            return False
        # a second call, with a new set of worker processes
        b.opt['MaxMainIter'] = 1
        ret = b.solve()
        ok = check(scn, b, ret, 3, cs, rec, what + ' second call')
    rec.trace()
    if ok and pool.CtlPool.live != live:
        rec.violate('processes', '%s %s: worker processes left behind' % (
            scn['key'], what))
        return False
    if ok and nproc > 1 and not sch.maps:
        rec.violate('not-parallel', '%s: no task was given to a worker '
                    'process' % scn['key'])
        return False
    return ok


def order(scn, rec):
    """every order and assignment of the tasks"""
    cs = courses(scn)
    G, np_ = scn['G'], scn['nproc']
    for od in itertools.permutations(range(G)):
        for wk in itertools.product(range(np_), repeat=G):
            sch = pool.Schedule(od, wk)
            if not execute(scn, np_, sch, cs, rec, 'order %s workers %s' % (
                    od, wk)):
                return
    rec.outcome(cs[N - 1][1])
    rec.sample = {'orders': 'all', 'tasks': sch.tasks}


def preempt(scn, rec):
    """the first task is suspended after every line, the others run (and are
    suspended in turn, in the thorough tier), then it goes on"""
    cs = courses(scn)
    G, t = scn['G'], scn['first']
    od = (t,) + tuple(i for i in range(G) if i != t)
    wk = tuple(range(G))
    sch = pool.Schedule(od, wk)
    if not execute(scn, G, sch, cs, rec, 'no preemption'):
        return
    ln = dict(sch.lines)
    rec.count('lines', sum(ln.values()))
    for j in range(1, ln[t] + 1):
        others = [{}]
        if scn['tier'] != 'quick' and G == 2:
            others = [{}] + [{1 - t: [i]} for i in range(1, ln[1 - t] + 1)]
        for ot in others:
            pre = dict(ot)
            pre[t] = [j]
            sch = pool.Schedule(od, wk, pre)
            if not execute(scn, G, sch, cs, rec, 'preempted at %s' % pre):
                return
    rec.sample = {'preemption_points': ln[t]}


def real(scn, rec):
    """the real process pool, and the default numbers of groups"""
    cs = courses(scn)
    b = E.make(scn['p'], scn['o'], 3, 2, {'MaxMainIter': 2})
    ret = b.solve()
    rec.trace()
    if not check(scn, b, ret, 2, cs, rec, 'real pool'):
        return
    b.opt['MaxMainIter'] = 1
    ret = b.solve()
    check(scn, b, ret, 3, cs, rec, 'real pool second call')


def conf(scn, rec):
    """numbers of processes and groups"""
    import multiprocessing as mp
    from sporco.admm import parcbpdn
    p = cprob(['2dM1', '2d', '1dK', '2dCd'])
    nproc, ngrp = [(None, None), (None, 1), (None, 2), (1, None), (2, None),
                   (2, 1)][scn['i']]
    for q in p:
        M = q['M']
        if (ngrp or 1) > M or (nproc or 1) > M and ngrp is None:
            continue
        o = {k: v[0] for k, v in E.axes('quick', q).items()}
        D, S = E.arrays(q)
        b = parcbpdn.ParConvBPDN(
            D, S, E.lmbda, opt=parcbpdn.ParConvBPDN.Options(
                {'Verbose': False, 'MaxMainIter': N, 'RelStopTol': 1e-14,
                 'rho': o['rho'], 'RelaxParam': 1.0}),
            nproc=nproc, ngrp=ngrp, **E.kw(q))
        G = ngrp or nproc or min(16, mp.cpu_count(), M)
        s = dict(scn, p=q, o=o, G=G)
        with pool.controlled(pool.Schedule()):
            ret = b.solve()
        rec.trace()
        check(s, b, ret, N, courses(s), rec, 'nproc=%s ngrp=%s' % (nproc,
                                                                   ngrp))
