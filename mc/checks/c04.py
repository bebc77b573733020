"""C04: parallel consensus convolutional dictionary learning."""
import itertools
from collections import OrderedDict
import numpy as np
from mc import ref, pool
from mc.cat_admm import cprob, maskarr, rng, randn
from mc.cat_dl import Par
from mc.conform import close, enlarged
from mc.checks.c02 import devs

PROPERTY = 'C04'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 900
N = 3
BOUNDS = {
    'quick': 'plain and mask classes; all layouts x every pair of non-default '
             'options, 3 iterations in every split and callback stop, '
             'against the dense model; traces of 16 iterations; every layout '
             'enlarged in each dimension in turn (at least 5 signals); worker processes under a controlled '
             'scheduler: every task order and assignment of up to 3 signals '
             'to up to 3 workers and every single preemption at line '
             'granularity of 2 signals',
    'thorough': 'all triples of non-default options; every pair of '
                'preemption points of 2 signals and every single one of 3 '
                'signals'}


def probs(tier):
    ps = cprob(['2dK', '2dCdK', '1dK', '2d', '2dCd', '1dCd', '3d', '2dM1'])
    ps.append(dict(key='multi', N=[4, 4], d=[3, 3], Cd=0, C=0, K=2, M=3,
                   dsz=[[2, 2, 1], [3, 3, 2]]))
    ps.append(dict(key='K3', N=[4, 3], d=[2, 2], Cd=0, C=0, K=3, M=2))
    return ps


def axes(mask):
    a = OrderedDict([
        ('xrlx', [1.8, 1.0, 0.9]),
        ('drlx', [1.8, 1.0, 1.2]),
        ('xrho', [1.5, 0.3]),
        ('drho', [2.0, 0.7]),
        ('ZeroMean', [False, True]),
        ('AccurateDFid', [False, True]),
        ('start', ['zero', 'Y', 'YU'])])
    if mask:
        a['W'] = ['shared', 'none', 'gray', 'persig']
    return a


def layout(p):
    Nv = tuple(p['N'])
    Cd, C, K = p['Cd'] or 1, p['C'] or 1, p['K'] or 1
    return len(Nv), Nv, Cd, C, K, p['M']


def starts(p, o, mask):
    """initial values of the coding variables (standard layout)"""
    dimN, Nv, Cd, C, K, M = layout(p)
    r = rng('c04', p['key'])
    y1, y0 = randn(r, Nv + (1, K, M)), randn(r, Nv + (C, K, 1))
    u1, u0 = 0.3 * randn(r, y1.shape), 0.3 * randn(r, y0.shape)
    if not mask:
        return y1, u1, None, None
    return y1, u1, y0, u0


class Run(Par):
    def __init__(self, mask, nproc):
        Par.__init__(self, mask, nproc)

    def build(self, p, o, extra):
        x = {'rho': o['xrho'], 'RelaxParam': o['xrlx']}
        d = {'rho': o['drho'], 'RelaxParam': o['drlx'],
             'ZeroMean': o['ZeroMean']}
        if o['start'] != 'zero':
            y1, u1, y0, u0 = starts(p, o, self.mask)
            # the block variable of the mask class is the concatenation of
            # the two blocks along the filter axis
            cat = (lambda a, b: b) if y0 is None else \
                (lambda a, b: np.concatenate(
                    (np.swapaxes(a, -3, -1) if a.shape[-3] > 1 else a, b),
                    axis=-1))
            x['Y0'] = cat(y0, y1)
            if o['start'] == 'YU':
                x['U0'] = cat(u0, u1)
        if self.mask:
            self.wkind = o['W']
        e = {'Verbose': False, 'AccurateDFid': o['AccurateDFid']}
        e.update(extra)
        return self.make(p, e, x, d)


def fsup(p):
    dimN, Nv, Cd, C, K, M = layout(p)
    d = p.get('dsz')
    dsz = tuple(tuple(b) for b in d) if d else tuple(p['d']) + (
        (p['Cd'],) if p['Cd'] else ()) + (M,)
    return ref.fsupport(dsz, Nv, dimN, Cd, M)


class Model(object):
    """One step: sparse coding of every signal with the current dictionary,
    one consensus step of the dictionary update with the new coefficients."""

    def __init__(self, p, o, mask):
        self.p, self.o, self.mask = p, o, mask
        self.dimN, Nv, Cd, C, K, M = self.lay = layout(p)
        g = np.indices(Nv).reshape(self.dimN, -1)
        df = [(g[i][:, None] - g[i][None, :]) % Nv[i]
              for i in range(self.dimN)]
        self.T = np.ravel_multi_index(df, Nv)
        e = Run(mask, 0)
        D0, S = e.data(p)
        P = self.P = int(np.prod(Nv))
        S = S.reshape(Nv + (C, K, 1))
        self.s = np.moveaxis(S.reshape(P, C, K), -1, 0)      # K, P, C
        if mask:
            w = maskarr(p, o['W'], e.dims(p))[1]
            w = np.broadcast_to(w, Nv + (C, K, 1))
            self.w2 = np.moveaxis(w.reshape(P, C, K), -1, 0)**2
        self.sup = fsup(p)
        D = np.zeros(Nv + (Cd, 1, M))
        D[tuple(slice(0, n) for n in p['d'])] = D0.reshape(
            tuple(p['d']) + (Cd, 1, M))
        self.D = self.pcn(D)
        d = self.vec(self.D)
        self.ud = np.repeat(d[None] / o['drho'], K, axis=0)
        self.y = np.zeros((K, P, M))
        self.u = np.zeros((K, P, M))
        self.y0 = np.zeros((K, P, C))
        self.u0 = np.zeros((K, P, C))
        lm = e.lmbda
        self.lm = lm
        if o['start'] != 'zero':
            y1, u1, y0, u0 = starts(p, o, mask)

            def cv(a):
                return np.moveaxis(a.reshape(P, K, M), 1, 0)

            def cv0(a):
                return np.moveaxis(a.reshape(P, C, K), -1, 0)
            self.y = cv(y1)
            if mask:
                self.y0 = cv0(y0)
            if o['start'] == 'YU':
                self.u = cv(u1)
                if mask:
                    self.u0 = cv0(u0)
            else:
                # dual optimality condition of the initial point
                self.u = lm / o['xrho'] * np.sign(self.y)
                if mask:
                    self.u0 = self.w2 * self.y0 / o['xrho']
        self.yd1 = np.zeros((K, P, C))
        self.ud1 = np.zeros((K, P, C))

    def pcn(self, D):
        return ref.pdict(D, self.sup, self.dimN, zm=self.o['ZeroMean'])

    def vec(self, D):
        dimN, Nv, Cd, C, K, M = self.lay
        return D.reshape(self.P, Cd, M)

    def conv(self, f):
        """matrix of sum_m f_m * (.), f: P x M"""
        return np.concatenate([f[:, m][self.T] for m in range(f.shape[1])],
                              axis=1)

    def step(self):
        dimN, Nv, Cd, C, K, M = self.lay
        P, o, mask = self.P, self.o, self.mask
        d = self.vec(self.D)
        A = np.concatenate([self.conv(d[:, c]) for c in range(C)], axis=0)
        xr, dr = o['xrlx'], o['drlx']
        X = np.zeros((K, P, M))
        DXs = np.zeros((K, P, Cd, M))
        Ds1 = np.zeros((K, P, C))
        r1 = 1.0 if mask else o['xrho']
        r2 = 1.0 if mask else o['drho']
        y, u, y0, u0 = (np.zeros_like(v) for v in (
            self.y, self.u, self.y0, self.u0))

        def fl(v):          # P x C -> CP
            return v.T.ravel()
        for k in range(K):
            t = self.s[k] + (self.y0[k] - self.u0[k] if mask else 0)
            b = A.T.dot(fl(t)) + r1 * fl(self.y[k] - self.u[k])
            x = np.linalg.solve(A.T.dot(A) + r1 * np.eye(A.shape[1]), b)
            Ax = A.dot(x).reshape(C, P).T
            x = x.reshape(M, P).T
            x = xr * x + (1 - xr) * self.y[k]
            y[k] = ref.soft(x + self.u[k], self.lm / o['xrho'])
            u[k] = self.u[k] + x - y[k]
            if mask:
                Ax = xr * Ax + (1 - xr) * (self.y0[k] + self.s[k])
                v = Ax - self.s[k] + self.u0[k]
                y0[k] = o['xrho'] * v / (self.w2[k] + o['xrho'])
                u0[k] = u0[k] + self.u0[k] + Ax - self.s[k] - y0[k]
            # dictionary
            B = self.conv(y[k])
            G = np.linalg.inv(B.T.dot(B) + r2 * np.eye(B.shape[1]))
            for c in range(C):
                t = self.s[k][:, c]
                if mask:
                    t = t + self.yd1[k][:, c] - self.ud1[k][:, c]
                q = (d[:, c] - self.ud[k][:, c]).T.ravel()
                z = G.dot(B.T.dot(t) + r2 * q)
                DXs[k][:, c] = z.reshape(M, P).T
                Ds1[k][:, c] = B.dot(z)
            DXs[k] = dr * DXs[k] + (1 - dr) * d
            if mask:
                Ds1[k] = dr * Ds1[k] + (1 - dr) * (self.yd1[k] + self.s[k])
        self.y, self.u, self.y0, self.u0 = y, u, y0, u0
        av = np.mean(DXs + self.ud, axis=0).reshape(Nv + (Cd, 1, M))
        self.D = self.pcn(av)
        dn = self.vec(self.D)
        self.ud = self.ud + DXs - dn
        if mask:
            v = Ds1 - self.s + self.ud1
            self.yd1 = o['drho'] * v / (self.w2 + o['drho'])
            self.ud1 = self.ud1 + Ds1 - self.yd1 - self.s
        dfd = 0.0
        A = np.concatenate([self.conv(dn[:, c]) for c in range(C)], axis=0)
        for k in range(K):
            e = A.dot(y[k].T.ravel()).reshape(C, P).T - self.s[k]
            dfd += 0.5 * np.sum((self.w2[k] if mask else 1.0) * e**2)
        l1 = np.sum(np.abs(y))
        return (self.D.copy(),
                np.moveaxis(y, 0, 1).reshape(Nv + (1, K, M)).copy(),
                {'ObjFun': dfd + self.lm * l1, 'DFid': dfd, 'RegL1': l1})


DEEP = {'quick': 16, 'thorough': 40}


def courses(scn, n=N + 1):
    m = Model(scn['p'], scn['o'], scn['mask'])
    return [m.step() for k in range(n)]


def scenarios(tier):
    out = []
    for mask in (False, True):
        ax = axes(mask)
        nm = 'mask' if mask else 'plain'
        for p in probs(tier):
            for o in devs(ax, 2 if tier == 'quick' else 3):
                out.append({'key': 'serial/%s/%s/%s' % (
                    nm, p['key'], ','.join('%s=%s' % (k, o[k]) for k in o
                                           if o[k] != ax[k][0])),
                    'kind': 'serial', 'p': p, 'o': o, 'mask': mask,
                    'tier': tier})
        # long traces and enlarged layouts
        base = {k: v[0] for k, v in ax.items()}
        big = dict(base, xrlx=1.0, drlx=1.2, ZeroMean=True,
                   AccurateDFid=True, start='YU', **(
                       {'W': 'persig'} if mask else {}))
        for p in probs(tier):
            for q in [p] + enlarged(p):
                for i, o in enumerate((base, big)):
                    n = DEEP[tier] if q is p else N
                    out.append({'key': 'deep/%s/%s/%d/%d' % (
                        nm, q['key'], n, i), 'kind': 'deep', 'p': q, 'o': o,
                        'mask': mask, 'n': n, 'tier': tier})
        cf = [{}, {'xrlx': 1.0, 'drlx': 1.0, 'start': 'YU', 'W': 'persig'},
              {'ZeroMean': True, 'AccurateDFid': True, 'start': 'YU',
               'W': 'gray'}]
        for key in ('2dK', '2dCdK', '1dK'):
            p2 = dict(cprob([key])[0])
            p2['K'] = 2
            p2['key'] = key + 'K2'
            p3 = dict(p2, K=3, key=key + 'K3')
            for ci, c in enumerate(cf):
                o = {k: v[0] for k, v in ax.items()}
                o.update({k: v for k, v in c.items() if k in o})
                for p, K in ((p2, 2), (p3, 3)):
                    for nproc in (1, 2, 3):
                        out.append({'key': 'order/%s/%s/%d/%d' % (
                            nm, p['key'], ci, nproc), 'kind': 'order',
                            'p': p, 'o': o, 'mask': mask, 'nproc': nproc,
                            'tier': tier})
                    if K == 3 and tier == 'quick':
                        continue
                    for t in range(K):
                        out.append({'key': 'preempt/%s/%s/%d/%d' % (
                            nm, p['key'], ci, t), 'kind': 'preempt', 'p': p,
                            'o': o, 'mask': mask, 'first': t, 'tier': tier})
                out.append({'key': 'real/%s/%s/%d' % (nm, p3['key'], ci),
                            'kind': 'real', 'p': p3, 'o': o, 'mask': mask,
                            'tier': tier})
    return out


def run(scn, rec):
    try:
        globals()[scn['kind']](scn, rec)
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        rec.violate('solver-exception', '%s: %s: %s (%s:%d)' % (
            scn['key'], type(ex).__name__, ex, tb.filename, tb.lineno))


def check(scn, b, ret, n, cs, rec, what, tol=1e-8):
    D, X, _ = cs[n - 1]
    dimN, Nv, Cd, C, K, M = layout(scn['p'])
    mx = tuple(int(np.max(np.nonzero(np.asarray(fsup(scn['p'])).any(
        axis=tuple(j for j in range(dimN + 3) if j != i)))[0])) + 1
        for i in range(dimN))
    Dc = D[tuple(slice(0, n_) for n_ in mx)]
    rec.state()
    for nm, a, e in (('dictionary', b.getdict(crop=False), D),
                     ('cropped dictionary', b.getdict(), Dc),
                     ('returned dictionary', ret, Dc),
                     ('coefficients', b.getcoef(), X)):
        ok, msg = close(np.asarray(a), e, tol)
        if not ok:
            rec.violate('iterate', '%s %s: %s after %d iterations: %s' % (
                scn['key'], what, nm, n, msg))
            return False
    if len(b.itstat) != n or b.j != n:
        rec.violate('iterations', '%s %s: %d statistics entries, j=%d after '
                    '%d iterations' % (scn['key'], what, len(b.itstat), b.j,
                                       n))
        return False
    for k in range(n):
        its, st = b.itstat[k], cs[k][2]
        if its.Iter != k:
            rec.violate('iterations', '%s: Iter %s' % (scn['key'], its.Iter))
        for f in st:
            v = getattr(its, f)
            if not abs(v - st[f]) <= 10 * tol * abs(st[f]) + tol / 10:
                rec.violate('statistics', '%s %s: iteration %d %s reported '
                            '%r, recomputed %r' % (scn['key'], what, k, f, v,
                                                   st[f]))
                return False
    return True


def parts(n):
    return [(n,)] + [(i, n - i) for i in range(1, n)] + [(1,) * n]


def serial(scn, rec):
    cs = courses(scn)
    e = Run(scn['mask'], 0)
    for comp in parts(N):
        b = e.build(scn['p'], scn['o'], {'MaxMainIter': 1})
        n = 0
        for c in comp:
            b.opt['MaxMainIter'] = c
            ret = b.solve()
            n += c
            rec.step(c)
            if not check(scn, b, ret, n, cs, rec, 'split %s' % (comp,)):
                return
        rec.trace()
    # an early stop leaves the state of the iteration it happened in
    for j in range(2):
        cnt = [0]

        def cb(obj):
            cnt[0] += 1
            return cnt[0] == j + 1
        b = e.build(scn['p'], scn['o'], {'MaxMainIter': N, 'Callback': cb})
        ret = b.solve()
        rec.trace()
        if not check(scn, b, ret, j + 1, cs, rec, 'callback stop %d' % j):
            return
        b.opt['MaxMainIter'] = 1
        b.opt['Callback'] = None
        ret = b.solve()
        if not check(scn, b, ret, j + 2, cs, rec, 'after callback stop'):
            return
        b.opt['MaxMainIter'] = 0
        ret = b.solve()
        if not check(scn, b, ret, j + 2, cs, rec, 'zero iterations'):
            return
    # reconstruction
    D, X, _ = cs[j + 1]
    want = ref.synth(D, X, layout(scn['p'])[0])
    ok, msg = close(np.asarray(b.reconstruct()).reshape(want.shape), want,
                    1e-8)
    if not ok:
        rec.violate('reconstruct', '%s: %s' % (scn['key'], msg))
    h = b.getitstat()
    if list(h.ObjFun) != [t.ObjFun for t in b.itstat]:
        rec.violate('statistics', '%s: getitstat' % scn['key'])
    rec.outcome(cs[N - 1][1])
    rec.sample = {'ObjFun': cs[N - 1][2]['ObjFun']}


def deep(scn, rec):
    n = scn['n']
    cs = courses(scn, n)
    b = Run(scn['mask'], 0).build(scn['p'], scn['o'], {'MaxMainIter': n})
    ret = b.solve()
    rec.step(n)
    rec.trace()
    check(scn, b, ret, n, cs, rec, 'long trace', 1e-8 if n <= N else 1e-5)
    rec.outcome(cs[n - 1][1])


def execute(scn, nproc, sch, cs, rec, what):
    live = pool.CtlPool.live
    e = Run(scn['mask'], nproc)
    with pool.controlled(sch):
        b = e.build(scn['p'], scn['o'], {'MaxMainIter': 2})
        ret = np.array(b.solve())
        rec.step(sch.tasks)
        if not check(scn, b, ret, 2, cs, rec, what):
            return False
        # a second call, with a new set of worker processes
        b.opt['MaxMainIter'] = 1
        ret = b.solve()
        ok = check(scn, b, ret, 3, cs, rec, what + ' second call')
    rec.trace()
    if ok and pool.CtlPool.live != live:
        rec.violate('processes', '%s %s: worker processes left behind' % (
            scn['key'], what))
        return False
    if ok and nproc > 1 and not sch.maps:
        rec.violate('not-parallel', '%s: no task was given to a worker '
                    'process' % scn['key'])
        return False
    return ok


def order(scn, rec):
    """every order and assignment of the tasks"""
    cs = courses(scn)
    K, np_ = scn['p']['K'], scn['nproc']
    for od in itertools.permutations(range(K)):
        for wk in itertools.product(range(np_), repeat=K):
            sch = pool.Schedule(od, wk)
            if not execute(scn, np_, sch, cs, rec, 'order %s workers %s' % (
                    od, wk)):
                return
    rec.outcome(cs[N - 1][1])
    rec.sample = {'orders': 'all', 'tasks': sch.tasks}


def preempt(scn, rec):
    """the first task is suspended after every line, the others run (and are
    suspended in turn, in the thorough tier), then it goes on"""
    cs = courses(scn)
    K, t = scn['p']['K'], scn['first']
    od = (t,) + tuple(i for i in range(K) if i != t)
    wk = tuple(range(K))
    sch = pool.Schedule(od, wk)
    if not execute(scn, K, sch, cs, rec, 'no preemption'):
        return
    ln = dict(sch.lines)
    rec.count('lines', sum(ln.values()))
    for j in range(1, ln[t] + 1):
        others = [{}]
        if scn['tier'] != 'quick' and K == 2:
            others = [{}] + [{1 - t: [i]} for i in range(1, ln[1 - t] + 1)]
        for ot in others:
            pre = dict(ot)
            pre[t] = [j]
            sch = pool.Schedule(od, wk, pre)
            if not execute(scn, K, sch, cs, rec, 'preempted at %s' % pre):
                return
    rec.sample = {'preemption_points': ln[t]}


def real(scn, rec):
    """the real process pool, with the given and default number of
    processes"""
    cs = courses(scn)
    for nproc in (2, None):
        e = Run(scn['mask'], nproc)
        b = e.build(scn['p'], scn['o'], {'MaxMainIter': 2})
        ret = b.solve()
        rec.trace()
        if not check(scn, b, ret, 2, cs, rec, 'real pool'):
            return
        b.opt['MaxMainIter'] = 1
        ret = b.solve()
        if not check(scn, b, ret, 3, cs, rec, 'real pool second call'):
            return
