"""C26: online convolutional dictionary learning."""
import contextlib
import io
import itertools
from collections import OrderedDict
import numpy as np
from mc import ref
from mc.cat_admm import rng, randn
from mc.conform import close
from mc.checks.c02 import devs

PROPERTY = 'C26'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 900
BOUNDS = {
    'quick': 'plain and mask classes; 8 dictionary layouts; every history of '
             'up to 3 training calls over an alphabet of up to 6 signals '
             '(sizes, numbers of signals and channels); every single '
             'non-default option on histories of length 2; every history of '
             '12 calls of period at most two, and those that deviate from '
             'one repeated signal in one call; every combination of the '
             'axis role parameter in the constructor and the calls; inner '
             'FastSolve; the status display of every history of length 2',
    'thorough': 'every history of up to 4 calls, pairs of options; long '
                'histories of 30 calls'}
LONG = {'quick': 12, 'thorough': 30}

# dictionaries: filter size, channels, number, size vector
DICTS = OrderedDict([
    ('2d', dict(d=(2, 2), Cd=0, M=2)),
    ('2dC', dict(d=(2, 2), Cd=2, M=2)),
    ('1d', dict(d=(3,), Cd=0, M=2)),
    ('1dC', dict(d=(2,), Cd=2, M=2)),
    ('M1', dict(d=(2, 2), Cd=0, M=1)),
    ('21', dict(d=(2, 1), Cd=0, M=2)),
    ('3d', dict(d=(2, 1, 2), Cd=0, M=2)),
    ('multi', dict(d=(3, 3), Cd=0, M=3, dsz=((2, 2, 1), (3, 3, 2)))),
    ('multiC', dict(d=(3, 2), Cd=2, M=2, dsz=((2, 2, 2, 1), (3, 2, 2, 1)))),
])


def alphabet(dk, p):
    """name -> (size, channels, signals, dimK)"""
    n = len(p['d'])
    A, B = {1: ((5,), (6,)), 2: ((4, 3), (3, 4)),
            3: ((2, 3, 2), (3, 2, 2))}[n]
    if p['Cd']:
        C = p['Cd']
        return OrderedDict([('A', (A, C, 0, None)), ('A2', (A, C, 0, 0)),
                            ('B', (B, C, 0, None)), ('AK', (A, C, 2, None)),
                            ('AK3', (A, C, 3, 1)), ('BK', (B, C, 2, None))])
    out = OrderedDict([('A', (A, 0, 0, None)), ('A2', (A, 0, 0, None)),
                       ('B', (B, 0, 0, 0)), ('AK', (A, 0, 2, None)),
                       ('AC', (A, 2, 0, 0)), ('ACK', (A, 2, 2, None))])
    if dk not in ('2d', '1d'):
        for k in ('A2', 'ACK'):
            del out[k]
    return out


def axes(mask):
    a = OrderedDict([('ZeroMean', [False, True]),
                     ('eta', [(10.0, 5.0), (0.7, 2.0)]),
                     ('iters', [4, 1]),
                     ('NonNegCoef', [False, True]),
                     ('AuxVarObj', [False, True]),
                     ('L1Weight', [1.0, 0.5])])
    if mask:
        a['W'] = ['shared', 'gray', 'persig', 'none', 'scalar']
    return a


def scenarios(tier):
    out = []
    for mask in (False, True):
        for dk, p in DICTS.items():
            al = list(alphabet(dk, p))
            ax = axes(mask)
            for i, o in enumerate(devs(ax, 1 if tier == 'quick' else 2)):
                if i == 0:
                    L = 3 if tier == 'quick' else 4
                else:
                    L = 2
                nm = ','.join('%s=%s' % (k, o[k]) for k in o
                              if o[k] != ax[k][0])
                for first in al:
                    if i == 0:
                        out.append({'key': '%s/%s/long/%s' % (
                            'mask' if mask else 'plain', dk, first),
                            'd': dk, 'mask': mask, 'o': o,
                            'long': LONG[tier], 'first': first})
                    out.append({'key': '%s/%s/%s/%s' % (
                        'mask' if mask else 'plain', dk, nm, first),
                        'd': dk, 'mask': mask, 'o': o, 'L': L,
                        'first': first})
            o = next(iter(devs(ax, 0)))
            for k0 in (None, 0, 1):
                q = {'d': dk, 'mask': mask, 'o': o, 'roles': True, 'k0': k0}
                nm = '%s/%s/roles/%s' % ('mask' if mask else 'plain', dk, k0)
                out.append(dict(q, key=nm))
            for f in ('fast', 'verbose', 'nohdr', 'fastverbose'):
                out.append({'key': '%s/%s/%s' % ('mask' if mask else 'plain',
                                                 dk, f), 'd': dk, 'o': o,
                            'mask': mask, 'L': 2, 'first': al[0],
                            'aux': f})
    return out


def sig(dk, p, name):
    Nv, C, K, dimK = alphabet(dk, p)[name]
    r = rng('ocdl', dk, name)
    S = randn(r, Nv + ((C,) if C else ()) + ((K,) if K else ()))
    return S, S.reshape(Nv + (C or 1, K or 1, 1)), dimK


def wts(dk, p, name, kind):
    """(mask passed, mask in standard layout)"""
    Nv, C, K, dimK = alphabet(dk, p)[name]
    r = rng('ocdlw', dk, name, kind)
    if kind == 'none':
        return None, 1.0
    if kind == 'scalar':
        return np.full((1,) * len(Nv), 0.8), 0.8
    if kind == 'persig':
        w = (r.rand(*(Nv + ((C,) if C else ()) + ((K,) if K else ()))) > .3
             ).astype(float)
        return w, w.reshape(Nv + (C or 1, K or 1, 1))
    w = r.rand(*Nv)
    if kind == 'shared':
        w = (w > 0.3).astype(float)
    else:
        w.ravel()[0] = 0.0
    return w, w.reshape(Nv + (1, 1, 1))


LM = 0.2
AR = {'Period': 10, 'AutoScaling': False, 'RsdlRatio': 10.0, 'Scaling': 2.0,
      'RsdlTarget': 1.0}


# values of dimK under which the signal has its axis roles
ROLES = {'A': (None, 0), 'AK': (None, 1), 'AC': (0,), 'ACK': (None, 1)}


def xopts(o):
    return {'MaxMainIter': o['iters'], 'rho': 1.5, 'AuxVarObj':
            o['AuxVarObj'], 'NonNegCoef': o['NonNegCoef'],
            'L1Weight': o['L1Weight']}


def d0(dk, p):
    return randn(rng('ocdld', dk), tuple(p['d']) + (
        (p['Cd'],) if p['Cd'] else ()) + (p['M'],))


def build(scn, p):
    from sporco.dictlrn import onlinecdl
    o = scn['o']
    c = onlinecdl.OnlineConvBPDNMaskDictLearn if scn['mask'] else \
        onlinecdl.OnlineConvBPDNDictLearn
    d = {'Verbose': False, 'ZeroMean': o['ZeroMean'], 'eta_a': o['eta'][0],
         'eta_b': o['eta'][1], 'CBPDN': xopts(o)}
    if 'dsz' in p:
        d['DictSize'] = p['dsz']
    aux = scn.get('aux', '')
    if 'fast' in aux:
        d['CBPDN']['FastSolve'] = True
    if aux in ('verbose', 'fastverbose', 'nohdr'):
        d['Verbose'] = True
    if aux == 'nohdr':
        d['StatusHeader'] = False
    kw = {'dimK': scn['k0']} if scn.get('roles') else {}
    return c(d0(scn['d'], p), LM, c.Options(d), dimN=len(p['d']), **kw)


def display(scn, b, txt):
    """problem with the text printed by display_start, the calls and
    display_end"""
    import re
    lines = txt.splitlines()
    if 'verbose' not in scn['aux'] and scn['aux'] != 'nohdr':
        return 'output %r' % txt[:60] if txt else None
    lab = [h.strip() for h in type(b).hdrtxt()]
    if scn['aux'] != 'nohdr':
        if len(lines) < 3 or set(lines[1]) != {'-'} or \
                lines[-1] != lines[1]:
            return 'header or rules missing: %r' % txt[:200]
        if re.split(r' {2,}', lines[0].strip()) != lab:
            return 'header %r' % lines[0]
        lines = lines[2:-1]
    if len(lines) != len(b.itstat):
        return '%d rows for %d calls' % (len(lines), len(b.itstat))
    m = type(b).hdrval()
    for i, (ln, t) in enumerate(zip(lines, b.itstat)):
        v = ln.split()
        if len(v) != len(lab):
            return 'row %d has %d columns' % (i, len(v))
        for h, x in zip(lab, v):
            y = getattr(t, m[h])
            if abs(float(x) - y) > 0.006 * abs(y) + 1e-12:
                return 'row %d column %s: %s for %r' % (i, h, x, y)
    return None


class Model(object):
    def __init__(self, scn, p):
        self.scn, self.p, self.o = scn, p, scn['o']
        self.dimN = len(p['d'])
        self.Cd, self.M = p['Cd'] or 1, p['M']
        dsz = p.get('dsz') or tuple(p['d']) + (
            (p['Cd'],) if p['Cd'] else ()) + (p['M'],)
        self.sup = ref.fsupport(dsz, p['d'], self.dimN, self.Cd, self.M)
        D = d0(scn['d'], p).reshape(tuple(p['d']) + (self.Cd, 1, self.M))
        self.D = self.pcn(D)
        self.j = 0

    def pcn(self, D):
        return ref.pdict(D, self.sup, self.dimN, zm=self.o['ZeroMean'])

    def step(self, name):
        from sporco.admm import cbpdn
        p, o, dk = self.p, self.o, self.scn['d']
        dimN = self.dimN
        S, Ss, dimK = sig(dk, p, name)
        Nv = Ss.shape[:dimN]
        x = dict(xopts(o), AutoRho=dict(AR), Verbose=False)
        De = self.D.reshape(tuple(p['d']) + ((self.Cd,) if p['Cd'] else ()) +
                            (self.M,))
        if self.scn['mask']:
            w, W = wts(dk, p, name, o['W'])
            c = cbpdn.ConvBPDNMaskDcpl
            s = c(De, S, LM, w, c.Options(x), dimK=dimK, dimN=dimN)
        else:
            W = 1.0
            c = cbpdn.ConvBPDN
            s = c(De, S, LM, c.Options(x), dimK=dimK, dimN=dimN)
        s.solve()
        Cx = 1 if self.Cd > 1 else Ss.shape[dimN]
        X = np.asarray(s.getcoef()).reshape(Nv + (Cx, Ss.shape[dimN + 1],
                                                  self.M))
        R = W**2 * (ref.synth(self.D, X, dimN) - Ss)
        Dp = np.zeros(Nv + self.D.shape[dimN:])
        Dp[tuple(slice(0, n) for n in p['d'])] = self.D
        G = np.zeros(Dp.shape)
        for i in itertools.product(*[range(n) for n in Nv]):
            g = np.sum(ref.shift(X, i, tuple(range(dimN))) * R,
                       axis=tuple(range(dimN)) + (dimN + 1,), keepdims=True)
            if self.Cd == 1:
                g = g.sum(axis=dimN, keepdims=True)
            G[i] = g.reshape(G[i].shape)
        eta = o['eta'][0] / (self.j + o['eta'][1])
        G = Dp - eta * G
        old = self.D
        self.D = self.pcn(G[tuple(slice(0, n) for n in p['d'])])
        Dp[:] = 0
        Dp[tuple(slice(0, n) for n in p['d'])] = self.D
        its = s.itstat[-1]
        if 'fast' in self.scn.get('aux', ''):
            its = type(its)(*[0.0] * len(its))
        st = {'Iter': self.j, 'ObjFun': its.ObjFun, 'DFid': its.DFid,
              'RegL1': its.RegL1, 'PrimalRsdl': its.PrimalRsdl,
              'DualRsdl': its.DualRsdl, 'Rho': its.Rho,
              'Cnstr': np.sqrt(np.sum((Dp - G)**2)),
              'DeltaD': np.sqrt(np.sum((self.D - old)**2)), 'Eta': eta}
        self.j += 1
        return self.D, X, st


def run(scn, rec):
    try:
        run_(scn, rec)
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        rec.violate('solver-exception', '%s: %s: %s (%s:%d)' % (
            scn['key'], type(ex).__name__, ex, tb.filename, tb.lineno))


def run_(scn, rec):
    dk, o = scn['d'], scn['o']
    p = DICTS[dk]
    al = list(alphabet(dk, p))
    memo = {}

    def expect(h):
        """model state and statistics after the history"""
        if h not in memo:
            import copy
            if not h:
                memo[h] = (Model(scn, p), None, [])
            else:
                m, _, sts = expect(h[:-1])
                m = copy.copy(m)
                D, X, st = m.step(h[-1])
                memo[h] = (m, X, sts + [st])
        return memo[h]
    b = build(scn, p)
    ok, msg = close(np.asarray(b.getdict()), expect(())[0].D, 1e-9)
    if not ok:
        rec.violate('initial-dictionary', '%s: %s' % (scn['key'], msg))
        return
    letter = {}
    if scn.get('roles'):
        # letters: signal and dimK of the call
        for a in al:
            if a not in ROLES:
                continue
            for k in (None, 0, 1):
                if (k if k is not None else scn['k0']) in ROLES[a]:
                    letter['%s:%s' % (a, k)] = (a, k)
        hist = list(itertools.product(letter, repeat=2))
    elif 'long' in scn:
        n, a = scn['long'], scn['first']
        hist = [(a, c) * (n // 2) for c in al]
        hist += [(a,) * k + (c,) + (a,) * (n - k - 1) for c in al if c != a
                 for k in ((n // 2, n - 2) if dk not in ('2d', '1dC') else
                           range(1, n))]
    else:
        hist = [(scn['first'],) + rest
                for rest in itertools.product(al, repeat=scn['L'] - 1)]
    out = io.StringIO()
    for h in hist:
        b = build(scn, p)
        if 'aux' in scn:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                b.display_start()
        ks = [letter[a][1] for a in h] if letter else None
        h = tuple(letter[a][0] for a in h) if letter else h
        for n in range(1, len(h) + 1):
            S, Ss, dimK = sig(dk, p, h[n - 1])
            if ks:
                dimK = ks[n - 1]
            S0 = S.copy()
            try:
                if scn['mask']:
                    w = wts(dk, p, h[n - 1], o['W'])[0]
                    w0 = None if w is None else w.copy()
                    with contextlib.redirect_stdout(out):
                        ret = b.solve(S, w, dimK=dimK)
                    if w is not None and not np.array_equal(w, w0):
                        rec.violate('input-changed', '%s %s: mask' % (
                            scn['key'], h[:n]))
                else:
                    with contextlib.redirect_stdout(out):
                        ret = b.solve(S, dimK=dimK)
            except Exception as ex:
                rec.violate('solver-exception', '%s after %s: %s: %s' % (
                    scn['key'], h[:n], type(ex).__name__, ex))
                return
            rec.step()
            if not np.array_equal(S, S0):
                rec.violate('input-changed', '%s %s' % (scn['key'], h[:n]))
            m, X, sts = expect(h[:n])
            rec.state()
            for nm, a in (('dictionary', b.getdict()),
                          ('returned dictionary', ret)):
                ok, msg = close(np.asarray(a), m.D, 1e-7)
                if not ok:
                    rec.violate('recursion', '%s: %s after %s: %s' % (
                        scn['key'], nm, h[:n], msg))
                    return
            if len(b.itstat) != n or b.j != n:
                rec.violate('iterations', '%s: %d entries, j=%d after %d '
                            'calls' % (scn['key'], len(b.itstat), b.j, n))
                return
            its, st = b.itstat[-1], sts[-1]
            for f in st:
                v = getattr(its, f)
                if v is None or not abs(v - st[f]) <= 1e-6 * abs(
                        st[f]) + 1e-8:
                    rec.violate('statistics', '%s after %s: %s reported %r, '
                                'expected %r' % (scn['key'], h[:n], f, v,
                                                 st[f]))
                    return
        rec.trace()
        if 'aux' in scn:
            with contextlib.redirect_stdout(out):
                b.display_end()
            e = display(scn, b, out.getvalue())
            if e:
                rec.violate('display', '%s %s: %s' % (scn['key'], h, e))
                return
    hs = b.getitstat()
    if list(hs.Eta) != [t.Eta for t in b.itstat]:
        rec.violate('statistics', '%s: getitstat' % scn['key'])
    rec.outcome(m.D)
    rec.sample = {'alphabet': al, 'length': len(hist[0])}
