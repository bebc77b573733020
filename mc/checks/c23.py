"""C23: signal processing and interpolation functions."""
import itertools
import math
import numpy as np
from mc import hist, large
from mc.checks.c09 import arr, bad

PROPERTY = 'C23'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 900
BOUNDS = {
    'quick': 'gradient operators on the full basis of every shape with axis '
             'lengths 1..4 in up to 3 dimensions (1..8 in one), every axis '
             'counted from either end; Tikhonov filter on the full basis of '
             'all images up to 4 x 4, padding 0..3, 4 parameters, real, '
             'complex and single precision, 2 and 3 dimensional; contrast '
             'normalisation of all images from 2 x 2 to 5 x 5; random masks '
             'and noise for every value of the uniform source on a grid; '
             'grey conversion of all images over 4 values per channel; '
             'demosaicing of the full basis of every image size 4..7; '
             'regressions over every 0/1/-1 system up to 4 x 2 (up to order and '
             'sign of its rows)',
    'thorough': 'axis lengths up to 5, images up to 5 x 5 and padding up to '
                '5, regressions up to 5 x 2'}


def scenarios(tier):
    th = tier != 'quick'
    out = []
    m = 5 if th else 4
    shs = [(n,) for n in range(1, 11 if th else 9)]
    shs += list(itertools.product(range(1, m + 1), repeat=2))
    shs += list(itertools.product(range(1, m), repeat=3))
    for sh in shs:
        out.append(dict(fn='grad', shape=list(sh)))
    mi = 5 if th else 4
    for sh in itertools.product(range(1, mi + 1), repeat=2):
        out.append(dict(fn='tikhonov', shape=list(sh)))
    for sh in itertools.product(range(2, 7 if th else 6), repeat=2):
        out.append(dict(fn='lcn', shape=list(sh)))
    for nd in (1, 2, 3):
        for sh in itertools.product(range(1, 6 if nd < 3 else 4), repeat=nd):
            out.append(dict(fn='gaussian', shape=list(sh)))
    for fn in ('noise', 'mask', 'gray', 'lanczos', 'points', 'randn'):
        out.append(dict(fn=fn, shape=[0]))
    for sh in itertools.product(range(4, 9 if th else 8), repeat=2):
        out.append(dict(fn='demosaic', shape=list(sh)))
    for mm in range(1, 6 if th else 5):
        for nn in (1, 2):
            if nn <= mm:
                for k in range(3):
                    out.append(dict(fn='regress', shape=[mm, nn], part=k))
    for s in out:
        s['tier'] = tier
        s['key'] = '%s/%s' % (s['fn'], tuple(s['shape'])) + (
            '/%d' % s['part'] if 'part' in s else '')
    return out


def run(scn, rec):
    globals()['r_' + scn['fn']](scn, rec, tuple(scn['shape']))


def eq(rec, what, f, want, tol=1e-10, ins=(), dtype=None):
    """Evaluate f, compare with the expected array, watch the inputs."""
    keep = [np.array(x) for x in ins]
    rec.trace()
    rec.state()
    rec.step()
    try:
        g = f()
    except Exception as e:
        rec.violate('exception', '%s: %s: %s' % (what, type(e).__name__, e))
        return None
    w = np.asarray(want)
    b = bad(g, w, tol)
    if b:
        rec.violate('wrong-value', '%s: %s' % (what, b))
    elif dtype is not None and np.asarray(g).dtype != np.dtype(dtype):
        rec.violate('wrong-type', '%s: dtype %s' % (what,
                                                    np.asarray(g).dtype))
    for x, k in zip(ins, keep):
        if not np.array_equal(x, k):
            rec.violate('input-modified', what)
    return g


def gmat(n, zp):
    if zp:
        G = np.zeros((n + 1, n))
        for i in range(n):
            G[i, i] = 1
            G[i + 1, i] = -1
    else:
        G = np.zeros((n, n))
        for i in range(n - 1):
            G[i, i] = -1
            G[i, i + 1] = 1
    return G


def along(A, x, ax):
    return np.moveaxis(np.tensordot(A, x, (1, ax)), 0, ax)


def basis(shape):
    for k in range(int(np.prod(shape))):
        e = np.zeros(int(np.prod(shape)))
        e[k] = 1.0
        yield k, e.reshape(shape)


def r_grad(scn, rec, sh):
    from sporco import signal as ss
    for ax in range(len(sh)):
        for a in (ax, ax - len(sh)):
            for zp in (False, True):
                G = gmat(sh[ax], zp)
                w = '(%s, axis=%d, zero_pad=%s)' % (sh, a, zp)
                for k, e in basis(sh):
                    eq(rec, 'grad' + w + ' basis %d' % k,
                       lambda: ss.grad(e, a, zero_pad=zp),
                       along(G, e, ax), ins=(e,))
                st = list(sh)
                st[ax] = G.shape[0]
                for k, e in basis(st):
                    eq(rec, 'gradT' + w + ' basis %d' % k,
                       lambda: ss.gradT(e, a, zero_pad=zp),
                       along(G.T, e, ax), ins=(e,))
                for kind in ('real', 'complex', 'single', 'csingle'):
                    x = arr(sh, kind, 'x')
                    y = arr(tuple(st), kind, 'y')
                    tol = 1e-10 if kind in ('real', 'complex') else 1e-5
                    eq(rec, 'grad' + w + kind,
                       lambda: ss.grad(x, a, zero_pad=zp), along(G, x, ax),
                       tol, (x,), None if zp else x.dtype)
                    eq(rec, 'gradT' + w + kind,
                       lambda: ss.gradT(y, a, zero_pad=zp),
                       along(G.T, y, ax), tol, (y,), y.dtype)
    rec.outcome(sh)


def circ(n):
    G = np.zeros((n, n))
    for i in range(n):
        G[i, i] -= 1
        G[i, (i + 1) % n] += 1
    return G


def tik(s, lm, npd):
    """Dense solve of the documented problem on the padded image."""
    ii = sympad(s.shape[0], npd)
    jj = sympad(s.shape[1], npd)
    sp = s[np.ix_(ii, jj)]
    n, m = sp.shape[0:2]
    Gr = np.kron(circ(n), np.eye(m))
    Gc = np.kron(np.eye(n), circ(m))
    A = np.eye(n * m) + lm * (Gr.T.dot(Gr) + Gc.T.dot(Gc))
    x = np.linalg.solve(A, sp.reshape((n * m, -1))).reshape(sp.shape)
    return x[npd:n - npd, npd:m - npd]


def sympad(n, p):
    """Indices of symmetric (half sample) extension by p samples."""
    out = []
    for i in range(-p, n + p):
        j = i % (2 * n)
        out.append(j if j < n else 2 * n - 1 - j)
    return out


def r_tikhonov(scn, rec, sh):
    from sporco import signal as ss
    npds = (0, 1, 2, 3) if scn['tier'] == 'quick' else (0, 1, 2, 3, 4, 5)
    for npd in npds:
        for lm in (0.0, 0.5, 5.0, 100.0):
            w = 'tikhonov_filter(%s, %g, npd=%d)' % (sh, lm, npd)
            jobs = [(e, 1e-9, 'basis %d' % k) for k, e in basis(sh)]
            for kind in ('real', 'complex', 'single', 'csingle'):
                tol = 1e-9 if kind in ('real', 'complex') else 1e-4
                jobs.append((arr(sh, kind, 't2'), tol, kind))
                for K in (1, 2):
                    jobs.append((arr(sh + (K,), kind, 't3'), tol,
                                 '%s x %d' % (kind, K)))
            jobs.append((np.asfortranarray(arr(sh, 'real', 't2')), 1e-9,
                         'F'))
            jobs.append((arr(sh + (2, 2), 'real', 't4'), 1e-9, 'x 2 x 2'))
            for s, tol, nm in jobs:
                want = tik(s, lm, npd)
                got = []

                def f(k):
                    if not got:
                        got.append(ss.tikhonov_filter(s, lm, npd))
                    return got[0][k]
                eq(rec, w + ' low ' + nm, lambda: f(0), want, tol, (s,),
                   s.dtype)
                if got:
                    eq(rec, w + ' high ' + nm, lambda: f(1), s - want, tol,
                       (s,), s.dtype)
    s = arr(sh, 'real', 'd')
    eq(rec, 'default padding %s' % (sh,),
       lambda: ss.tikhonov_filter(s, 5.0)[0], tik(s, 5.0, 16), 1e-9, (s,))
    rec.outcome(sh)


def gref(shape, sd):
    g = np.ones(shape)
    for idx in itertools.product(*[range(n) for n in shape]):
        v = 1.0
        for i, n in zip(idx, shape):
            # the sampling grid spans -3 .. 3 (a single sample sits at -3)
            x = -3.0 + (6.0 * i / (n - 1) if n > 1 else 0.0)
            v *= math.exp(-x * x / (2.0 * sd * sd))
        g[idx] = v
    return g / g.sum()


def r_gaussian(scn, rec, sh):
    from sporco import signal as ss
    for sd in (0.5, 1.0, 2.5):
        g = eq(rec, 'gaussian(%s, %g)' % (sh, sd),
               lambda: ss.gaussian(sh, sd), gref(sh, sd), 1e-12)
    eq(rec, 'gaussian(%s)' % (sh,), lambda: ss.gaussian(sh), gref(sh, 1.0),
       1e-12)
    if len(sh) == 1:
        eq(rec, 'gaussian(%d)' % sh[0], lambda: ss.gaussian(sh[0]),
           gref(sh, 1.0), 1e-12)
    rec.outcome(sh)


def r_lcn(scn, rec, sh):
    from sporco import signal as ss
    for n in (1, 2, 3):
        N = 2 * n + 1
        g = gref((N, N), 1.0)
        for c in (None, 0.05, 0.5, 10.0):
            for K in (0, 1, 3):
                s = arr(sh + ((K,) if K else ()), 'real', 'lcn', n)
                if K:
                    s = s * np.array([1.0, 7.0, 0.2])[:K]
                keep = s.copy()
                w = 'local_contrast_normalise(%s, n=%d, c=%s)' % (
                    s.shape, n, c)
                rec.trace()
                rec.state()
                rec.step(3)
                try:
                    scn_, smn, snrm = ss.local_contrast_normalise(s, n, c)
                except Exception as e:
                    rec.violate('exception', '%s: %s' % (w, e))
                    continue
                if not np.array_equal(s, keep):
                    rec.violate('input-modified', w)
                b = bad(snrm * scn_ + smn, s, 1e-10)
                if b:
                    rec.violate('reconstruct', '%s: %s' % (w, b))
                # every image is normalised by itself
                for k in range(K):
                    one = ss.local_contrast_normalise(
                        s[..., k].copy(), n, c)
                    rec.step()
                    for u, v in zip(one, (scn_, smn, snrm)):
                        b = bad(v[..., k], u, 1e-10)
                        if b:
                            rec.violate('images', '%s image %d differs from '
                                        'itself alone: %s' % (w, k, b))
                # local mean: weighted mean over the neighbourhood of the
                # symmetrically extended image
                want = np.zeros(s.shape)
                ii = sympad(sh[0], n)
                jj = sympad(sh[1], n)
                sp = s[np.ix_(ii, jj)]
                for i, j in itertools.product(range(sh[0]), range(sh[1])):
                    blk = sp[i:i + N, j:j + N]
                    want[i, j] = np.tensordot(g, blk, ((0, 1), (0, 1)))
                b = bad(smn, want, 1e-10)
                if b:
                    rec.violate('local-mean', '%s: %s' % (w, b))
                # local norm where the neighbourhood is inside the image
                s1 = s - want
                for k in range(max(1, K)):
                    p = snrm[..., k] if K else snrm
                    q = s1[..., k] if K else s1
                    cc = []
                    for i in range(n, sh[0] - n):
                        for j in range(n, sh[1] - n):
                            blk = q[i - n:i + n + 1, j - n:j + n + 1]
                            v = math.sqrt(np.sum(g * blk ** 2))
                            if c is None:
                                if abs(p[i, j] - v) > 1e-9:
                                    if p[i, j] < v - 1e-9:
                                        rec.violate('norm', '%s: below the '
                                                    'local norm' % w)
                                    cc.append(p[i, j])
                            elif abs(p[i, j] - max(c, v)) > 1e-9:
                                rec.violate('norm', '%s: %.4g instead of '
                                            'max(%g, %.4g)' % (w, p[i, j],
                                                               c, v))
                    if cc and max(cc) - min(cc) > 1e-9:
                        rec.violate('norm', '%s: more than one lower limit'
                                    % w)
                    if cc and np.min(p) < min(cc) - 1e-9:
                        rec.violate('norm', '%s: smaller than the lower '
                                    'limit' % w)
                    if c is not None and np.min(p) < c - 1e-12:
                        rec.violate('norm', '%s: smaller than c' % w)
                rec.outcome(np.round(snrm, 8))


class Source(object):
    """Stand-in for numpy's global uniform generator: every draw of the
    functions under test comes from the given numbers in [0, 1)."""

    NAMES = ('uniform', 'rand', 'random', 'random_sample', 'ranf', 'sample')

    def __init__(self, u):
        self.u = np.asarray(u, dtype=float).ravel()
        self.n = 0

    def take(self, size):
        size = () if size is None else size
        size = (size,) if np.isscalar(size) else tuple(size)
        k = int(np.prod(size)) if size else 1
        idx = (self.n + np.arange(k)) % self.u.size
        self.n += k
        v = self.u[idx].reshape(size)
        return v if size else float(v)

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in self.NAMES
                    if hasattr(np.random, n)}
        np.random.uniform = lambda low=0.0, high=1.0, size=None: \
            low + (high - low) * self.take(size)
        np.random.rand = lambda *a: self.take(a if a else None)
        for n in ('random', 'random_sample', 'ranf', 'sample'):
            if n in self.old:
                setattr(np.random, n, lambda size=None: self.take(size))
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.random, n, f)


GRID = (np.arange(40) + 0.5) / 40.0
FRC = (0.0, 0.1, 0.25, 0.5, 0.9, 1.0)


def r_noise(scn, rec, sh):
    from sporco import signal as ss
    for frc in FRC:
        for smn, smx in ((0.0, 1.0), (-3.0, 7.0), (2.0, 2.5)):
            for shape in ((40,), (8, 5), (5, 8), (4, 5, 2)):
                for rot in range(0, 40, 3):
                    for dt in (float, np.float32):
                        s = (np.arange(40).reshape(shape) + 10).astype(dt)
                        keep = s.copy()
                        w = 'spnoise(%s, %g, %g, %g)' % (shape, frc, smn,
                                                         smx)
                        rec.trace()
                        rec.state()
                        rec.step()
                        with Source(np.roll(GRID, rot)) as src:
                            try:
                                y = ss.spnoise(s, frc, smn, smx)
                            except Exception as e:
                                rec.violate('exception', '%s: %s' % (w, e))
                                continue
                        if not np.array_equal(s, keep):
                            rec.violate('input-modified', w)
                        if y.shape != s.shape or y.dtype != s.dtype:
                            rec.violate('wrong-type', w)
                            continue
                        lo = np.sum(y == smn)
                        hi = np.sum(y == smx)
                        same = np.sum(y == s)
                        if lo + hi + same != 40:
                            rec.violate('wrong-value', '%s: values other '
                                        'than the sample and the two noise '
                                        'levels' % w)
                        if frc == 0 and same != 40:
                            rec.violate('wrong-value', '%s changes samples'
                                        % w)
                        if src.n == 40:
                            k = int(round(40 * frc))
                            if lo + hi != k or abs(lo - hi) > 1:
                                rec.violate(
                                    'rate', '%s: %d low and %d high noise '
                                    'samples of 40 over the uniform grid'
                                    % (w, lo, hi))
                        else:
                            rec.count('uncontrolled')
                        rec.outcome(y)
    with Source(GRID):
        s = np.arange(10.0, 50.0)
        if not np.array_equal(ss.spnoise(s, 0.5),
                              ss.spnoise(s, 0.5, 0.0, 1.0)):
            rec.violate('wrong-value', 'spnoise default levels')


def r_mask(scn, rec, sh):
    from sporco import signal as ss
    for frc in FRC:
        for shape in ((40,), (8, 5), (4, 5, 2), (2, 2, 5, 2)):
            for rot in range(0, 40, 3):
                for dt in (None, 'float32', 'float64', 'int8', 'uint8',
                           'int64', 'bool', 'complex64'):
                    w = 'rndmask(%s, %g, %s)' % (shape, frc, dt)
                    rec.trace()
                    rec.state()
                    rec.step()
                    with Source(np.roll(GRID, rot)) as src:
                        try:
                            if dt is None:
                                m = ss.rndmask(shape, frc)
                            else:
                                m = ss.rndmask(shape, frc,
                                               dtype=np.dtype(dt))
                        except Exception as e:
                            rec.violate('exception', '%s: %s' % (w, e))
                            continue
                    if m.shape != shape or (dt is not None and
                                            m.dtype != np.dtype(dt)):
                        rec.violate('wrong-type', w)
                        continue
                    one = int(np.sum(m == 1))
                    zero = int(np.sum(m == 0))
                    if one + zero != 40:
                        rec.violate('wrong-value', '%s: values other than 0 '
                                    'and 1' % w)
                    if src.n == 40:
                        if zero != int(round(40 * frc)):
                            rec.violate('rate', '%s: %d zeros of 40 over '
                                        'the uniform grid' % (w, zero))
                    else:
                        rec.count('uncontrolled')
                    rec.outcome(m)


def r_randn(scn, rec, sh):
    from sporco import signal as ss
    for shape in ((3,), (2, 3), (1, 2, 2), (4, 1)):
        for seed in range(8):
            np.random.seed(seed)
            x = ss.complex_randn(*shape)
            rec.trace()
            rec.state()
            if x.shape != shape or x.dtype != np.complex128:
                rec.violate('wrong-type', 'complex_randn%s' % (shape,))
            elif np.any(x.real == 0) or np.any(x.imag == 0) or \
                    np.array_equal(x.real, x.imag) or \
                    len(set(x.ravel())) != x.size:
                rec.violate('wrong-value', 'complex_randn%s: parts are not '
                            'independent draws' % (shape,))
            rec.outcome(x)


def r_gray(scn, rec, sh):
    from sporco import signal as ss
    W = [0.299, 0.587, 0.114]
    pix = list(itertools.product((0.0, 0.25, 0.5, 1.0), repeat=3))

    def ref(x):
        return W[0] * x[:, :, 0] + W[1] * x[:, :, 1] + W[2] * x[:, :, 2]

    base = np.array(pix).reshape((8, 8, 3))
    for sc, dt, tol in ((1, 'float64', 1e-12), (1, 'float32', 1e-6),
                        (1, 'float16', 2e-3), (255, 'uint8', None),
                        (1000, 'int16', None), (255, 'int64', None),
                        (255, 'float32', 1e-6)):
        x = (base * sc).astype(dt)
        for y in (x, x[:, 0:1], x[0:1], x[0:3], x[0:3, 0:3],
                  np.asfortranarray(x)):
            want = ref(y.astype(float))
            if tol is None:
                # an integer result may be rounded either way
                eq(rec, 'rgb2gray %s %s' % (y.shape, dt),
                   lambda: ss.rgb2gray(y), want, 1.0 / (1 + want.max()),
                   (y,))
            else:
                eq(rec, 'rgb2gray %s %s' % (y.shape, dt),
                   lambda: ss.rgb2gray(y), want, tol, (y,), dt)
        for K in (1, 2, 3, 4, 8):
            z = np.stack([np.roll(x, k, axis=0) for k in range(K)], axis=3)
            for y in (z, z[0:3, 0:2], z[0:1, 0:1]):
                want = ref(y.astype(float))
                eq(rec, 'rgb2gray %s %s' % (y.shape, dt),
                   lambda: ss.rgb2gray(y), want,
                   1.0 / (1 + want.max()) if tol is None else tol, (y,))
    rec.outcome('gray')


def r_demosaic(scn, rec, sh):
    from sporco import interp
    n, m = sh

    def f(x):
        return interp.bilinear_demosaic(x)

    def check(x, w):
        keep = x.copy()
        rec.trace()
        rec.state()
        rec.step(3)
        try:
            y = f(x)
        except Exception as e:
            rec.violate('exception', '%s: %s' % (w, e))
            return None
        if y.shape != (n, m, 3) or not np.all(np.isfinite(y)):
            rec.violate('wrong-value', '%s: shape or non-finite' % w)
            return None
        if not np.array_equal(x, keep):
            rec.violate('input-modified', w)
        sc = 1e-9 * (1 + np.abs(x).max())

        def near(v, i, j, c, kind):
            if abs(y[i, j, c] - v) > sc:
                rec.violate(kind, '%s: channel %d at (%d, %d) is %.6g, not '
                            '%.6g' % (w, c, i, j, y[i, j, c], v))
        for i, j in itertools.product(range(n), range(m)):
            # red (odd, odd) and blue (even, even): the four, two or one
            # surrounding samples
            for c, o in ((0, 1), (2, 0)):
                ri = [i] if i % 2 == o else [i - 1, i + 1]
                rj = [j] if j % 2 == o else [j - 1, j + 1]
                if min(ri) >= 0 and max(ri) < n and min(rj) >= 0 and \
                        max(rj) < m:
                    near(np.mean([x[a, b] for a in ri for b in rj]), i, j,
                         c, 'sampled' if len(ri) == len(rj) == 1
                         else 'bilinear')
            if (i + j) % 2:
                near(x[i, j], i, j, 1, 'sampled')
            elif 0 < i < n - 1 and 0 < j < m - 1:
                a = 0.5 * (x[i - 1, j] + x[i + 1, j])
                b = 0.5 * (x[i, j - 1] + x[i, j + 1])
                v = y[i, j, 1]
                if min(abs(v - a), abs(v - b), abs(v - 0.5 * (a + b))) > sc:
                    rec.violate('bilinear', '%s: green at (%d, %d)'
                                % (w, i, j))
            elif (0 < i < n - 1) or (0 < j < m - 1):
                # border between two green samples
                if 0 < j < m - 1:
                    near(0.5 * (x[i, j - 1] + x[i, j + 1]), i, j, 1,
                         'border')
                else:
                    near(0.5 * (x[i - 1, j] + x[i + 1, j]), i, j, 1,
                         'border')
            else:
                # corner: mean of the two adjacent green samples
                near(0.5 * (x[i, 1 if j == 0 else j - 1] +
                            x[1 if i == 0 else i - 1, j]), i, j, 1, 'corner')
        rec.outcome(np.round(y, 8))
        return y

    for k, e in basis(sh):
        check(e, 'bilinear_demosaic(%s) basis %d' % (sh, k))
    for i in range(3):
        check(arr(sh, 'real', 'dm', i), 'bilinear_demosaic(%s)' % (sh,))
    y = check(np.full(sh, 3.5), 'bilinear_demosaic(%s) constant' % (sh,))
    if y is not None and np.max(np.abs(y - 3.5)) > 1e-9:
        rec.violate('constant', 'bilinear_demosaic(%s): constant image not '
                    'kept' % (sh,))


def r_regress(scn, rec, sh):
    """The optimum of either regression is attained at a point where enough
    of the residuals (or their signed differences) coincide; enumerate all of
    them."""
    from sporco import interp
    M, N = sh
    vals = (-1.0, 0.0, 1.0)
    bs = list(itertools.product((0.0, 1.0, -2.0), repeat=M))
    cnt = -1
    for A in itertools.product(vals, repeat=M * N):
        A = np.array(A).reshape(M, N)
        if np.linalg.matrix_rank(A) < N:
            continue
        # rows up to sign and order: one representative
        rows = [tuple(r) for r in A]
        if rows != sorted(rows) or any(r < tuple(-v for v in r)
                                       for r in rows):
            continue
        cnt += 1
        if cnt % 3 != scn['part']:
            continue
        for b in bs:
            b = np.array(b)
            one = min(np.sum(np.abs(A.dot(x) - b))
                      for x in lad_points(A, b))
            mx = minmax(A, b)
            for fn, nrm, want in (
                    (interp.lstabsdev, lambda r: np.sum(np.abs(r)), one),
                    (interp.lstmaxdev, lambda r: np.max(np.abs(r)), mx)):
                w = '%s(%s, %s)' % (fn.__name__, A.tolist(), b.tolist())
                A0, b0 = A.copy(), b.copy()
                rec.trace()
                rec.state()
                rec.step()
                try:
                    x = fn(A, b)
                except Exception as e:
                    rec.violate('exception', '%s: %s' % (w, e))
                    continue
                if np.shape(x) != (N,):
                    rec.violate('wrong-shape', w)
                    continue
                v = nrm(A.dot(x) - b)
                if abs(v - want) > 1e-7:
                    rec.violate('not-optimal', '%s: %.6g, optimum %.6g'
                                % (w, v, want))
                if not (np.array_equal(A, A0) and np.array_equal(b, b0)):
                    rec.violate('input-modified', w)
                rec.outcome(round(float(v), 6))


def lad_points(A, b):
    """Candidate optima of the L1 regression: N residuals vanish."""
    M, N = A.shape
    for idx in itertools.combinations(range(M), N):
        S = A[list(idx)]
        if abs(np.linalg.det(S)) > 1e-9:
            yield np.linalg.solve(S, b[list(idx)])


def minmax(A, b):
    """Optimum of the maximum deviation: by duality, the largest value of
    |b'y| / |y|_1 over y in the null space of A', attained on a support of at
    most N + 1 rows; zero when there is none."""
    M, N = A.shape
    best = 0.0
    for k in range(1, N + 2):
        for idx in itertools.combinations(range(M), k):
            S = A[list(idx)]
            u, s, vt = np.linalg.svd(S.T)
            r = int(np.sum(s > 1e-9))
            if k - r != 1:
                continue
            y = vt[-1]
            best = max(best, abs(y.dot(b[list(idx)])) / np.sum(np.abs(y)))
    return best


def lk(x, a):
    if not -a < x < a:
        return 0.0
    if x == 0:
        return 1.0
    return math.sin(math.pi * x) / (math.pi * x) * \
        math.sin(math.pi * x / a) / (math.pi * x / a)


def r_lanczos(scn, rec, sh):
    from sporco import interp
    xs = np.arange(-40, 41) / 8.0
    for a in (1, 2, 3, 4):
        eq(rec, 'lanczos_kernel a=%d' % a,
           lambda: interp.lanczos_kernel(xs, a=a),
           np.array([lk(x, a) for x in xs]), 1e-12, (xs,))
        for x in xs:
            eq(rec, 'lanczos_kernel(%g, %d)' % (x, a),
               lambda: interp.lanczos_kernel(float(x), a=a),
               np.array(lk(x, a)), 1e-12)
    eq(rec, 'lanczos_kernel default',
       lambda: interp.lanczos_kernel(xs), np.array([lk(x, 3) for x in xs]))

    pts = [1, 2, 3, 4, 5, (0.1, 0.2, 0.3), np.array([-1.0, 0.0, 0.5, 1.0]),
           [0.25]]

    def one(p, a):
        x = points(p) if isinstance(p, int) else list(p)
        H = np.array([[lk(i + v, a) for v in x] for i in range(-a, a + 1)])
        return H / H.sum(axis=0)

    for a in (1, 2, 3):
        for p in pts:
            want = one(p, a)
            for col in (True, False):
                eq(rec, 'lanczos_filters((%s,), %d, %s)' % (p, a, col),
                   lambda: interp.lanczos_filters((p,), a, col), want, 1e-12)
            if isinstance(p, int):
                eq(rec, 'lanczos_filters(%s, %d)' % (p, a),
                   lambda: interp.lanczos_filters(p, a=a), want, 1e-12)
        for p, q in itertools.product(pts, repeat=2):
            hp, hq = one(p, a), one(q, a)
            want = np.einsum('ik,jl->ijkl', hp, hq)
            eq(rec, 'lanczos_filters((%s, %s), %d) not collapsed' % (p, q, a),
               lambda: interp.lanczos_filters((p, q), a, False), want, 1e-12)
            eq(rec, 'lanczos_filters((%s, %s), %d)' % (p, q, a),
               lambda: interp.lanczos_filters((p, q), a),
               want.reshape(want.shape[:2] + (-1,)), 1e-12)
    for p, q, r in itertools.product((1, 2, 3, (0.25, 0.5)), repeat=3):
        want = np.einsum('ia,jb,kc->ijkabc', one(p, 2), one(q, 2), one(r, 2))
        eq(rec, 'lanczos_filters 3d',
           lambda: interp.lanczos_filters((p, q, r), 2, False), want, 1e-12)
        eq(rec, 'lanczos_filters 3d',
           lambda: interp.lanczos_filters((p, q, r), 2),
           want.reshape(want.shape[:3] + (-1,)), 1e-12)
    for p in (((-1.5,),), ((0.0, 1.01),), (np.zeros((2, 2)),),
              (2, (0.0, 3.0))):
        rec.trace()
        try:
            interp.lanczos_filters(p)
        except ValueError:
            continue
        rec.violate('accepted', 'lanczos_filters(%s)' % (p,))
    rec.outcome('lanczos')


def points(N):
    return [k / float(N) for k in range(-((N - 1) // 2), N // 2 + 1)]


def r_points(scn, rec, sh):
    from sporco import interp
    for N in range(1, 30):
        for z in (True, False):
            w = 'interpolation_points(%d, %s)' % (N, z)
            rec.trace()
            rec.state()
            y = np.asarray(interp.interpolation_points(N, z))
            if y.shape != (N,):
                rec.violate('wrong-shape', w)
                continue
            step = 1.0 / (N if z else N + 1)
            g = y / step
            if np.max(np.abs(g - np.round(g))) > 1e-9:
                rec.violate('wrong-value', '%s: off the grid' % w)
            k = np.round(g).astype(int)
            if np.any(np.diff(k) <= 0):
                rec.violate('wrong-value', '%s: not increasing' % w)
            want = set(range(min(k), max(k) + 1))
            if not z:
                want -= {0}
            if set(k) != want or (z and 0 not in k):
                rec.violate('wrong-value', '%s: not evenly spaced' % w)
            if abs(abs(min(k)) - abs(max(k))) > 1 or \
                    (np.min(y) < -0.5 - 1e-12 or np.max(y) > 0.5 + 1e-12):
                rec.violate('wrong-value', '%s: not centred' % w)
            rec.outcome(k)
    if not np.array_equal(interp.interpolation_points(5),
                          interp.interpolation_points(5, True)):
        rec.violate('wrong-value', 'default of include_zero')


hist.attach(globals())
large.attach(globals())
