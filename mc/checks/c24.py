"""C24: image quality metrics."""
import itertools
import math
import numpy as np
from mc import hist, large

PROPERTY = 'C24'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 900
BOUNDS = {
    'quick': 'all pairs of arrays of up to 3 samples (and 2 x 2) over 5 '
             'values per data type, including the extremes of the integer '
             'types, 9 data types, contiguous and strided; all pairs of data '
             'types; perceptual metrics for every image size from 1 x 1 to '
             '7 x 7 and every single-sample difference',
    'thorough': 'arrays of up to 4 samples, images up to 10 x 10'}
VALS = {'uint8': (0, 1, 128, 200, 255), 'int8': (-128, -1, 0, 100, 127),
        'uint16': (0, 1, 32768, 65535), 'int16': (-32768, -1, 0, 7, 32767),
        'int32': (-2 ** 31, -1, 0, 2 ** 31 - 1), 'uint32': (0, 1, 2 ** 32 - 1),
        'int64': (-5, 0, 1, 2 ** 20),
        'float32': (-1.0, 0.0, 0.5, 3.0), 'float64': (-1.0, 0.0, 0.5, 300.0),
        'complex64': (0, 1, 1j, -1 + 2j), 'complex128': (0, 1, 1j, -1 + 2j)}


def scenarios(tier):
    th = tier != 'quick'
    out = []
    for dt in VALS:
        for sh in [(1,), (2,), (3,), (2, 2), (1, 2, 1)] + \
                ([(4,), (2, 1, 2)] if th else []):
            if np.prod(sh) == 4 and len(VALS[dt]) > 4:
                nv = 4 if th else 3
            elif np.prod(sh) == 4:
                nv = 4 if th else 3
            else:
                nv = 5
            out.append(dict(fn='pairs', dt=dt, shape=list(sh), nv=nv))
    for a, b in itertools.product(VALS, repeat=2):
        if a != b:
            out.append(dict(fn='mixed', dt=a, dt2=b, shape=[2], nv=5))
    m = 10 if th else 7
    for sh in itertools.product(range(1, m + 1), repeat=2):
        out.append(dict(fn='percep', shape=list(sh)))
    for s in out:
        s['key'] = '/'.join(str(s[k]) for k in ('fn', 'dt', 'dt2', 'shape')
                            if k in s)
    return out


def run(scn, rec):
    globals()['r_' + scn['fn']](scn, rec, tuple(scn['shape']))


def pick(dt, nv):
    v = VALS[dt]
    if len(v) <= nv:
        return v
    return v[:nv - 1] + v[-1:]


def lists(x):
    """Samples as exact python numbers, in order."""
    c = np.iscomplexobj(x)
    return [complex(v) if c else float(v) for v in np.asarray(x).ravel()]


def e_mae(a, b):
    return math.fsum(abs(p - q) for p, q in zip(a, b)) / len(a)


def e_mse(a, b):
    return math.fsum(abs(p - q) ** 2 for p, q in zip(a, b)) / len(a)


def e_var(a):
    m = sum(a) / len(a)
    return math.fsum(abs(p - m) ** 2 for p in a) / len(a)


def db(num, den):
    """10 log10(num / den) with the conventions of IEEE arithmetic; None when
    undefined."""
    if den == 0:
        return None if num == 0 else math.inf
    return -math.inf if num == 0 else 10 * math.log10(num / den)


def ask(rec, what, f, want, ins, tol=1e-9):
    keep = [np.array(x) for x in ins]
    rec.trace()
    rec.state()
    rec.step()
    try:
        with np.errstate(all='ignore'):
            g = f()
    except Exception as e:
        rec.violate('exception', '%s: %s: %s' % (what, type(e).__name__, e))
        return
    for x, k in zip(ins, keep):
        if not np.array_equal(x, k):
            rec.violate('input-modified', what)
    if want is None:
        return
    if np.ndim(g) != 0 or np.iscomplexobj(g):
        rec.violate('wrong-type', '%s: %r' % (what, g))
        return
    g = float(g)
    rec.outcome(round(g, 6) if math.isfinite(g) else g)
    if math.isinf(want):
        # cancellation may leave a variance of the order of rounding
        if g != want and not (abs(g) > 60 and (g > 0) == (want > 0)):
            rec.violate('wrong-value', '%s is %r instead of %r'
                        % (what, g, want))
    elif not abs(g - want) <= tol * (1 + abs(want)):
        rec.violate('wrong-value', '%s is %r instead of %r' % (what, g, want))


def tol(*xs):
    t = 1e-9
    for x in xs:
        if x.dtype in (np.float32, np.complex64):
            t = 1e-4
    return t


def metrics(rec, x, y, extra=True):
    from sporco import metric as sm
    a, b = lists(x), lists(y)
    w = '(%s, %s) %s %s' % (x.tolist(), y.tolist(), x.dtype, y.dtype)
    t = tol(x, y)
    ins = (x, y)
    mse = e_mse(a, b)
    ask(rec, 'mae' + w, lambda: sm.mae(x, y), e_mae(a, b), ins)
    ask(rec, 'mse' + w, lambda: sm.mse(x, y), mse, ins)
    ask(rec, 'snr' + w, lambda: sm.snr(x, y), db(e_var(a), mse), ins, t)
    real = not (np.iscomplexobj(x) or np.iscomplexobj(y))
    if not np.iscomplexobj(x):
        ask(rec, 'psnr' + w, lambda: sm.psnr(x, y),
            db((max(a) - min(a)) ** 2, mse), ins, t)
    if extra:
        for rng in (1, 255, 2.5):
            ask(rec, 'psnr' + w + ' range %g' % rng,
                lambda: sm.psnr(x, y, rng), db(float(rng) ** 2, mse), ins, t)
        if x.dtype.kind in 'ui' and x.dtype.itemsize == 1:
            r = x.dtype.type(100)
            ask(rec, 'psnr' + w + ' typed range',
                lambda: sm.psnr(x, y, r), db(10000.0, mse), ins, t)
    nv = e_var([p - q for p, q in zip(b, a)])
    ask(rec, 'bsnr' + w, lambda: sm.bsnr(x, y), db(e_var(a), nv), ins,
        max(t, 1e-7 if real else t))
    ask(rec, 'bsnr swapped' + w, lambda: sm.bsnr(y, x), db(e_var(b), nv),
        ins, max(t, 1e-7 if real else t))


def arrays(dt, shape, nv):
    for v in itertools.product(pick(dt, nv), repeat=int(np.prod(shape))):
        yield np.array(v, dtype=dt).reshape(shape)


def r_pairs(scn, rec, sh):
    from sporco import metric as sm
    xs = list(arrays(scn['dt'], sh, scn['nv']))
    for x in xs:
        for y in xs:
            metrics(rec, x, y, extra=(x.size < 3))
    if len(xs) <= 30:
        for x, y, z in itertools.product(xs, repeat=3):
            a, b, c = lists(x), lists(y), lists(z)
            ask(rec, 'isnr(%s, %s, %s) %s' % (a, b, c, x.dtype),
                lambda: sm.isnr(x, y, z), db(e_mse(a, b), e_mse(a, c)),
                (x, y, z), tol(x))
    # layout
    big = np.zeros(tuple(2 * n for n in sh), scn['dt'])
    v = big[tuple(slice(None, None, 2) for _ in sh)]
    for x in xs[::7]:
        v[...] = x
        for y in xs[::5]:
            metrics(rec, v, np.asfortranarray(y), False)


def r_mixed(scn, rec, sh):
    for x in arrays(scn['dt'], sh, scn['nv']):
        for y in arrays(scn['dt2'], sh, scn['nv']):
            metrics(rec, x, y, False)


# Perceptual metrics

def refl(i, n):
    j = i % (2 * n)
    return j if j < n else 2 * n - 1 - j


def r_percep(scn, rec, sh):
    from sporco import metric as sm
    rs = np.random.RandomState(hash(sh) % 1000)
    base = [np.arange(1.0, 1 + np.prod(sh)).reshape(sh),
            rs.uniform(0, 1, sh) + 0.1,
            rs.randint(1, 255, sh).astype(np.uint8),
            rs.uniform(0, 200, sh).astype(np.float32) + 1]
    for x in base:
        ys = [x, x[::-1].copy(), (x * 0.5).astype(x.dtype)]
        for i in range(x.size):
            y = x.copy()
            y.flat[i] = y.flat[i] // 2 + 9
            ys.append(y)
        if x.dtype == np.uint8:
            ys.append(255 - x)
            ys.append(rs.randint(0, 255, sh).astype(np.float64))
        t = 1e-4 if x.dtype == np.float32 else 1e-9
        for k, y in enumerate(ys):
            X, Y = x.astype(float), y.astype(float)
            for resc in (True, False):
                s = 255.0 / X.max() if resc else 1.0
                w = '(%s %s, variant %d, rescale=%s)' % (sh, x.dtype, k, resc)
                ask(rec, 'pamse' + w, lambda: sm.pamse(x, y, rescale=resc),
                    e_pamse(s * X, s * Y), (x, y), t)
                q = e_gmsd(s * X, s * Y)
                ask(rec, 'gmsd' + w, lambda: sm.gmsd(x, y, rescale=resc),
                    q[0], (x, y), max(t, 1e-7))
                r = sm.gmsd(x, y, rescale=resc, returnMap=True)
                if not isinstance(r, tuple) or len(r) != 2 or \
                        np.shape(r[1]) != q[1].shape or \
                        np.max(np.abs(r[1] - q[1])) > max(t, 1e-9) or \
                        abs(r[0] - q[0]) > max(t, 1e-7):
                    rec.violate('wrong-map', 'gmsd' + w)
                if k == 0 and (abs(r[0]) > 1e-6 or
                               np.max(np.abs(r[1] - 1)) > 1e-6):
                    rec.violate('identity', 'gmsd of equal images' + w)
            if k < 3:
                ask(rec, 'pamse default', lambda: sm.pamse(x, y),
                    e_pamse(255 / X.max() * X, 255 / X.max() * Y), (x, y), t)
                ask(rec, 'gmsd default', lambda: sm.gmsd(x, y),
                    e_gmsd(255 / X.max() * X, 255 / X.max() * Y)[0], (x, y),
                    max(t, 1e-7))


def kern():
    r = int(4.0 * 0.8 + 0.5)
    g = [math.exp(-0.5 * (i / 0.8) ** 2) for i in range(-r, r + 1)]
    return r, [v / sum(g) for v in g]


def blur(n):
    r, g = kern()
    B = np.zeros((n, n))
    for i in range(n):
        for j, v in zip(range(-r, r + 1), g):
            B[i, refl(i + j, n)] += v
    return B


def e_pamse(x, y):
    """Mean square of the difference smoothed by a Gaussian of standard
    deviation 0.8 with symmetric extension."""
    d = x - y
    e = blur(d.shape[0]).dot(d).dot(blur(d.shape[1]).T)
    return float(np.mean(e ** 2))


def half(n):
    """Average of adjacent samples (symmetric extension before the start)
    at every second position."""
    H = np.zeros(((n + 1) // 2, n))
    for i in range(H.shape[0]):
        H[i, refl(2 * i, n)] += 0.5
        H[i, refl(2 * i - 1, n)] += 0.5
    return H


def cen(n, w):
    C = np.zeros((n, n))
    for i in range(n):
        for k, v in zip((-1, 0, 1), w):
            C[i, refl(i + k, n)] += v
    return C


def e_gmsd(x, y):
    def gm(v):
        v = half(v.shape[0]).dot(v).dot(half(v.shape[1]).T)
        n, m = v.shape
        gx = cen(n, (1, 1, 1)).dot(v).dot(cen(m, (-1, 0, 1)).T) / 3
        gy = cen(n, (-1, 0, 1)).dot(v).dot(cen(m, (1, 1, 1)).T) / 3
        return np.sqrt(gx ** 2 + gy ** 2)
    a, b = gm(x), gm(y)
    q = (2 * a * b + 170.0) / (a ** 2 + b ** 2 + 170.0)
    return float(np.std(q)), q


hist.attach(globals())
large.attach(globals())
