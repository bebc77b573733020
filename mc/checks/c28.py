"""C28: dictionary tiling, bundled dictionaries and example images."""
import itertools
import math
import os
import re
import shutil
import tempfile
import numpy as np
from mc import hist, large

PROPERTY = 'C28'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 900
BOUNDS = {
    'quick': 'tilings of 1..13 atoms of every size up to 3 x 3, grey and '
             'colour, convolutional and column form, with every split of the '
             'atoms into up to 2 groups of sizes up to the array size; '
             'example images: every combination of 2 directory trees, 4 '
             'kinds of image file, and constructor and call values of '
             'scaled, dtype, zoom, gray and index expression',
    'thorough': 'up to 26 atoms, 3 groups'}


def scenarios(tier):
    th = tier != 'quick'
    out = []
    for N in range(1, 27 if th else 14):
        out.append(dict(fn='tile', N=N, ng=3 if th else 2))
    out.append(dict(fn='dicts'))
    out.append(dict(fn='bundled'))
    for i in range(24):
        out.append(dict(fn='images', part=i))
    out.append(dict(fn='tree'))
    for s in out:
        s['key'] = '/'.join(str(s[k]) for k in ('fn', 'N', 'part')
                            if k in s)
    return out


def run(scn, rec):
    globals()['r_' + scn['fn']](scn, rec)


def tiled(D, sizes):
    """Expected tiling: atoms in row-major order on the most nearly square
    grid with at least as many columns as rows, separated by one white sample,
    each in the corner of a cell as large as the largest atom."""
    N = D.shape[-1]
    E = (D - D.min())
    E = E / E.max()
    Vr = int(math.floor(math.sqrt(N)))
    Vc = -(-N // Vr)
    h = max(s[0] for s in sizes)
    w = max(s[1] for s in sizes)
    im = np.ones((Vr * h + Vr - 1, Vc * w + Vc - 1) + D.shape[2:-1])
    for k in range(N):
        r, c = (k // Vc) * (h + 1), (k % Vc) * (w + 1)
        a, b = sizes[k]
        im[r:r + a, c:c + b] = E[0:a, 0:b, ..., k]
    return im


def r_tile(scn, rec):
    from sporco import util
    N = scn['N']
    for a, b, C in itertools.product((1, 2, 3), (1, 2, 3), (0, 1, 3)):
        rs = np.random.RandomState(N * 100 + a * 10 + b)
        D = rs.randn(*((a, b) + ((C,) if C else ()) + (N,)))
        if D.size < 2:
            continue
        jobs = [(D, None, [(a, b)] * N)]
        cs = (a, b) + ((C,) if C else ())
        jobs.append((D.reshape(-1, N), cs, [(a, b)] * N))
        jobs.append((np.asfortranarray(D), None, [(a, b)] * N))
        parts = [(N,)] + [(k, N - k) for k in range(1, N)]
        if scn['ng'] > 2:
            parts += [(j, k, N - j - k) for j in range(1, N)
                      for k in range(1, N - j)][:20]
        dims = [(p, q) for p in range(1, a + 1) for q in range(1, b + 1)]
        for pt in parts:
            for sz in itertools.product(dims, repeat=len(pt)):
                spec = tuple(s + ((C,) if C else ()) + (k,)
                             for s, k in zip(sz, pt))
                if len(pt) > 2 and len(dims) > 4 and sz[0] != sz[1]:
                    continue
                jobs.append((D, spec, [s for s, k in zip(sz, pt)
                                       for _ in range(k)]))
        for X, spec, sizes in jobs:
            keep = X.copy()
            w = 'tiledict(%s, %s)' % (X.shape, spec)
            rec.trace()
            rec.state()
            rec.step(N)
            try:
                im = util.tiledict(X) if spec is None else \
                    util.tiledict(X, spec)
            except Exception as e:
                rec.violate('exception', '%s: %s: %s'
                            % (w, type(e).__name__, e))
                continue
            want = tiled(D, sizes)
            if im.shape != want.shape or np.max(np.abs(im - want)) > 1e-12:
                rec.violate('wrong-image', w)
            if not np.array_equal(X, keep):
                rec.violate('input-modified', w)
            rec.outcome(np.round(im, 9))


def r_dicts(scn, rec):
    from sporco import util
    a, b = util.convdicts(), util.convdicts()
    if not a or sorted(a) != sorted(b):
        rec.violate('wrong-keys', 'convdicts keys')
    for k in a:
        rec.trace()
        rec.state()
        D = a[k]
        t, spec = k.split(':')
        sizes = [tuple(int(v) for v in s.split('x')) for s in spec.split(',')]
        M = sum(s[-1] for s in sizes)
        colour = len(sizes[0]) == 4
        want = tuple(max(s[i] for s in sizes)
                     for i in range(len(sizes[0]) - 1)) + (M,)
        if D.shape != want:
            rec.violate('wrong-shape', 'dictionary %s has shape %s'
                        % (k, D.shape))
            continue
        if not np.all(np.isfinite(D)):
            rec.violate('not-finite', k)
        keep = b[k].copy()
        D[...] = 0
        if not np.array_equal(util.convdicts()[k], keep) or \
                not np.array_equal(b[k], keep):
            rec.violate('shared', 'two calls share dictionary %s' % k)
        rec.outcome(k, want)


def gray(x):
    return (0.299 * x[:, :, 0] + 0.587 * x[:, :, 1] + 0.114 * x[:, :, 2])


def make(root):
    import imageio.v3 as iio
    rs = np.random.RandomState(5)
    im = {'c.png': rs.randint(0, 256, (8, 6, 3)).astype(np.uint8),
          'g.png': rs.randint(0, 256, (5, 8)).astype(np.uint8),
          'w.png': np.full((4, 4, 3), 255, np.uint8),
          os.path.join('sub', 'b.png'):
          rs.randint(0, 256, (6, 7, 3)).astype(np.uint8),
          os.path.join('sub', 'deep', 'z.png'):
          rs.randint(0, 256, (3, 4)).astype(np.uint8)}
    for f, x in im.items():
        d = os.path.dirname(os.path.join(root, f))
        if not os.path.isdir(d):
            os.makedirs(d)
        iio.imwrite(os.path.join(root, f), x)
    with open(os.path.join(root, 'notes.txt'), 'w') as h:
        h.write('not an image')
    with open(os.path.join(root, 'sub', 'more.rst'), 'w') as h:
        h.write('not an image')
    return im


def r_tree(scn, rec):
    from sporco import util
    root = tempfile.mkdtemp(prefix='mc_c28_')
    try:
        im = make(root)
        for base in (root,):
            ei = util.ExampleImages(pth=base)
            rec.trace()
            rec.state()
            if sorted(ei.images()) != sorted(im):
                rec.violate('wrong-list', 'images(): %s' % ei.images())
            groups = {}
            for f in im:
                groups.setdefault(os.path.dirname(f), []).append(f)
            if sorted(ei.groups()) != sorted(groups):
                rec.violate('wrong-list', 'groups(): %s' % ei.groups())
            for g in groups:
                rec.trace()
                if sorted(ei.groupimages(g)) != sorted(groups[g]):
                    rec.violate('wrong-list', 'groupimages(%r): %s'
                                % (g, ei.groupimages(g)))
            for f in im:
                rec.trace()
                rec.state()
                x = ei.image(f)
                if x.dtype != np.uint8 or not np.array_equal(x, im[f]):
                    rec.violate('wrong-image', f)
                g, n = os.path.split(f)
                y = ei.image(n, group=g)
                if not np.array_equal(y, im[f]):
                    rec.violate('wrong-image', '%s in group %s' % (n, g))
                rec.outcome(x)
            for f, g in (('missing.png', None), ('b.png', None),
                         ('b.png', 'nogroup'), ('c.png', 'sub')):
                rec.trace()
                try:
                    ei.image(f, group=g)
                    rec.violate('accepted', '%s in %s' % (f, g))
                except IOError:
                    pass
                except Exception as e:
                    rec.violate('wrong-exception', '%s in %s: %s'
                                % (f, g, type(e).__name__))
    finally:
        shutil.rmtree(root)


def r_bundled(scn, rec):
    from sporco import util
    a = util.ExampleImages()
    names = ['monarch.png', 'sail.png', 'tulips.png', 'barbara.png',
             'kodim23.png']
    if sorted(a.images()) != sorted(names):
        rec.violate('wrong-list', 'bundled images: %s' % a.images())
    for n in names:
        x = a.image(n)
        rec.trace()
        rec.state()
        y = a.image(n, scaled=True, gray=True)
        want = (gray(x.astype(float)) if x.ndim == 3 else x) / 255.0
        if y.dtype != np.float32 or y.shape != x.shape[:2] or \
                np.max(np.abs(y - want)) > 1e-5:
            rec.violate('wrong-image', 'bundled %s, scaled grey' % n)
        rec.outcome(n, x.shape)


DT = [None, np.uint8, np.float32, np.float64, np.int32]
IDX = [None, np.s_[0:3], np.s_[1:4, 0:2], np.s_[::-1, ::2]]


def r_images(scn, rec):
    import scipy.ndimage as sn
    from sporco import util
    root = tempfile.mkdtemp(prefix='mc_c28_')
    try:
        im = make(root)
        cnt = -1
        for cs, cd, cz, cg in itertools.product(
                (False, True), DT, (None, 0.5, 2.0), (False, True)):
            cnt += 1
            if cnt % 24 != scn['part']:
                continue
            kw = dict(scaled=cs, dtype=cd, zoom=cz, gray=cg)
            ei = util.ExampleImages(pth=root, **kw)
            for sc, dt, zm, gr, ix in itertools.product(
                    (None, False, True), DT, (None, 0.5, 2.0),
                    (None, False, True), range(len(IDX))):
                for f in ('c.png', 'g.png', 'w.png'):
                    one(rec, ei, kw, f, im[f], sc, dt, zm, gr, ix, sn)
        ei = util.ExampleImages(pth=root)
        x = ei.image('c.png')
        if x.dtype != np.uint8 or not np.array_equal(x, im['c.png']):
            rec.violate('wrong-image', 'defaults')
    finally:
        shutil.rmtree(root)


def one(rec, ei, kw, f, x, sc, dt, zm, gr, ix, sn):
    w = 'ExampleImages(%s).image(%s, scaled=%s, dtype=%s, zoom=%s, gray=%s, ' \
        'idxexp=%s)' % (kw, f, sc, dt, zm, gr, IDX[ix])
    rec.trace()
    rec.state()
    rec.step()
    args = dict(scaled=sc, dtype=dt, zoom=zm, gray=gr)
    args = {k: v for k, v in args.items() if v is not None}
    if ix:
        args['idxexp'] = IDX[ix]
    try:
        g = ei.image(f, **args)
    except Exception as e:
        rec.violate('exception', '%s: %s: %s' % (w, type(e).__name__, e))
        return
    sc = kw['scaled'] if sc is None else sc
    dt = kw['dtype'] if dt is None else dt
    dt = np.uint8 if dt is None else dt
    zm = kw['zoom'] if zm is None else zm
    gr = kw['gray'] if gr is None else gr
    isint = np.issubdtype(dt, np.integer)
    if sc and isint:
        dt, isint = np.float32, False
    y = x.astype(dt)
    if sc:
        y = y / dt(255.0)
    if ix:
        y = y[IDX[ix]]
    if zm is not None:
        y = sn.zoom(y, (zm, zm) + (1,) * (y.ndim - 2))
    if gr and y.ndim == 3:
        y = gray(y.astype(float))
    tol = 1.0 if isint else 1e-5 * max(1.0, np.abs(y).max())
    if g.shape != y.shape:
        rec.violate('wrong-shape', '%s: %s' % (w, g.shape))
    elif g.dtype != np.dtype(dt):
        rec.violate('wrong-type', '%s: %s' % (w, g.dtype))
    elif np.max(np.abs(g.astype(float) - y)) > tol:
        rec.violate('wrong-image', w)
    else:
        rec.outcome(np.round(g.astype(float), 2))


hist.attach(globals())
large.attach(globals())
