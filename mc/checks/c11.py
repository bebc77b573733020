"""C11: array block, window and padding utilities."""
import collections
import itertools
import numpy as np
from mc import hist, large

PROPERTY = 'C11'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 900
BOUNDS = {
    'quick': 'all array shapes with axis lengths 1..4 in up to 3 dimensions '
             '(1..7 in one), all block/window sizes that fit, all steps '
             '1..3, window counts up to 2 beyond the end, contiguous, '
             'Fortran and strided inputs',
    'thorough': 'axis lengths up to 5 (1..9 in one), steps 1..4, 4 '
                'dimensions'}


def num(shape, lay='C'):
    x = np.arange(1.0, 1.0 + int(np.prod(shape))).reshape(shape)
    x = x * 1.5 - 2
    if lay == 'F':
        return np.asfortranarray(x)
    if lay == 'S':
        b = np.zeros(tuple(2 * n for n in shape))
        v = b[tuple(slice(None, None, 2) for _ in shape)]
        v[...] = x
        return v
    if lay == 'R':
        return x[tuple(slice(None, None, -1) for _ in shape)].copy()[
            tuple(slice(None, None, -1) for _ in shape)]
    return x


def shapes(tier, nds=(1, 2, 3)):
    out = []
    m = 4 if tier == 'quick' else 5
    for nd in nds:
        if nd == 1:
            out += [(n,) for n in range(1, 8 if tier == 'quick' else 10)]
        elif nd == 2:
            out += list(itertools.product(range(1, m + 1), repeat=2))
        else:
            out += list(itertools.product(range(1, m if tier == 'quick' else
                                                m), repeat=nd))
    if tier != 'quick':
        out += list(itertools.product((1, 2, 3), repeat=4))
    return out


def scenarios(tier):
    out = []
    for sh in shapes(tier):
        for fn in ('window', 'subsample', 'blocks'):
            for lay in ('C', 'F', 'S', 'R'):
                out.append(dict(fn=fn, shape=list(sh), lay=lay))
        out.append(dict(fn='misc', shape=list(sh), lay='C'))
    out.append(dict(fn='tuple', shape=[0], lay='C'))
    out.append(dict(fn='zdiv', shape=[0], lay='C'))
    for s in out:
        s['tier'] = tier
        s['key'] = '%s/%s/%s' % (s['fn'], tuple(s['shape']), s['lay'])
    return out


def run(scn, rec):
    import sporco.array as sa
    globals()['r_' + scn['fn']](scn, rec, sa, tuple(scn['shape']),
                                scn['lay'])


def eq(rec, what, f, want, ins=()):
    keep = [np.array(x) for x in ins]
    rec.trace()
    rec.state()
    rec.step()
    try:
        g = f()
    except Exception as e:
        rec.violate('exception', '%s: %s: %s' % (what, type(e).__name__, e))
        return None
    want = np.asarray(want)
    ga = np.asarray(g)
    if ga.shape != want.shape:
        rec.violate('wrong-shape', '%s: %s instead of %s' % (
            what, ga.shape, want.shape))
    elif not np.allclose(ga, want, rtol=1e-12, atol=1e-12, equal_nan=True):
        rec.violate('wrong-value', '%s: %s instead of %s' % (
            what, ga.ravel()[:12], want.ravel()[:12]))
    for x, k in zip(ins, keep):
        if not np.array_equal(x, k):
            rec.violate('input-modified', what)
    return g


def raises(rec, what, exc, f):
    rec.trace()
    rec.state()
    try:
        f()
    except exc:
        return
    except Exception as e:
        rec.violate('wrong-error', '%s: %s' % (what, type(e).__name__))
        return
    rec.violate('no-error', what)


PADS = ['wrap', 'reflect', 'edge', 'symmetric', 'constant']


def pidx(i, n, mode):
    """index into the unpadded axis of padded position i (None: zero)"""
    if i < n:
        return i
    if mode == 'wrap':
        return i % n
    if mode == 'edge':
        return n - 1
    if mode == 'constant':
        return None
    if mode == 'symmetric':
        j = i % (2 * n)
        return j if j < n else 2 * n - 1 - j
    if n == 1:
        return 0
    j = i % (2 * n - 2)
    return j if j < n else 2 * n - 2 - j


def at(x, idx, mode):
    r = [pidx(i, n, mode) for i, n in zip(idx, x.shape)]
    return 0.0 if any(i is None for i in r) else x[tuple(r)]


def r_window(scn, rec, sa, sh, lay):
    x = num(sh, lay)
    for w in itertools.product(*[range(1, n + 1) for n in sh]):
        fitn = [n - a + 1 for n, a in zip(sh, w)]
        cnt = [None] + list(itertools.product(*[
            sorted(set([1, f, f + 1, f + 2] if len(sh) < 3 else
                       [1, f, f + 1])) for f in fitn]))
        if len(sh) == 3 and lay != 'C':
            cnt = [None]
        for wn in cnt:
            modes = PADS if wn is not None and len(sh) < 2 else \
                (['wrap', 'edge'] if wn is not None else ['wrap'])
            for mode in modes:
                c = tuple(fitn) if wn is None else wn
                want = np.empty(w + c)
                for i in np.ndindex(*(w + c)):
                    want[i] = at(x, [i[k] + i[k + len(sh)]
                                     for k in range(len(sh))], mode)
                wt = 'rolling_window(%s, %s, %s, %s)' % (sh, w, wn, mode)
                if wn is None:
                    eq(rec, wt, lambda: sa.rolling_window(x, w), want, (x,))
                eq(rec, wt, lambda: sa.rolling_window(x, w, wn, pad=mode),
                   want, (x,))
                if mode == 'wrap':
                    eq(rec, wt, lambda: sa.rolling_window(x, w, wn), want,
                       (x,))
        if len(rec.violations) > 3:
            return
    rec.outcome(want)


def r_subsample(scn, rec, sa, sh, lay):
    x = num(sh, lay)
    for st in itertools.product(*[range(1, n + 1) for n in sh]):
        if any(s >= n for s, n in zip(st, sh)):
            raises(rec, 'subsample_array(%s, %s)' % (sh, st), ValueError,
                   lambda: sa.subsample_array(x, st))
            continue
        for pad, mode in [(False, None), (True, None), (True, 'wrap'),
                          (True, 'edge'), (True, 'constant')]:
            nb = tuple(-(-n // s) if pad else n // s
                       for n, s in zip(sh, st))
            want = np.empty(st + nb)
            for i in np.ndindex(*(st + nb)):
                want[i] = at(x, [i[k] + st[k] * i[k + len(sh)]
                                 for k in range(len(sh))],
                             mode or 'reflect')
            kw = {} if mode is None else {'mode': mode}
            if pad:
                kw['pad'] = True
            eq(rec, 'subsample_array(%s, %s, %s)' % (sh, st, kw),
               lambda: sa.subsample_array(x, st, **kw), want, (x,))
            rec.outcome(want)
        if len(rec.violations) > 3:
            return


def r_blocks(scn, rec, sa, sh, lay):
    x = num(sh, lay)
    mxs = 3 if scn['tier'] == 'quick' else 4
    for nb in range(1, len(sh) + 1):
        for bs in itertools.product(*[range(1, n + 1) for n in sh[:nb]]):
            sts = [None] + list(itertools.product(range(1, mxs + 1),
                                                  repeat=nb))
            if len(sh) == 3:
                sts = [None] + [s for s in sts[1:] if max(s) < 3]
            if lay != 'C':
                sts = [None, (2,) * nb]
            for st in sts:
                s = st or (1,) * nb
                num_ = tuple((n - b) // c + 1 for n, b, c in
                             zip(sh[:nb], bs, s)) + sh[nb:]
                want = np.empty(bs + (int(np.prod(num_)),))
                src = np.empty(want.shape, dtype=int)
                idx = np.arange(x.size).reshape(sh)
                for j, pos in enumerate(np.ndindex(*num_)):
                    for o in np.ndindex(*bs):
                        p = tuple(pos[k] * s[k] + o[k] for k in range(nb)) \
                            + pos[nb:]
                        want[o + (j,)] = x[p]
                        src[o + (j,)] = idx[p]
                w = '(%s, %s, %s)' % (sh, bs, st)
                b = eq(rec, 'extract_blocks' + w, lambda: sa.extract_blocks(
                    x, bs) if st is None else sa.extract_blocks(x, bs, st),
                    want, (x,))
                if b is None:
                    return
                # blocks with unrelated content
                v = np.sin(np.arange(want.size) * 1.7).reshape(want.shape)
                cnt = np.bincount(src.ravel(), minlength=x.size)
                sm = np.bincount(src.ravel(), weights=v.ravel(),
                                 minlength=x.size)
                av = np.where(cnt > 0, sm / np.maximum(cnt, 1),
                              np.nan).reshape(sh)
                eq(rec, 'average_blocks' + w, lambda: sa.average_blocks(
                    v, sh, st), av, (v,))
                eq(rec, 'average_blocks(extract_blocks)' + w, lambda:
                   sa.average_blocks(want, sh, st), np.where(
                       cnt.reshape(sh) > 0, x, np.nan), (want,))
                if x.size <= 12 or lay == 'C' and st is not None and \
                        max(st) < 3:
                    vals = [[] for _ in range(x.size)]
                    for q, p in zip(v.ravel(), src.ravel()):
                        vals[p].append(q)
                    for fn, rf in ((None, np.median), (np.mean, np.mean),
                                   (np.max, np.max)):
                        if fn is np.max and min(cnt) == 0:
                            continue
                        wv = np.array([rf(q) if q else np.nan
                                       for q in vals]).reshape(sh)
                        kw = {} if fn is None else {'fn': fn}
                        eq(rec, 'combine_blocks%s fn=%s' % (
                            w, getattr(fn, '__name__', None)), lambda:
                           sa.combine_blocks(v, sh, st, **kw), wv, (v,))
                if len(rec.violations) > 3:
                    return
            rec.outcome(want)
    # tuple of images: stacked on a new last axis
    if lay == 'C' and len(sh) < 3:
        for bs in itertools.product(*[range(1, n + 1) for n in sh]):
            y = np.stack((x, -x), axis=-1)
            eq(rec, 'extract_blocks(tuple)', lambda: sa.extract_blocks(
                (x, -x), bs), sa.extract_blocks(y, bs))


def r_misc(scn, rec, sa, sh, lay):
    x = num(sh, lay)
    nd = len(sh)
    for ax in range(nd):
        for pd in itertools.product((0, 1, 2), repeat=2):
            full = [(0, 0)] * nd
            full[ax] = pd
            want = np.zeros(tuple(n + sum(p) for n, p in zip(sh, full)))
            want[tuple(slice(p[0], p[0] + n)
                       for n, p in zip(sh, full))] = x
            eq(rec, 'zpad(%s, %s, %d)' % (sh, pd, ax),
               lambda: sa.zpad(x, pd, ax), want, (x,))
    for ax in range(-nd, nd):
        rec.trace()
        g = sa.split(x, axis=ax)
        if len(g) != sh[ax]:
            rec.violate('wrong-value', 'split(%s, %d) length' % (sh, ax))
            continue
        for k in range(sh[ax]):
            eq(rec, 'split(%s, %d)[%d]' % (sh, ax, k), lambda: g[k],
               np.take(x, k, axis=ax))
    if not np.array_equal(np.array(sa.split(x)), x):
        rec.violate('wrong-value', 'split default axis')
    for n in range(0, nd + 4):
        eq(rec, 'atleast_nd(%d, %s)' % (n, sh), lambda: sa.atleast_nd(n, x),
           x.reshape(sh + (1,) * max(0, n - nd)), (x,))
    for dt in ('float16', 'float32', 'float64', 'int8', 'complex64'):
        y = x.astype(dt)
        want = np.float32 if dt == 'float16' else np.dtype(dt)
        g = eq(rec, 'promote16(%s)' % dt, lambda: sa.promote16(y), y, (y,))
        if g is not None and g.dtype != want:
            rec.violate('wrong-type', 'promote16(%s) -> %s' % (dt, g.dtype))
        seen = []

        def f(u, a, b=2):
            seen.append(u.dtype)
            return u * a + b
        g = eq(rec, 'promote16(%s, fn)' % dt, lambda: sa.promote16(
            y, f, y.dtype.type(2), b=y.dtype.type(1)), y * 2 + 1, (y,))
        if g is not None and (g.dtype != y.dtype or seen[-1] != want):
            rec.violate('wrong-type', 'promote16(%s, fn) %s %s' % (
                dt, g.dtype, seen))

        def f2(u):
            return u + u, u * 0
        r = sa.promote16(y, fn=f2)
        if not isinstance(r, tuple) or len(r) != 2 or \
                any(v.dtype != y.dtype for v in r) or \
                not np.allclose(r[0], y + y) or np.any(r[1]):
            rec.violate('wrong-type', 'promote16(%s, fn) tuple' % dt)
    rec.outcome(x)


def r_tuple(scn, rec, sa, sh, lay):
    for nf in (1, 2, 3, 4):
        for name in ('NT', 'Stats'):
            nt = collections.namedtuple(name, ['f%d' % i for i in
                                               range(nf)][::-1])
            for vals in itertools.product([0, -1, 2.5], repeat=nf):
                rec.trace()
                rec.state()
                t = nt(*vals)
                try:
                    r = sa.array2ntpl(sa.ntpl2array(t))
                except Exception as e:
                    rec.violate('exception', 'array2ntpl(ntpl2array(%s)): %s'
                                % (t, e))
                    continue
                if tuple(r) != tuple(t) or r._fields != t._fields or \
                        type(r).__name__ != name:
                    rec.violate('wrong-value', 'array2ntpl(ntpl2array(%s)) '
                                '= %s' % (t, r))
                rec.outcome(tuple(r))
            for n in (1, 2, 3):
                lst = [nt(*[10 * i + j for j in range(nf)])
                       for i in range(n)]
                keep = list(lst)
                r = sa.transpose_ntpl_list(lst)
                rec.trace()
                if r._fields != nt._fields or type(r).__name__ != name or \
                        any(list(getattr(r, f)) != [getattr(t, f)
                                                    for t in lst]
                            for f in nt._fields) or lst != keep:
                    rec.violate('wrong-value', 'transpose_ntpl_list(%s) = %s'
                                % (lst, r))
    if sa.transpose_ntpl_list([]) is not None:
        rec.violate('wrong-value', 'transpose_ntpl_list([])')


def r_zdiv(scn, rec, sa, sh, lay):
    xs = [0.0, 1.0, -2.0, np.inf, 1e-300]
    ys = [0.0, -0.0, 2.0, -1.0, 1e-200, np.inf]
    for n in (1, 2, 3):
        for x in itertools.product(xs, repeat=n):
            for y in itertools.product(ys, repeat=n):
                if n == 3 and (x[0] > x[1] or y[0] > y[1]):
                    continue
                X, Y = np.array(x), np.array(y)
                want = np.array([0.0 if b == 0 else a / b
                                 for a, b in zip(X, Y)])
                eq(rec, 'zdivide(%s, %s)' % (x, y),
                   lambda: sa.zdivide(X, Y), want, (X, Y))
    xc = np.array([[0, 1 + 1j, 2], [3j, 0, -1]])
    for yc in itertools.product([0.0, 2.0, 1j], repeat=3):
        Y = np.array(yc)
        want = np.where(Y != 0, xc / np.where(Y != 0, Y, 1), 0)
        eq(rec, 'zdivide complex', lambda: sa.zdivide(xc, Y), want, (xc, Y))
        Y2 = Y[:2, None]
        want = np.where(Y2 != 0, xc / np.where(Y2 != 0, Y2, 1), 0)
        eq(rec, 'zdivide broadcast', lambda: sa.zdivide(xc, Y2), want)
    for dt in ('float16', 'float32', 'float64', 'complex64'):
        g = sa.zdivide(np.ones(2, dt), np.array([0, 2], dt))
        if g.dtype != np.dtype(dt):
            rec.violate('wrong-type', 'zdivide %s -> %s' % (dt, g.dtype))
    rec.outcome('zdiv')


hist.attach(globals())
large.attach(globals())
