"""C05: grid search returns the true optimum for every way of distributing
the evaluations over processes, ranks and completion orders."""
import itertools
import math
import multiprocessing
import multiprocessing.pool
import os
import time

import numpy as np

from mc.core import Violation
from mc import fakempi

PROPERTY = 'C05'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'function values: all assignments of {0,1,nan} to <=5 grid '
             'points, structured values on grids to 3 axes; scalar and '
             'tuple-valued; min and max; worker pool: all completion orders '
             'for <=4 tasks plus real forked pools with 1-5 processes; MPI: '
             '1-7 ranks, all rank orders for <=3 ranks',
    'thorough': 'as quick with 6 grid points, 1-10 ranks, all rank orders '
                'for <=4 ranks, real mpiexec runs with 1-6 processes'}
SCENARIO_LIMIT = 240


def grids(shape):
    return tuple(np.array([10.0 * (k + 1) + 0.5 * i * i for i in range(n)])
                 for k, n in enumerate(shape))


def shapes_of(n):
    out = [(n,)]
    for a in range(1, n + 1):
        if n % a == 0:
            out.append((a, n // a))
    return out


def make_fn(grd, vals):
    """vals: list of function value lists (flat, C order) -> fn."""
    pts = list(itertools.product(*[g.tolist() for g in grd]))
    tab = {p: i for i, p in enumerate(pts)}
    log = []

    def fn(prm):
        i = tab[tuple(float(x) for x in prm)]
        log.append(i)
        if isinstance(vals, tuple):
            return tuple(v[i] for v in vals)
        return vals[i]
    return fn, log


def verify(res, grd, vals, fmin, what):
    sprm, sfvl, fvmx, sidx = res
    shp = tuple(len(g) for g in grd)
    multi = isinstance(vals, tuple)
    vl = vals if multi else (vals,)
    fvmx = np.asarray(fvmx)
    exp_shape = shp + ((len(vl),) if multi else ())
    if fvmx.shape != exp_shape:
        raise Violation('grid-shape', '%s: value array has shape %r, '
                        'expected %r' % (what, fvmx.shape, exp_shape))
    for j, v in enumerate(vl):
        arr = np.asarray(v, dtype=float).reshape(shp)
        got = fvmx[..., j] if multi else fvmx
        if not np.array_equal(got, arr, equal_nan=True):
            raise Violation('grid-values', '%s: values on grid %r, expected '
                            '%r' % (what, got.tolist(), arr.tolist()))
        best = np.nanmin(arr) if fmin else np.nanmax(arr)
        sv = sfvl[j] if multi else sfvl
        if not (float(sv) == best):
            raise Violation('optimum', '%s: optimum reported %r, true %r'
                            % (what, sv, best))
        idx = tuple(int(np.asarray(s).ravel()[j if multi else 0])
                    for s in sidx[0:len(shp)])
        if len(sidx) < len(shp) or arr[idx] != best:
            raise Violation('index', '%s: index %r is not an optimum of %r'
                            % (what, idx, arr.tolist()))
        if not np.array_equal(np.asarray(fvmx[sidx]).ravel()[
                j if multi else 0], best):
            raise Violation('index', '%s: values[index] is not the optimum'
                            % what)
        for k in range(len(shp)):
            pv = np.asarray(sprm[k]).ravel()[j if multi else 0]
            if float(pv) != float(grd[k][idx[k]]):
                raise Violation('params', '%s: parameter %d reported %r, '
                                'grid has %r' % (what, k, pv,
                                                 grd[k][idx[k]]))


# ---- controlled pool ------------------------------------------------------

class Fut(object):
    def __init__(self, val=None, exc=None):
        self.v, self.e = val, exc

    def get(self, timeout=None):
        if self.e is not None:
            raise self.e
        return self.v

    result = get

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.e is None


class CtlPool(object):
    """Pool stand-in whose tasks complete in a prescribed order."""
    order = None
    ntasks = 0

    def __init__(self, processes=None, initializer=None, initargs=(),
                 *a, **k):
        if processes is not None and processes < 1:
            raise ValueError('Number of processes must be at least 1')
        if initializer is not None:
            initializer(*initargs)

    def _run(self, fn, items, star=False):
        items = list(items)
        CtlPool.ntasks += len(items)
        perm = perm_for(len(items), CtlPool.order)
        out = {}
        for i in perm:
            out[i] = fn(*items[i]) if star else fn(items[i])
        return out, perm

    def map(self, fn, it, chunksize=None):
        o, p = self._run(fn, it)
        return [o[i] for i in range(len(o))]

    def starmap(self, fn, it, chunksize=None):
        o, p = self._run(fn, it, True)
        return [o[i] for i in range(len(o))]

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=1):
        o, p = self._run(fn, it)
        return iter([o[i] for i in p])

    def map_async(self, fn, it, chunksize=None, callback=None,
                  error_callback=None):
        r = self.map(fn, it)
        if callback:
            callback(r)
        return Fut(r)

    def starmap_async(self, fn, it, chunksize=None, callback=None,
                      error_callback=None):
        r = self.starmap(fn, it)
        if callback:
            callback(r)
        return Fut(r)

    def apply(self, fn, args=(), kwds={}):
        return fn(*args, **kwds)

    def apply_async(self, fn, args=(), kwds={}, callback=None,
                    error_callback=None):
        try:
            r = fn(*args, **kwds)
        except Exception as e:
            return Fut(exc=e)
        if callback:
            callback(r)
        return Fut(r)

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def perm_for(n, k):
    """k-th permutation of n items (factorial number system, modular)."""
    if k is None:
        return list(range(n))
    if k == 'rev':
        return list(range(n))[::-1]
    items = list(range(n))
    out = []
    k = k % math.factorial(n)
    for i in range(n, 0, -1):
        f = math.factorial(i - 1)
        out.append(items.pop(k // f))
        k %= f
    return out


def with_pool(order, call):
    import sporco.util as su
    saved = multiprocessing.Pool
    CtlPool.order = order
    sub = {}
    for k, v in list(vars(su).items()):
        if v is saved or v is multiprocessing.pool.Pool:
            sub[k] = v
            setattr(su, k, CtlPool)
    multiprocessing.Pool = CtlPool
    try:
        return call()
    finally:
        multiprocessing.Pool = saved
        for k, v in sub.items():
            setattr(su, k, v)


def value_patterns(n):
    return itertools.product((0.0, 1.0, float('nan')), repeat=n)


def allnan(v):
    return all(x != x for x in v)


# ---- scenarios --------------------------------------------------------------

def scenarios(tier):
    out = []
    nmax = 5 if tier == 'quick' else 6
    for n in range(1, nmax + 1):
        for shp in shapes_of(n):
            out.append({'key': 'pool/%s' % (shp,), 'kind': 'pool',
                        'shape': list(shp)})
    out.append({'key': 'pool/shape3', 'kind': 'pool3'})
    for np_ in (1, 2, 3, 5, None):
        out.append({'key': 'realpool/%s' % np_, 'kind': 'real',
                    'nproc': np_})
    out.append({'key': 'pool/exc', 'kind': 'exc'})
    for size in range(1, 8 if tier == 'quick' else 11):
        for n in range(1, nmax + 1):
            for shp in shapes_of(n):
                out.append({'key': 'mpi/%d/%s' % (size, shp), 'kind': 'mpi',
                            'size': size, 'shape': list(shp), 'tier': tier})
        out.append({'key': 'mpi/%d/large' % size, 'kind': 'mpi3',
                    'size': size, 'tier': tier})
    if tier == 'thorough':
        for size in range(1, 7):
            out.append({'key': 'realmpi/%d' % size, 'kind': 'realmpi',
                        'size': size})
    # heavy scenarios first
    out.sort(key=lambda s: s['kind'] != 'real')
    return out


def run(scn, rec):
    globals()['run_' + scn['kind']](scn, rec)


def do_pool(grd, vals, fmin, order, what, rec, nproc=2):
    from sporco import util
    fn, log = make_fn(grd, vals)
    res = with_pool(order, lambda: util.grid_search(fn, grd, fmin=fmin,
                                                    nproc=nproc))
    verify(res, grd, vals, fmin, what)
    rec.step(len(log))
    rec.trace()
    rec.outcome(np.asarray(res[1], dtype=float), str(res[3]))


def run_pool(scn, rec):
    shp = tuple(scn['shape'])
    n = int(np.prod(shp))
    grd = grids(shp)
    norders = math.factorial(n) if n <= 4 else 0
    for v in value_patterns(n):
        if allnan(v):
            continue
        for fmin in (True, False):
            what = 'shape %r values %r fmin=%r' % (shp, v, fmin)
            rec.state()
            do_pool(grd, list(v), fmin, None, what, rec)
            w = tuple(reversed(v))
            do_pool(grd, (list(v), list(w)), fmin, None, what + ' x2', rec)
            do_pool(grd, (list(v),), fmin, 'rev', what + ' x1', rec)
    # distinct values: every completion order
    v = [float((7 * i + 3) % 11) for i in range(n)]
    for k in list(range(norders)) + ['rev', 5, 17, 63]:
        for fmin in (True, False):
            rec.state()
            do_pool(grd, v, fmin, k, 'order %r' % k, rec)
            do_pool(grd, (v, [-x for x in v], [x * x - 6 * x for x in v]),
                    fmin, k, 'order %r x3' % k, rec)
    rec.sample = {'shape': shp, 'values': v, 'orders': norders}


def run_pool3(scn, rec):
    for shp in ((2, 3, 2), (3, 2, 2), (1, 4, 3), (5, 1, 2), (2, 2, 2, 2),
                (12,), (3, 7)):
        grd = grids(shp)
        n = int(np.prod(shp))
        for best in range(n):
            for fmin in (True, False):
                v = [2.0 + ((5 * i) % n) for i in range(n)]
                v[best] = -1.0 if fmin else 1e3
                v[(best + 1) % n] = float('nan') if n > 1 else v[best]
                rec.state()
                do_pool(grd, v, fmin, best, 'shape %r best %d' % (shp, best),
                        rec)
                do_pool(grd, (v, v[::-1]), fmin, None,
                        'shape %r best %d x2' % (shp, best), rec)


def real_fn(prm):
    # later grid points finish first, so completion order is reversed
    time.sleep(0.004 * max(0.0, 6.0 - float(prm[0])))
    return (float(prm[0]) - 2.0) ** 2 + float(prm[1])


def real_fnv(prm):
    time.sleep(0.004 * max(0.0, 6.0 - float(prm[0])))
    return ((float(prm[0]) - 2.0) ** 2 + float(prm[1]), -float(prm[0]),
            float(prm[1]))


def run_real(scn, rec):
    from sporco import util
    for shp in ((6, 1), (3, 2), (5, 3)):
        grd = (np.arange(shp[0], dtype=float), np.arange(shp[1]) * 0.25)
        pts = list(itertools.product(grd[0], grd[1]))
        for fmin in (True, False):
            for f, mk in ((real_fn, lambda r: [x for x in r]),
                          (real_fnv, lambda r: tuple(
                              [x[j] for x in r] for j in range(3)))):
                exp = mk([f(p) for p in pts])
                res = util.grid_search(f, grd, fmin=fmin,
                                       nproc=scn['nproc'])
                verify(res, grd, exp, fmin, 'real pool nproc=%r shape %r'
                       % (scn['nproc'], shp))
                rec.state()
                rec.step(len(pts))
                rec.trace()


def exc_fn(prm):
    if prm[0] == 2.0:
        raise ArithmeticError('boom')
    return float(prm[0])


def run_exc(scn, rec):
    from sporco import util
    for nproc in (1, 3):
        rec.state()
        rec.step()
        try:
            r = util.grid_search(exc_fn, (np.arange(4.0),), nproc=nproc)
        except ArithmeticError:
            continue
        raise Violation('error-swallowed', 'a failing evaluation was hidden: '
                        '%r' % (r,))
    rec.trace()


def do_mpi(size, grd, vals, fmin, order, what, rec):
    from sporco import mpiutil
    logs = []

    def body(comm, r):
        fn, log = make_fn(grd, vals)
        logs.append(log)
        return mpiutil.grid_search(fn, grd, comm=comm, fmin=fmin)
    w = fakempi.World(size, order)
    res, exc = w.run(body)
    rec.step(w.ncoll + sum(len(x) for x in logs))
    rec.trace()
    what = '%d ranks, %s' % (size, what)
    if w.error is not None:
        raise Violation('mpi-error', '%s: %s' % (what, w.error))
    for r in range(size):
        if exc[r] is not None:
            raise Violation('rank-failed', '%s: rank %d raised %r'
                            % (what, r, exc[r]))
    for r in range(size):
        verify(res[r], grd, vals, fmin, what + ', rank %d' % r)
    if sum(len(x) for x in logs) < int(np.prod([len(g) for g in grd])):
        raise Violation('not-evaluated', what)
    rec.outcome(size, np.asarray(res[0][1], dtype=float), str(res[0][3]))


def run_mpi(scn, rec):
    shp = tuple(scn['shape'])
    size = scn['size']
    n = int(np.prod(shp))
    grd = grids(shp)
    full = 3 if scn['tier'] == 'quick' else 4
    orders = [list(range(size)), list(range(size))[::-1]]
    if size <= full:
        orders = [list(p) for p in itertools.permutations(range(size))]
    v = [float((7 * i + 3) % 11) for i in range(n)]
    for o in orders:
        for fmin in (True, False):
            rec.state()
            do_mpi(size, grd, v, fmin, o, 'shape %r order %r' % (shp, o), rec)
            do_mpi(size, grd, (v, [-x for x in v]), fmin, o,
                   'shape %r order %r x2' % (shp, o), rec)
    # values returned as Python integers
    do_mpi(size, grd, [int(x) for x in v], True, orders[0],
           'shape %r integer values' % (shp,), rec)
    for j, v in enumerate(value_patterns(n)):
        if allnan(v):
            continue
        if n == 5 and scn['tier'] == 'quick' and size not in (1, 2, 3, 6) \
           and j % 3:
            continue
        for fmin in (True, False):
            rec.state()
            what = 'shape %r values %r fmin=%r' % (shp, v, fmin)
            do_mpi(size, grd, list(v), fmin, orders[-1], what, rec)
            do_mpi(size, grd, (list(v), list(v)[::-1]), fmin, orders[0],
                   what + ' x2', rec)
    rec.sample = {'shape': shp, 'ranks': size, 'orders': orders[:4]}


def run_mpi3(scn, rec):
    size = scn['size']
    o = list(range(size))
    for shp in ((2, 3, 2), (3, 5), (1, 4, 3), (13,), (4, 4), (21,)):
        grd = grids(shp)
        n = int(np.prod(shp))
        for best in range(n):
            fmin = best % 2 == 0
            v = [2.0 + ((5 * i) % n) for i in range(n)]
            v[best] = -1.0 if fmin else 1e3
            v[(best + 1) % n] = float('nan')
            rec.state()
            do_mpi(size, grd, v, fmin, o, 'shape %r best %d' % (shp, best),
                   rec)
            do_mpi(size, grd, (v, v[::-1], v), fmin, o,
                   'shape %r best %d x3' % (shp, best), rec)


def run_realmpi(scn, rec):
    """Conformance: the same function on a real MPI, if one can be started."""
    import subprocess
    import sys
    prog = (
        "import sys; sys.path.insert(0, %r); sys.path.insert(0, '/repo')\n"
        "import numpy as np\nfrom mpi4py import MPI\n"
        "from sporco import mpiutil\nfrom mc.checks import c05\n"
        "class R: pass\n"
        "for shp in ((5,), (2, 3), (13,), (1, 4)):\n"
        "    grd = c05.grids(shp); n = int(np.prod(shp))\n"
        "    v = [float((7*i+3) %% 11) for i in range(n)]\n"
        "    for vals in (v, (v, [-x for x in v])):\n"
        "        for fmin in (True, False):\n"
        "            fn, log = c05.make_fn(grd, vals)\n"
        "            r = mpiutil.grid_search(fn, grd, comm=MPI.COMM_WORLD,"
        " fmin=fmin)\n"
        "            c05.verify(r, grd, vals, fmin, 'real mpi')\n"
        "print('RANK-OK')\n" % os.path.dirname(os.path.dirname(
            os.path.dirname(os.path.abspath(__file__)))))
    envv = dict(os.environ)
    for k in ('OMPI_MCA_btl', 'OMPI_MCA_plm'):
        envv.pop(k, None)
    p = subprocess.run(['mpiexec', '--oversubscribe', '-n',
                        str(scn['size']), sys.executable, '-c', prog],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=200, env=envv)
    txt = p.stdout.decode('utf8', 'replace')
    if 'Violation' in txt:
        raise Violation('real-mpi', txt[-1500:])
    rec.state()
    rec.step()
    if txt.count('RANK-OK') == scn['size']:
        rec.trace()
        rec.count('real_mpi_runs')
