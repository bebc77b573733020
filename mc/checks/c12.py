"""C12: problem dimension inference and dictionary constraint projection."""
import itertools
import numpy as np
from mc import hist, large
from mc.checks.c09 import arr

PROPERTY = 'C12'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 900
BOUNDS = {
    'quick': 'all dictionary/signal axis combinations for 1 to 3 spatial '
             'dimensions with channel, signal and filter counts 1..3 and '
             'every dimK; every weight and mask shape obtained by making '
             'axes singleton; every dictionary size specification form with '
             'up to 2 blocks of support sizes 1..3 (per channel sizes '
             'included), three and four blocks in every combination of '
             'plain and channel-split blocks, every crop/zero-mean/padding setting, real, '
             'complex and single precision, zero filters',
    'thorough': 'up to 3 blocks, support sizes 1..4'}


def scenarios(tier):
    out = []
    for dimN in (1, 2, 3):
        for Cd in (0, 1, 2, 3):
            for C in (0, 1, 2, 3):
                for K in (0, 1, 2, 3):
                    for dimK in (None, 0, 1):
                        out.append(dict(fn='dims', dimN=dimN, Cd=Cd, C=C,
                                        K=K, dimK=dimK))
    for dimN in (1, 2):
        for form in ('simple', 'blocks', 'chn'):
            for Cd in (0, 1, 2, 3):
                if form != 'chn' and Cd == 3:
                    continue
                if form == 'chn' and Cd == 0:
                    continue
                for K in (1, 2):
                    out.append(dict(fn='pcn', dimN=dimN, form=form, Cd=Cd,
                                    K=K))
    out.append(dict(fn='pcn', dimN=3, form='simple', Cd=0, K=1))
    out.append(dict(fn='pcn', dimN=3, form='blocks', Cd=2, K=1))
    out.append(dict(fn='lattice'))
    for s in out:
        s['tier'] = tier
        s['key'] = '/'.join('%s=%s' % (k, s[k]) for k in s if k != 'tier')
    return out


def run(scn, rec):
    import sporco.cnvrep as cr
    globals()['r_' + scn['fn']](scn, rec, cr)


def expect(dimN, Cd, C, K, dimK, M, Nv):
    """independent statement of the documented inference rules; C, K, Cd are
    0 when the array has no such axis.  None: documented error."""
    nax = (C > 0) + (K > 0)
    if nax == 2:
        dC, dK = 1, 1
    elif nax == 0:
        dC, dK = 0, 0
    else:
        n = C or K
        if dimK is None:
            isC = Cd > 0
        else:
            isC = dimK == 0
        C, K = (n, 0) if isC else (0, n)
        dC, dK = int(isC), int(not isC)
    cs, cd, k = max(C, 1), max(Cd, 1), max(K, 1)
    if cd > 1 and cs != cd:
        return None
    cx = 1 if cd > 1 else cs
    if cd == 1:
        cx = cs
    return dict(dimN=dimN, dimC=dC, dimK=dK, dimCd=int(Cd > 0), C=cs, K=k,
                Cd=cd, M=M, Cx=cx, Nv=Nv, N=int(np.prod(Nv)),
                axisN=tuple(range(dimN)), axisC=dimN, axisK=dimN + 1,
                axisM=dimN + 2, shpS=Nv + (cs, k, 1), shpX=Nv + (cx, k, M))


def r_dims(scn, rec, cr):
    dimN, Cd, C, K, dimK = [scn[k] for k in ('dimN', 'Cd', 'C', 'K', 'dimK')]
    nax = (C > 0) + (K > 0)
    # dimK must be consistent with the number of axes of S
    if dimK is not None and not 0 <= nax - dimK <= 1:
        return
    if nax == 1 and K > 0 and C == 0 and dimK == 0:
        return      # the same array as C=K, K=0
    for M in (1, 2, 4):
        Nv = (5, 4, 3)[:dimN]
        d = (2, 3, 1)[:dimN]
        D = np.zeros(d + ((Cd,) if Cd else ()) + (M,))
        S = np.zeros(Nv + ((C,) if C else ()) + ((K,) if K else ()))
        e = expect(dimN, Cd, C, K, dimK, M, Nv)
        dszs = [D.shape]
        if M > 1:
            dszs.append((d + ((Cd,) if Cd else ()) + (1,),
                         tuple(x + 1 for x in d) + ((Cd,) if Cd else ()) +
                         (M - 1,)))
        if Cd > 1:
            dszs.append(((d + (1, M), tuple(x + 1 for x in d) +
                          (Cd - 1, M)),))
        mk = [('CSC', lambda: cr.CSC_ConvRepIndexing(D, S, dimK=dimK,
                                                     dimN=dimN))]
        for z in dszs:
            mk.append(('CDU%s' % (z,), lambda z=z: cr.CDU_ConvRepIndexing(
                z, S, dimK=dimK, dimN=dimN)))
        for nm, f in mk:
            rec.trace()
            rec.state()
            rec.step()
            try:
                c = f()
            except ValueError as ex:
                if e is not None:
                    rec.violate('unexpected-error', '%s %s: %s' % (nm, scn,
                                                                   ex))
                continue
            if e is None:
                rec.violate('no-error', '%s D%s S%s dimK=%s' % (
                    nm, D.shape, S.shape, dimK))
                continue
            w = dict(e)
            w['shpD'] = (d if nm == 'CSC' else Nv) + (e['Cd'], 1, M)
            if nm == 'CSC':
                w.pop('Cx')
            for k in w:
                g = getattr(c, k)
                if (tuple(g) if isinstance(w[k], tuple) else int(g)) != w[k]:
                    rec.violate('wrong-dimensions', '%s D%s S%s dimK=%s: %s '
                                'is %s, should be %s' % (
                                    nm, D.shape, S.shape, dimK, k, g, w[k]))
            try:
                str(c)
            except Exception as ex:
                rec.violate('unexpected-error', 'str: %s' % ex)
            if nm == 'CSC':
                g = cr.stdformD(D, c.Cd, c.M, dimN)
                if g.shape != c.shpD:
                    rec.violate('wrong-dimensions', 'stdformD')
            weights(rec, cr, c, e, S, M, nm)
            rec.outcome(sorted(w.items()))
        for z in dszs:
            ds = cr.DictionarySize(z, dimN)
            sp = [z] if not isinstance(z[0], tuple) else [
                y for x in z for y in (x if isinstance(x[0], tuple)
                                       else (x,))]
            mx = tuple(max(x[i] for x in sp) for i in range(dimN))
            got = (ds.ndim, tuple(ds.mxsz), ds.nflt, ds.nchn)
            want = (dimN + 1 + (Cd > 0), mx, M, max(Cd, 1))
            if tuple(got) != want:
                rec.violate('wrong-dimensions', 'DictionarySize(%s): %s '
                            'instead of %s' % (z, got, want))


def weights(rec, cr, c, e, S, M, nm):
    """every weight/mask shape with singleton replacements"""
    dimN = e['dimN']
    sp = e['Nv']
    for one in itertools.product((False, True), repeat=S.ndim + 1):
        full = tuple(1 if o else n for o, n in zip(one, S.shape + (M,)))
        ax = list(full[dimN:-1])
        cax = ax.pop(0) if e['dimC'] else 1
        kax = ax.pop(0) if e['dimK'] else 1
        intl = full[:dimN] + (cax, kax)
        cands = [(full, intl + (full[-1],), 'l1'),
                 (intl + (full[-1],), intl + (full[-1],), 'l1')]
        if one[-1]:
            if S.ndim < dimN + 3:
                cands.append((full[:-1], intl + (1,), 'l1'))
            cands.append((full[:-1], intl + (1,), 'msk'))
            cands.append((intl, intl + (1,), 'msk'))
            cands.append((intl + (1,), intl + (1,), 'msk'))
            if e['dimC'] + e['dimK'] == 2 and kax == 1:
                # single extra axis: channel axis if the signal has several
                # channels, signal axis if it has one channel only
                if e['C'] > 1 or e['K'] == 1:
                    cands.append((full[:dimN] + (cax,), intl + (1,), 'msk'))
            if e['dimC'] + e['dimK'] == 2 and e['C'] == 1 and e['K'] > 1:
                cands.append((full[:dimN] + (kax,),
                              full[:dimN] + (1, kax, 1), 'msk'))
            cands.append((full[:dimN], full[:dimN] + (1, 1, 1), 'msk'))
        for sh, want, kind in cands:
            if kind == 'l1' and nm != 'CSC':
                continue
            rec.state()
            W = np.zeros(sh)
            f = cr.l1Wshape if kind == 'l1' else cr.mskWshape
            try:
                g = f(W, c)
            except Exception as ex:
                rec.violate('unexpected-error', '%sWshape(%s) S%s: %s' % (
                    kind, sh, S.shape, ex))
                continue
            if tuple(g) != want:
                rec.violate('wrong-weight-shape', '%sWshape(%s) for S%s '
                            'dimC=%d dimK=%d M=%d: %s, should be %s' % (
                                kind, sh, S.shape, e['dimC'], e['dimK'], M,
                                g, want))
    if nm == 'CSC':
        for k in range(1, S.ndim):
            W = np.zeros((2,) * k)
            try:
                cr.l1Wshape(W, c)
                rec.violate('no-error', 'l1Wshape of a %d-d array' % k)
            except ValueError:
                pass
        for W in (np.array(2.0), np.array([2.0])):
            if W.ndim < S.ndim:
                g = cr.l1Wshape(W, c)
                if tuple(g) != (1,) * (dimN + 3):
                    rec.violate('wrong-weight-shape', 'scalar weight')


# ------------------------------------------------------------- projection
def specs(form, dimN, Cd, tier):
    """(dsz, list of (support, channel slice, filter slice), C, M)"""
    mx = 3 if tier == 'quick' else 4
    C = max(Cd, 1)
    ch = (Cd,) if Cd else ()
    sup = list(itertools.product(range(1, mx + 1), repeat=dimN))
    if dimN == 3:
        sup = [(1, 2, 3), (2, 2, 1), (3, 1, 2)]
    out = []
    if form == 'simple':
        for s in sup:
            for M in (1, 3):
                out.append((s + ch + (M,), [(s, slice(0, C), slice(0, M))],
                            C, M))
    elif form == 'blocks':
        combos = list(itertools.product(sup, repeat=2))
        if tier != 'quick':
            combos += list(itertools.product(sup[::2], repeat=3))
        combos += [(s,) for s in sup]
        for b in combos:
            for ms in ([1] * len(b), [2, 1, 3][:len(b)]):
                dsz, parts, m = [], [], 0
                for s, n in zip(b, ms):
                    dsz.append(s + ch + (n,))
                    parts.append((s, slice(0, C), slice(m, m + n)))
                    m += n
                out.append((tuple(dsz), parts, C, m))
    else:
        ss = sup if dimN == 1 else sup[::2]
        split = {1: [(1,)], 2: [(1, 1), (2,)], 3: []}[Cd]
        for cs in split:
            for nb in (1, 2):
                for b in itertools.product(ss, repeat=nb * len(cs)):
                    dsz, parts, m = [], [], 0
                    for i in range(nb):
                        n = i + 1
                        blk, c0 = [], 0
                        for j, cn in enumerate(cs):
                            s = b[i * len(cs) + j]
                            blk.append(s + (cn, n))
                            parts.append((s, slice(c0, c0 + cn),
                                          slice(m, m + n)))
                            c0 += cn
                        dsz.append(tuple(blk))
                        m += n
                    out.append((tuple(dsz), parts, Cd, m))
            # mixed: a plain block after a channel-split one
            if Cd == 2 and cs == (1, 1):
                for s1, s2, s3 in itertools.product(ss[:3], repeat=3):
                    out.append((
                        ((s1 + (1, 1), s2 + (1, 1)), s3 + (2, 2)),
                        [(s1, slice(0, 1), slice(0, 1)),
                         (s2, slice(1, 2), slice(0, 1)),
                         (s3, slice(0, 2), slice(1, 3))], 2, 3))
        # three and four blocks, each plain or split by channel in any way,
        # with differing numbers of filters
        tri = [(1, 3, 2), (2, 1, 3), (3, 2, 1), (2, 2, 3)]
        ways = {1: [None, (1,)], 2: [None, (2,), (1, 1)],
                3: [None, (3,), (1, 2), (1, 1, 1)]}[C]
        for nb in (3, 4):
            for w in itertools.product(ways, repeat=nb):
                if all(x is None for x in w):
                    continue
                for ns in ((1, 1, 1, 1), (2, 1, 3, 1)) if nb == 3 or \
                        tier != 'quick' else ((1, 3, 1, 2),):
                    dsz, parts, m, q = [], [], 0, 0
                    for i in range(nb):
                        blk, c0 = [], 0
                        for cn in w[i] or (C,):
                            s = tri[q % 4][:dimN]
                            q += 1
                            blk.append(s + (cn, ns[i]))
                            parts.append((s, slice(c0, c0 + cn),
                                          slice(m, m + ns[i])))
                            c0 += cn
                        dsz.append(blk[0] if w[i] is None else tuple(blk))
                        m += ns[i]
                    out.append((tuple(dsz), parts, C, m))
    return out


def rproj(x, parts, Nv, dimN, dimC, crp, zm):
    """reference projection, filter by filter"""
    mx = tuple(max(p[0][i] for p in parts) for i in range(dimN))
    osz = mx if crp else tuple(Nv)
    y = np.zeros(osz + x.shape[dimN:], np.result_type(x.dtype, np.float64))
    for s, cs, ms in parts:
        for c in range(cs.start, cs.stop):
            for k in range(x.shape[dimN + 1]):
                for m in range(ms.start, ms.stop):
                    blk = tuple(slice(0, n) for n in s) + (c, k, m)
                    v = x[blk].astype(y.dtype)
                    y[blk] = v - (np.sum(v) / v.size if zm else 0)
    if dimC == 1:
        for k in range(y.shape[dimN + 1]):
            for m in range(y.shape[-1]):
                n = np.sqrt(np.sum(np.abs(y[..., k, m])**2))
                if n > 1e-13:
                    y[..., k, m] /= n
    else:
        for c in range(y.shape[dimN]):
            for k in range(y.shape[dimN + 1]):
                for m in range(y.shape[-1]):
                    n = np.sqrt(np.sum(np.abs(y[..., c, k, m])**2))
                    if n > 1e-13:
                        y[..., c, k, m] /= n
    return y


def amplification(x, parts, dimN, dimC, zm):
    if not zm:
        return 1.0
    r = 1.0
    n0 = np.zeros(x.shape[dimN:])
    n1 = np.zeros(x.shape[dimN:])
    ax = tuple(range(dimN))
    for s, cs, ms in parts:
        v = x[tuple(slice(0, n) for n in s) + (cs, slice(None), ms)].astype(
            np.complex128)
        n0[cs, :, ms] = np.sum(np.abs(v)**2, axis=ax)
        n1[cs, :, ms] = np.sum(np.abs(v - np.mean(v, axis=ax,
                                                  keepdims=True))**2, axis=ax)
    if dimC:
        n0, n1 = n0.sum(axis=0), n1.sum(axis=0)
    ok = n1 > 1e-26
    if np.any(ok):
        r = max(r, float(np.sqrt(np.max(n0[ok] / n1[ok]))))
    return r


def cmp(rec, what, g, want, tol, dt=None):
    if g.shape != want.shape:
        rec.violate('wrong-shape', '%s: %s instead of %s' % (
            what, g.shape, want.shape))
        return False
    if not np.max(np.abs(g - want)) <= tol:
        rec.violate('wrong-projection', '%s: error %.3e' % (
            what, np.max(np.abs(g - want))))
        return False
    if dt is not None and g.dtype != dt:
        rec.violate('wrong-type', '%s: %s' % (what, g.dtype))
        return False
    return True


def r_pcn(scn, rec, cr):
    dimN, Cd, K = scn['dimN'], scn['Cd'], scn['K']
    for dsz, parts, C, M in specs(scn['form'], dimN, Cd, scn['tier']):
        mx = tuple(max(p[0][i] for p in parts) for i in range(dimN))
        for Nv in (tuple(m + 2 for m in mx), mx):
            for kind in ('real', 'complex', 'single'):
                if kind != 'real' and (Nv == mx or len(parts) > 3):
                    continue
                x = arr(Nv + (C, K, M), kind, 'pcn')
                if M > 1:
                    x[..., M - 1] *= 0        # a zero filter
                    if kind == 'real' and M > 2:
                        x[..., 1] = 2.5       # a constant filter
                keep = x.copy()
                for dimC, crp, zm in itertools.product((0, 1), (False, True),
                                                       (False, True)):
                    if kind == 'complex' and zm and False:
                        continue
                    want = rproj(x, parts, Nv, dimN, dimC, crp, zm)
                    w = 'Pcn(x%s, %s, %s, dimN=%d, dimC=%d, crp=%s, zm=%s)' \
                        % (x.shape, dsz, Nv, dimN, dimC, crp, zm)
                    # rounding of a filter that almost vanishes when its
                    # mean is removed is amplified by the normalisation
                    tol = (1e-6 if kind == 'single' else 1e-14) * max(
                        10.0, amplification(x, parts, dimN, dimC, zm))
                    rec.trace()
                    rec.state()
                    rec.step()
                    try:
                        g = cr.Pcn(x, dsz, Nv, dimN, dimC, crp, zm)
                        h = cr.getPcn(dsz, Nv, dimN, dimC, crp, zm)
                        g2 = h(x)
                        if not cmp(rec, w, g, want, tol, x.dtype) or \
                                not cmp(rec, 'get' + w, g2, want, tol,
                                        x.dtype):
                            break
                        # a projection: applying it again changes nothing
                        if crp:
                            gi = cr.Pcn(g, dsz, Nv, dimN, dimC, crp, zm)
                        else:
                            gi = h(g)
                        if not cmp(rec, 'repeated ' + w, gi, g, tol * 10):
                            break
                        if np.shares_memory(g, x) or \
                                not np.array_equal(x, keep):
                            rec.violate('input-modified', w)
                            break
                    except Exception as ex:
                        rec.violate('exception', '%s: %s: %s' % (
                            w, type(ex).__name__, ex))
                        break
                # the individual stages
                try:
                    b = cr.bcrop(x, dsz, dimN)
                    wb = np.zeros(mx + x.shape[dimN:], x.dtype)
                    for s, cs, ms in parts:
                        sl = tuple(slice(0, n) for n in s) + (cs, slice(None),
                                                              ms)
                        wb[sl] = x[sl]
                    cmp(rec, 'bcrop %s' % (dsz,), b, wb, 0.0, x.dtype)
                    # external layout without the signal axis
                    if K == 1 and (Cd or C == 1):
                        ex = x[..., 0, :] if Cd else x[..., 0, 0, :]
                        we = wb[..., 0, :] if Cd else wb[..., 0, 0, :]
                        cmp(rec, 'bcrop external %s' % (dsz,),
                            cr.bcrop(ex, dsz, dimN), we, 0.0)
                    z = cr.zpad(b, Nv)
                    wz = np.zeros(Nv + x.shape[dimN:], x.dtype)
                    wz[tuple(slice(0, n) for n in mx)] = wb
                    cmp(rec, 'zpad', z, wz, 0.0, x.dtype)
                    zk = z.copy()
                    zm_ = cr.zeromean(z, dsz, dimN)
                    wm = wz.astype(np.result_type(x.dtype, np.float64))
                    for s, cs, ms in parts:
                        sl = tuple(slice(0, n) for n in s) + (cs, slice(None),
                                                              ms)
                        wm[sl] -= np.mean(wm[sl], axis=tuple(range(dimN)),
                                          keepdims=True)
                    cmp(rec, 'zeromean %s' % (dsz,), zm_, wm,
                        1e-5 if kind == 'single' else 1e-12, x.dtype)
                    if not np.array_equal(z, zk):
                        rec.violate('input-modified', 'zeromean')
                except Exception as e:
                    rec.violate('exception', 'stages %s: %s: %s' % (
                        dsz, type(e).__name__, e))
                if len(rec.violations) > 3:
                    return
        rec.outcome(str(dsz), want)


def r_lattice(scn, rec, cr):
    """every small one-dimensional filter over a lattice"""
    lat = [-1.0, 0.0, 1.0, 2.0]
    for n in (2, 3):
        for s in range(1, n + 1):
            V = np.array(list(itertools.product(lat, repeat=n))).T
            x = V.reshape(n, 1, 1, -1)
            M = x.shape[-1]
            for crp, zm in itertools.product((False, True), repeat=2):
                want = rproj(x, [((s,), slice(0, 1), slice(0, M))], (n,), 1,
                             1, crp, zm)
                rec.trace()
                rec.state(M)
                g = cr.Pcn(x, (s, M), (n,), 1, 1, crp, zm)
                cmp(rec, 'lattice n=%d support=%d crp=%s zm=%s' % (
                    n, s, crp, zm), g, want, 1e-12)
                rec.outcome(want)
    x = np.array(list(itertools.product(lat, repeat=4))).T
    for dimN in (1, 2):
        sh = (4,) if dimN == 1 else (2, 2)
        y = x.reshape(sh + (-1,))
        n = np.sqrt(np.sum(y**2, axis=tuple(range(dimN)), keepdims=True))
        cmp(rec, 'normalise dimN=%d' % dimN, cr.normalise(y, dimN),
            y / np.where(n > 0, n, 1), 1e-12)
        cmp(rec, 'normalise complex', cr.normalise(y * 1j, dimN),
            1j * y / np.where(n > 0, n, 1), 1e-12)


hist.attach(globals())
large.attach(globals())
