"""Histories of calls of functions that have no documented memory.

For every function a few variants (argument lists) are given that differ in
values, type, shape, axes or flags.  The result of every variant in a process
in which nothing was called before is its reference.  Then every ordered pair
(v, w) of variants of the functions of a module is executed in a process of
its own as the history

    v, w, [v's and w's results intact?], scribble over both results, v, w

and for variants of the same shapes also  v; the arrays given to v are
overwritten with the values given to w; w on the same array objects.  Every
call has to return its reference.  References are taken in, and histories are
forked from, a fresh interpreter, so that no earlier exploration has left
anything behind.
"""
import json
import os
import pickle
import subprocess
import sys
import collections
import numpy as np

CHUNKS = 8
BOUND = ('; histories: every ordered pair of call variants (values, types, '
         'shapes, axes, flags) of the functions, each in a process of its '
         'own, repeated after their results are overwritten and with the '
         'same array objects refilled')


# ---------------------------------------------------------------- arguments
def R(shape, dt='d', seed=0):
    """deterministic generic values"""
    n = int(np.prod(shape)) if shape != () else 1
    k = np.arange(n)
    v = np.sin(1.7 * k + 0.9 * seed + 0.3) + 0.5 * np.cos(
        2.9 * k * (seed + 1) + 0.1)
    dt = np.dtype(dt)
    if dt.kind == 'c':
        v = v + 1j * np.cos(1.3 * k + 0.4 * seed)
    elif dt.kind in 'iu':
        v = np.floor(np.abs(v) * 70)
    return v.astype(dt).reshape(shape)


def P(shape, dt='d', seed=0):
    return np.abs(R(shape, dt, seed)) + 0.25


def C08():
    from sporco import prox as p
    for nm in ('norm_l0', 'norm_l1', 'norm_2l2', 'norm_l2'):
        f = getattr(p, nm)
        for v in ([R((3, 4))], [R((3, 4), seed=1)], [R((3, 4)), 0],
                  [R((3, 4)), 1], [R((3, 4), 'f'), 1], [R((2, 3)), (0, 1)]):
            yield nm, f, v
    for v in ([R((3, 4))], [R((3, 4), seed=1)], [R((3, 4)), 0],
              [R((3, 4)), (0, 1)]):
        yield 'norm_l21', p.norm_l21, v
    for v in ([R((3, 4))], [R((3, 4)), 0.5], [R((3, 4)), 1.0, 0],
              [R((3, 4)), 1.0, 1]):
        yield 'norm_dl1l2', p.norm_dl1l2, v
    for nm in ('prox_l0', 'prox_l1', 'prox_l2', 'proj_l1', 'proj_l2'):
        f = getattr(p, nm)
        for v in ([R((3, 4)), 0.3], [R((3, 4), seed=1), 0.3],
                  [R((3, 4)), 0.6], [R((3, 4), 'f'), 0.3],
                  [R((4, 4)), 0.3], [R((3, 4), 'D'), 0.3]):
            if nm == 'proj_l1' and v[0].dtype.kind == 'c':
                continue
            yield nm, f, v
        if nm not in ('prox_l0', 'prox_l1'):
            yield nm, f, [R((3, 4)), 0.3, 0]
            yield nm, f, [R((3, 4)), 0.3, 1]
    for v in ([R((3, 4)), 0.3, 0.2], [R((3, 4)), 0.3, 0.4],
              [R((3, 4)), 0.3, 0.2, 0], [R((3, 4)), 0.3, 0.2, 1],
              [R((3, 4), seed=1), 0.3, 0.2]):
        yield 'prox_sl1l2', p.prox_sl1l2, v
        yield 'prox_dl1l2', p.prox_dl1l2, v
    for v in ([R((3, 4))], [R((3, 4), seed=1)], [R((4, 4))]):
        yield 'norm_nuclear', p.norm_nuclear, v
        yield 'prox_nuclear', p.prox_nuclear, v + [0.3]
    yield 'prox_nuclear', p.prox_nuclear, [R((3, 4)), 0.6]
    for v in ([R((3, 4)), 0], [R((3, 4)), 1], [R((2, 3, 2)), (0, 2)],
              [R((2, 3, 2), seed=1), (0, 2)]):
        yield 'ndto2d', p.ndto2d, v
        yield 'ndfrom2d', lambda x, a: p.ndfrom2d(*p.ndto2d(x, a)), v


def C09():
    from sporco import linalg as l
    sh = (2, 3, 1, 2, 3)
    for v in ([R((2, 3)), R((2, 3), seed=1)], [R((2, 3), seed=2),
              R((2, 3), seed=1)], [R((2, 3), 'f'), R((2, 3), 'f', 1)],
              [R((2, 3)), R((2, 3), seed=1), 0],
              [R((2, 3), 'D'), R((2, 3), 'D', 1), 1],
              [R((2, 1, 3)), R((1, 2, 3), seed=1)]):
        yield 'inner', l.inner, v
    for v in ([R((2, 3)), R((3, 2), seed=1)], [R((2, 3), seed=2),
              R((3, 2), seed=1)], [R((2, 3)), R((4, 3, 2), seed=1)],
              [R((2, 3)), R((4, 2, 3), seed=1), -1]):
        yield 'dot', l.dot, v
    for v in ([[R((2, 2)), R((2, 2), seed=1)]],
              [[R((2, 2), seed=1), R((2, 2), seed=1)]],
              [[R((1, 2)), R((1, 2), seed=1), R((1, 2), seed=2)]]):
        yield 'block_circulant', l.block_circulant, v
    for dt in 'DFd':
        for rho in (0.5, 2.0):
            for ax in (3, 4):
                a, b = R(sh, dt), R(sh, dt, 1)
                yield 'solvedbi_sm', l.solvedbi_sm, [a, rho, b, None, ax]
                if dt != 'F':
                    yield 'solvedbd_sm', l.solvedbd_sm, [
                        a, P(sh[:-1] + (1,) if ax == 4 else
                             sh[:3] + (1, 3)) * rho, b, None, ax]
                    yield 'solvemdbi_ism', l.solvemdbi_ism, [
                        a, rho, np.take(b, [0], 7 - ax), ax, 7 - ax]
            if dt != 'F':
                yield 'solvemdbi_rsm', l.solvemdbi_rsm, [
                    R(sh, dt), rho, R(sh, dt, 1)[:, :, :, :1], 3]
                yield 'solvemdbi_cg', lambda *a: l.solvemdbi_cg(*a)[0], [
                    R(sh, dt), rho, R(sh, dt, 1)[:, :, :, :1], 4, 3, 1e-13]
    yield 'solvedbi_sm', l.solvedbi_sm, [R(sh, 'D', 3), 0.5, R(sh, 'D', 1)]
    yield 'solvedbi_sm', l.solvedbi_sm, [R(sh, 'D'), 0.5, R(sh, 'D', 4)]

    def fac(fac, sol):
        def f(A, rho, b):
            return sol(A, rho, b, *fac(A, rho))
        return f

    def cfac(sol):
        def f(A, rho, b, lower):
            c, lwr = l.cho_factor(A, rho, lower)
            return sol(A, rho, b, c, lwr)
        return f
    for s, q in (((4, 3), 0), ((3, 4), 0), ((3, 3), 0), ((4, 3), 5)):
        for rho in (0.5, 2.0):
            A = R(s, 'd', q)
            b, d = R((s[1], 2), 'd', 1), R((s[0], 2), 'd', 1)
            b2, d2 = R((2, s[1]), 'd', 1), R((2, s[0]), 'd', 1)
            yield 'lu_solve_ATAI', fac(l.lu_factor, l.lu_solve_ATAI), [
                A, rho, b]
            yield 'lu_solve_AATI', fac(l.lu_factor, l.lu_solve_AATI), [
                A, rho, d2]
            for lw in (False, True):
                yield 'cho_solve_ATAI', cfac(l.cho_solve_ATAI), [
                    A, rho, b, lw]
                yield 'cho_solve_AATI', cfac(l.cho_solve_AATI), [
                    A, rho, d2, lw]

    def sy(q, n=3):
        a = R((n, n), 'd', q)
        return a.dot(a.T)
    for v in ([sy(0), sy(1), R((3, 3), 'd', 2), 0.5],
              [sy(0), sy(1), R((3, 3), 'd', 2), 1.5],
              [sy(3), sy(1), R((3, 3), 'd', 2), 0.5],
              [sy(0), sy(4), R((3, 3), 'd', 2), 0.5],
              [sy(0), P((1, 3)), R((3, 3), 'd', 2), 0.5],
              [P((3,)), sy(0), R((3, 3), 'd', 2), 0.5]):
        yield 'solve_symmetric_sylvester', l.solve_symmetric_sylvester, v
    for v in ([R((3,)), R((3,), 'd', 1)], [R((3,), 'd', 2), R((3,), 'd', 1)],
              [R((2, 2)), R((2, 2), 'd', 1)]):
        yield 'rrs', l.rrs, v

    def pca(U, centre):
        B, S, C = l.pca(U, centre)
        return np.abs(B), S, C
    for v in ([R((3, 5)), False], [R((3, 5)), True],
              [R((3, 5), seed=2), True], [R((5, 3)), True]):
        yield 'pca', pca, v

    def nkp(A, b, c):
        B, C = l.nkp(A, b, c)
        return np.kron(B, C)
    for v in ([R((4, 6)), (2, 2), (2, 3)], [R((4, 6)), (2, 3), (2, 2)],
              [R((4, 6), seed=1), (2, 2), (2, 3)]):
        yield 'nkp', nkp, v
    for v in ([R((3, 4)), R((3, 4), seed=1), 0.5],
              [R((3, 4)), R((3, 4), seed=1), 1.5],
              [R((3, 4)), R((3, 4), seed=2), 0.5],
              [R((3, 4)), R((3, 4), seed=1), 0.5, (0,)]):
        yield 'proj_l2ball', l.proj_l2ball, v


def C10():
    from sporco import fft as f
    for dt in 'dfDF':
        for nm in ('fftn', 'ifftn', 'rfftn', 'dctii', 'idctii'):
            if dt in 'DF' and nm in ('rfftn', 'dctii', 'idctii'):
                continue
            g = getattr(f, nm)
            yield nm, g, [R((4, 5), dt)]
            if nm in ('dctii', 'idctii'):
                if dt == 'd':
                    yield nm, g, [R((4, 5), dt, 1)]
                    yield nm, g, [R((4, 5), dt), (0,)]
                    yield nm, g, [R((4, 5), dt), (1,)]
                continue
            if dt in 'dD':
                yield nm, g, [R((4, 5), dt, 1)]
                yield nm, g, [R((4, 5), dt), None, (0,)]
                yield nm, g, [R((4, 5), dt), (5, 4), (0, 1)]
                yield nm, g, [R((5, 4), dt), (5, 4), (0, 1)]
                yield nm, g, [np.asfortranarray(R((4, 5), dt))]
                yield nm, g, [R((4, 5), dt), (3, 5), (1, 0)]
    for dt in 'DF':
        for s in ((4, 4), (4, 5), (5, 4)):
            for q in (0, 1):
                yield 'irfftn', f.irfftn, [
                    R((s[0], s[1] // 2 + 1), dt, q), s, (0, 1)]
    yield 'irfftn', f.irfftn, [R((3, 5), 'D'), (4,), (0,)]
    yield 'irfftn', f.irfftn, [R((3, 5), 'D'), (5,), (0,)]
    for v in ([R((3, 3)), R((6, 5), seed=1)],
              [R((3, 3), seed=2), R((6, 5), seed=1)],
              [R((3, 3)), R((6, 5), seed=3)],
              [R((3, 3)), R((6, 5), seed=1), (0,)],
              [R((3, 3)), R((6, 5), seed=1), (0, 1), (1, 1)],
              [R((3, 3)), R((6, 5), seed=1), (0, 1), (2, 0)],
              [R((3, 3), 'D'), R((6, 5), 'D', 1)],
              [R((3, 3)), R((5, 6), seed=1)]):
        if len(v) == 3 and v[2] == (0,):
            v[0] = R((3, 1))
        yield 'fftconv', f.fftconv, v
    for v in ([R((4, 5), 'D')], [R((4, 5), 'D', 1)], [R((4, 5), 'D'), (0,)],
              [R((4, 3), 'D')]):
        yield 'fl2norm2', f.fl2norm2, v
    for v in ([R((4, 3), 'D'), (4, 4)], [R((4, 3), 'D'), (4, 5)],
              [R((4, 3), 'D', 1), (4, 4)], [R((5, 3), 'D'), (5, 4)]):
        yield 'rfl2norm2', f.rfl2norm2, v

    def fresh(g):
        def h(*a):
            x = g(*a)
            x[...] = 1 + np.arange(x.size).reshape(x.shape)
            return x
        return h
    for v in (((4, 5), 'd'), ((4, 5), 'f'), ((5, 4), 'd'), ((4, 5), 'D'),
              ((4, 5), 'd', 'F')):
        yield 'empty_aligned', fresh(f.empty_aligned), list(v)
    for v in (((4, 5), (0, 1), 'd'), ((4, 4), (0, 1), 'd'),
              ((4, 5), (0,), 'd'), ((4, 5), (0, 1), 'f')):
        yield 'rfftn_empty_aligned', fresh(f.rfftn_empty_aligned), list(v)
    for dt in 'dfDF':
        yield 'complex_dtype', lambda d: np.zeros(1, f.complex_dtype(d)), [
            np.dtype(dt)]
        yield 'real_dtype', lambda d: np.zeros(1, f.real_dtype(d)), [
            np.dtype(dt)]
        yield 'byte_aligned', f.byte_aligned, [R((3, 4), dt)]


def C11():
    from sporco import array as a
    for v in ([R((3, 4)), (1, 2), 0], [R((3, 4)), (1, 2), 1],
              [R((3, 4), seed=1), (1, 2), 0], [R((3, 4), 'f'), (1, 2), 0],
              [R((3, 4)), (2, 1), 0], [R((4, 3)), (1, 2), 0]):
        yield 'zpad', a.zpad, v
    z = R((3, 4))
    z[1] = 0
    for v in ([R((3, 4)), R((3, 4), seed=1)], [R((3, 4)), z],
              [R((3, 4), seed=2), R((3, 4), seed=1)],
              [R((3, 4), 'f'), R((3, 4), 'f', 1)], [R((3, 4)), z[:1]]):
        yield 'zdivide', a.zdivide, v
    for dt in 'efdD':
        yield 'promote16', a.promote16, [R((3, 4), dt)]
        yield 'promote16fn', lambda u: a.promote16(
            u, fn=lambda x: x * 2), [R((3, 4), dt)]
    for v in ([3, R((3, 4))], [4, R((3, 4))], [1, R((3, 4))],
              [3, R((3, 4), seed=1)]):
        yield 'atleast_nd', a.atleast_nd, v
    for v in ([R((3, 4))], [R((3, 4)), 1], [R((3, 4), seed=1)],
              [R((3, 4)), -1]):
        yield 'split', a.split, v
    for v in ([R((3, 4)), (2, 2)], [R((3, 4), seed=1), (2, 2)],
              [R((3, 4)), (2, 2), (3, 4)], [R((3, 4)), (2, 3)],
              [R((3, 4)), (2, 2), (3, 4), 'reflect'], [R((4, 3)), (2, 2)],
              [np.asfortranarray(R((3, 4))), (2, 2)],
              [R((3, 4), 'f'), (2, 2)]):
        yield 'rolling_window', a.rolling_window, v
    for v in ([R((4, 6)), (2, 2)], [R((4, 6), seed=1), (2, 2)],
              [R((4, 6)), (2, 3)], [R((5, 6)), (2, 2), True],
              [R((5, 6)), (2, 2)], [np.asfortranarray(R((4, 6))), (2, 2)],
              [R((5, 6)), (2, 2), True, 'wrap'], [R((4, 6), 'f'), (2, 2)]):
        yield 'subsample_array', a.subsample_array, v
    for v in ([R((5, 6)), (2, 3)], [R((5, 6), seed=1), (2, 3)],
              [R((5, 6)), (3, 2)], [R((5, 6)), (2, 3), (1, 2)],
              [R((5, 6)), (2, 3), (2, 1)], [R((6, 5)), (2, 3)],
              [R((5, 6), 'f'), (2, 3)], [R((5, 5)), (2, 3)]):
        yield 'extract_blocks', a.extract_blocks, v
        img, bs = v[0], v[1]
        st = v[2] if len(v) > 2 else None
        b = a.extract_blocks(img, bs, st)
        yield 'average_blocks', a.average_blocks, [b * 1.5, img.shape, st]
        yield 'combine_blocks', a.combine_blocks, [b * 1.5, img.shape, st]
        yield 'combine_blocks', a.combine_blocks, [b * 1.5, img.shape, st,
                                                   np.mean]
    T = collections.namedtuple('T', ('a', 'b'))
    U = collections.namedtuple('U', ('a', 'c'))
    for t in (T(1, 2), T(3, 4), U(1, 2), U(R((2,)), 2)):
        def ntpl(x):
            y = a.array2ntpl(a.ntpl2array(x))
            return [type(y).__name__, list(y._fields)] + list(y)

        def tr(x, y):
            y = a.transpose_ntpl_list([x, y])
            return [type(y).__name__, list(y._fields)] + list(y)
        if not any(isinstance(q, np.ndarray) for q in t):
            yield 'ntpl', ntpl, [t]
        yield 'transpose_ntpl_list', tr, [t, t]


def C12():
    from sporco import cnvrep as c
    N = (6, 5)
    dszs = [(3, 3, 2), ((2, 3, 1), (3, 2, 1)), (3, 2, 2), ((3, 2, 2),),
            (((3, 3, 1, 2), (2, 2, 1, 2)),), (3, 3, 2, 2)]
    for d in dszs:
        nc = 2 if d in (dszs[4], dszs[5]) else 1
        for q in (0, 1):
            x = R(N + (nc, 1, 2), 'd', q)
            yield 'zeromean', c.zeromean, [x, d]
            yield 'bcrop', c.bcrop, [x, d]
            for crp in (False, True):
                for zm in (False, True):
                    if q and crp:
                        continue
                    yield 'Pcn', c.Pcn, [x, d, N, 2, 1, crp, zm]
                    yield 'getPcn', lambda x, *a: c.getPcn(*a)(x), [
                        x, d, N, 2, 1, crp, zm]
    yield 'getPcn', lambda x, *a: c.getPcn(*a)(x), [
        R(N + (2, 1, 2)), (3, 3, 2), N, 2, 0, False, False]
    yield 'getPcn', lambda x, *a: c.getPcn(*a)(x), [
        R(N + (2, 1, 2)), (3, 3, 2), (7, 8), 2, 1, False, False]
    for v in ([R((3, 3, 2))], [R((3, 3, 2), seed=1)], [R((3, 3, 2)), 1],
              [R((3, 3, 2), 'f')], [np.zeros((3, 3, 2))],
              [R((3, 3, 2), 'D')]):
        yield 'normalise', c.normalise, v
    for v in ([R((3, 3, 2)), (6, 5)], [R((3, 3, 2)), (5, 6)],
              [R((3, 3, 2), seed=1), (6, 5)], [R((3, 3, 2)), (6,)]):
        yield 'zpad', c.zpad, v
    for v in ([R((3, 3, 2)), 1, 2], [R((3, 3, 2)), 2, 1],
              [R((3, 3, 2, 2)), 2, 2]):
        yield 'stdformD', c.stdformD, v

    def cri(D, S, dk, dn, *w):
        r = c.CSC_ConvRepIndexing(D, S, dk, dn)
        out = sorted((k, v) for k, v in r.__dict__.items()
                     if isinstance(v, (int, float, str, tuple, list)))
        if w:
            out.append(c.l1Wshape(w[0], r))
        return out

    def crm(D, S, dk, dn, *w):
        r = c.CDU_ConvRepIndexing(D, S, dk, dn)
        out = sorted((k, v) for k, v in r.__dict__.items()
                     if isinstance(v, (int, float, str, tuple, list)))
        if w:
            out.append(c.mskWshape(w[0], r))
        return out
    D, Dc = R((3, 3, 4)), R((3, 3, 2, 4))
    for v in ([D, R((6, 5)), None, 2], [D, R((6, 5, 2)), None, 2],
              [D, R((6, 5, 2)), 1, 2], [D, R((6, 5, 2)), 0, 2],
              [Dc, R((6, 5, 2)), None, 2], [Dc, R((6, 5, 2, 3)), None, 2],
              [R((3, 4)), R((6, 5)), 1, 1],
              [D, R((6, 5, 2)), 1, 2, P((6, 5, 2))],
              [D, R((6, 5, 2)), 0, 2, P((6, 5, 2))],
              [D, R((6, 5, 2)), 0, 2, P((1, 1, 2, 4))],
              [D, R((6, 5, 2)), 1, 2, P((1, 1, 2, 4))]):
        yield 'CSC_ConvRepIndexing', cri, v
    for d, v in (((3, 3, 4), [R((6, 5)), None, 2]),
                 ((3, 3, 4), [R((6, 5, 2)), 1, 2]),
                 ((3, 3, 4), [R((6, 5, 2)), 0, 2]),
                 ((3, 3, 2, 4), [R((6, 5, 2)), 0, 2]),
                 ((3, 3, 2, 4), [R((6, 5, 2, 3)), 1, 2]),
                 ((3, 3, 4), [R((6, 5, 2)), 1, 2, P((6, 5, 2))]),
                 ((3, 3, 4), [R((6, 5, 2)), 0, 2, P((6, 5, 2))])):
        yield 'CDU_ConvRepIndexing', crm, [d] + v
    for d in dszs:
        yield 'DictionarySize', lambda d: sorted(
            (k, v) for k, v in c.DictionarySize(d).__dict__.items()), [d]


def C23():
    from sporco import signal as s
    from sporco import interp as t
    for nm in ('grad', 'gradT'):
        g = getattr(s, nm)
        for v in ([R((4, 5)), 0], [R((4, 5), seed=1), 0], [R((4, 5)), 1],
                  [R((4, 5)), 0, True], [R((4, 5), 'f'), 0],
                  [R((5, 4)), 0], [R((4, 5)), -1]):
            yield nm, g, v
    for v in ([2, (0, 1), (4, 5)], [2, (0, 1), (5, 4)], [2, (0,), (4,)],
              [2, (1,), (4,)], [2, (0, 1), (4, 5), np.dtype('d')],
              [2, (0, 1), (4, 5), np.dtype('D')], [3, (0, 1), (4, 5)],
              [3, (0, 2), (4, 5)]):
        yield 'gradient_filters', s.gradient_filters, v
    for v in ([R((4, 5)), 2.0, 3], [R((4, 5), seed=1), 2.0, 3],
              [R((4, 5)), 4.0, 3], [R((4, 5)), 2.0, 2], [R((5, 4)), 2.0, 3],
              [R((4, 5), 'f'), 2.0, 3], [R((4, 5), 'D'), 2.0, 3],
              [R((4, 5, 2)), 2.0, 3]):
        yield 'tikhonov_filter', s.tikhonov_filter, v
    for v in ([5], [(5,)], [(5, 4)], [(4, 5)], [(5, 4), 2.0], [(6, 4)]):
        yield 'gaussian', s.gaussian, v
    for v in ([P((6, 7)), 3], [P((6, 7), seed=1), 3], [P((6, 7)), 2],
              [P((6, 7)), 3, 0.2], [P((6, 7)), 3, 0.4],
              [P((6, 7, 2)), 3, 0.2], [P((6, 7), 'f'), 3]):
        yield 'local_contrast_normalise', s.local_contrast_normalise, v

    def seeded(f):
        def h(*a):
            np.random.seed(5)
            return f(*a)
        return h
    for v in ([R((6, 7)), 0.3], [R((6, 7), seed=1), 0.3], [R((6, 7)), 0.6],
              [R((6, 7)), 0.3, -1.0, 2.0], [R((7, 6)), 0.3]):
        yield 'spnoise', seeded(s.spnoise), v
    for v in ([(6, 7), 0.3], [(6, 7), 0.6], [(7, 6), 0.3],
              [(6, 7), 0.3, 'f']):
        yield 'rndmask', seeded(s.rndmask), v
    for v in ([4, 5], [5, 4], [4]):
        yield 'complex_randn', seeded(s.complex_randn), v
    for v in ([R((4, 5, 3))], [R((4, 5, 3), seed=1)], [R((4, 5, 3), 'B')],
              [R((4, 5, 3, 2))], [R((5, 4, 3), 'f')]):
        yield 'rgb2gray', s.rgb2gray, v
    for v in ([R((4, 6))], [R((4, 6), seed=1)], [R((6, 4))],
              [R((6, 6))], [R((4, 6), 'f')]):
        yield 'bilinear_demosaic', t.bilinear_demosaic, v
    for v in ([R((5, 2)), R((5,), seed=1)], [R((5, 2)), R((5,), seed=2)],
              [R((5, 2), seed=3), R((5,), seed=1)],
              [R((4, 3)), R((4,), seed=1)]):
        yield 'lstabsdev', t.lstabsdev, v
        yield 'lstmaxdev', t.lstmaxdev, v
    for v in ([R((7,)) * 2], [R((7,)) * 2, 2], [R((7,), seed=1) * 2],
              [R((5,)) * 2]):
        yield 'lanczos_kernel', t.lanczos_kernel, v
    for v in ([3], [4], [3, False], [4, False]):
        yield 'interpolation_points', t.interpolation_points, v
    for v in ([(3, 3)], [(3, 4)], [(4, 3)], [(3, 3), 2], [(3,)],
              [(3, 3), 3, False]):
        yield 'lanczos_filters', t.lanczos_filters, v


def C24():
    from sporco import metric as m
    sh = (8, 9)
    prs = ([P(sh), P(sh, 'd', 1)], [P(sh, 'd', 2), P(sh, 'd', 1)],
           [P(sh), P(sh, 'd', 3)], [P(sh, 'f'), P(sh, 'f', 1)],
           [R(sh, 'B'), R(sh, 'B', 1)], [R(sh, 'h'), R(sh, 'h', 1)],
           [P((9, 8)), P((9, 8), 'd', 1)])
    for nm in ('mae', 'mse', 'snr', 'psnr', 'bsnr', 'pamse', 'gmsd'):
        for v in prs:
            yield nm, getattr(m, nm), v
    for nm in ('pamse', 'gmsd'):
        for v in (prs[0], prs[4]):
            yield nm, getattr(m, nm), v + [False]
    yield 'gmsd', m.gmsd, prs[0] + [True, True]
    yield 'gmsd', m.gmsd, prs[1] + [False, True]
    for r in (1.0, 255, np.float32(2)):
        yield 'psnr', m.psnr, prs[0] + [r]
    for v in prs:
        yield 'isnr', m.isnr, v + [v[1][::-1].copy()]


def C28():
    from sporco.util import tiledict
    from sporco import util as u
    for v in ([R((3, 3, 4))], [R((3, 3, 4), seed=1)], [R((3, 3, 5))],
              [R((2, 3, 4))], [R((3, 3, 3, 4))],
              [R((3, 3, 4)), ((2, 3, 2), (3, 2, 2))],
              [R((3, 3, 4)), ((3, 3, 2), (2, 2, 2))],
              [R((3, 3, 3, 4)), ((2, 3, 3, 2), (3, 2, 3, 2))],
              [R((3, 3, 4), 'f')]):
        yield 'tiledict', tiledict, v
    for k in sorted(u.convdicts())[:3]:
        yield 'convdicts', lambda k: u.convdicts()[k], [k]


SPEC = {f.__name__: f for f in (C08, C09, C10, C11, C12, C23, C24, C28)}


# ------------------------------------------------------------------ running
def leaves(v, out):
    if isinstance(v, (list, tuple)):
        for x in v:
            leaves(x, out)
    else:
        out.append(v)
    return out


def copyargs(args):
    if isinstance(args, np.ndarray):
        return args.copy(order='K')
    if isinstance(args, list):
        return [copyargs(a) for a in args]
    if isinstance(args, tuple):
        v = [copyargs(a) for a in args]
        return type(args)(*v) if hasattr(args, '_fields') else tuple(v)
    return args


def differs(a, b):
    la, lb = leaves(a, []), leaves(b, [])
    if len(la) != len(lb):
        return '%d values instead of %d' % (len(la), len(lb))
    for x, y in zip(la, lb):
        if isinstance(y, np.ndarray) or isinstance(y, np.generic):
            if type(x) is not type(y) and not isinstance(
                    x, (np.ndarray, np.generic)):
                return 'type %s instead of %s' % (type(x), type(y))
            if x.shape != y.shape:
                return 'shape %s instead of %s' % (x.shape, y.shape)
            if x.dtype != y.dtype:
                return 'type %s instead of %s' % (x.dtype, y.dtype)
            if y.dtype.kind in 'fc':
                eps = np.finfo(y.dtype).eps
                f = np.isfinite(y)
                if not np.array_equal(f, np.isfinite(x)):
                    return 'non-finite values'
                s = np.max(np.abs(y[f])) if y[f].size else 0
                d = np.max(np.abs(x[f].astype('D') - y[f])) if \
                    y[f].size else 0
                if d > 1e4 * eps * max(s, 1e-3):
                    return 'max difference %.3g (scale %.3g)' % (d, s)
            elif not np.array_equal(x, y):
                return 'values %s instead of %s' % (x, y)
        elif isinstance(y, float):
            if not isinstance(x, float) or not (
                    x == y or x != x and y != y or
                    abs(x - y) <= 1e-9 * max(abs(y), 1e-3)):
                return '%r instead of %r' % (x, y)
        elif x != y:
            return '%r instead of %r' % (x, y)
    return None


def forked(fn):
    """result of fn() in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                d = ('ok', fn())
            except BaseException as e:
                d = ('error', '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(d, f, 4)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        s = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(s) if s else ('error', 'process died')


def scribble(v):
    for x in leaves(v, []):
        if isinstance(x, np.ndarray) and x.flags.writeable and x.size:
            try:
                x[...] = 77
            except (ValueError, TypeError):
                pass


def shapes(args):
    """structure, shapes and types of an argument list"""
    if isinstance(args, (list, tuple)):
        return (type(args), [shapes(a) for a in args])
    if isinstance(args, np.ndarray):
        return (args.shape, args.dtype, args.strides)
    return (type(args), args if isinstance(args, (bool, type(None))) else 0)


def main(prop, chunk, nchunk):
    os.environ.setdefault('MC_REPO', '/repo')
    from mc import env
    env.setup()
    V = list(SPEC[prop]())
    out = {'viol': [], 'states': 0, 'transitions': 0, 'traces': 0,
           'variants': len(V), 'outcomes': []}

    def name(i):
        return '%s#%d' % (V[i][0], i)

    def call(i, args=None):
        return V[i][1](*(copyargs(V[i][2]) if args is None else args))
    base = []
    bad = set()
    for i in range(len(V)):
        st, r = forked(lambda: call(i))
        base.append(r)
        if st != 'ok':
            bad.add(i)
            out['viol'].append(('history-exception', '%s: %s' % (name(i),
                                                                 r)))

    def seq(i, j):
        msgs = []
        n = 0
        ri = call(i)
        ci = pickle.loads(pickle.dumps(ri))
        rj = call(j)
        cj = pickle.loads(pickle.dumps(rj))
        for k, c in ((i, ci), (j, cj)):
            m = differs(c, base[k])
            n += 1
            if m:
                msgs.append(('history', '%s after %s: %s' % (
                    name(k), 'nothing' if k == i and c is ci else name(i),
                    m)))
        m = differs(ri, ci)
        if m:
            msgs.append(('result-changed', 'the result of %s is altered by '
                         'the call %s: %s' % (name(i), name(j), m)))
        scribble(ri)
        scribble(rj)
        for k in (i, j):
            n += 1
            m = differs(call(k), base[k])
            if m:
                msgs.append(('history', '%s after %s, %s and use of their '
                             'results: %s' % (name(k), name(i), name(j),
                                              m)))
        if i != j and V[i][0] == V[j][0] and \
                any(isinstance(x, np.ndarray)
                    for x in leaves(V[i][2], [])) and \
                shapes(V[i][2]) == shapes(V[j][2]):
            args = copyargs(V[i][2])
            call(i, args)
            la, lb = leaves(args, []), leaves(copyargs(V[j][2]), [])
            k = 0

            def put(v):
                nonlocal k
                if isinstance(v, list):
                    return [put(x) for x in v]
                if isinstance(v, tuple):
                    y = [put(x) for x in v]
                    return type(v)(*y) if hasattr(v, '_fields') else \
                        tuple(y)
                y = lb[k]
                k += 1
                if isinstance(v, np.ndarray):
                    v[...] = y
                    return v
                return y
            args = put(args)
            n += 2
            m = differs(call(j, args), base[j])
            if m:
                msgs.append(('history', '%s on the arrays given to %s, '
                             'refilled: %s' % (name(j), name(i), m)))
        return n, msgs
    for i in range(chunk, len(V), nchunk):
        if i in bad:
            continue

        def row(i=i):
            res = []
            for j in range(len(V)):
                if j not in bad:
                    res.append(forked(lambda: seq(i, j)))
            return res
        st, res = forked(row)
        if st != 'ok':
            out['viol'].append(('history-exception', '%s: %s' % (name(i),
                                                                 res)))
            continue
        for st, r in res:
            out['traces'] += 1
            if st != 'ok':
                out['viol'].append(('history-exception', '%s first: %s' % (
                    name(i), r)))
                continue
            out['states'] += r[0]
            out['transitions'] += r[0]
            out['viol'] += r[1]
        out['outcomes'].append(repr(base[i])[:300])
    out['nviol'] = len(out['viol'])
    out['viol'] = out['viol'][:20]
    print('HIST ' + json.dumps(out))


def scenarios(prop, tier):
    return [{'key': 'history/%d' % c, 'hist': prop, 'chunk': c}
            for c in range(CHUNKS)]


def run(scn, rec):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get('MC_REPO', '/repo')
    code = ('import sys; sys.path[:0] = [%r, %r]; from mc import hist; '
            'hist.main(%r, %d, %d)' % (repo, here, scn['hist'],
                                       scn['chunk'], CHUNKS))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    for ln in p.stdout.decode().splitlines():
        if ln.startswith('HIST '):
            o = json.loads(ln[5:])
            break
    else:
        raise RuntimeError('history process failed: ' +
                           p.stderr.decode()[-800:])
    rec.state(o['states'])
    rec.step(o['transitions'])
    rec.trace(o['traces'])
    for x in o['outcomes']:
        rec.outcome(x)
    for k, m in o['viol']:
        rec.violate(k, m)


def attach(ns):
    """add the histories to the check whose module dictionary is ns"""
    prop, scn0, run0 = ns['PROPERTY'], ns['scenarios'], ns['run']
    for t in ns['BOUNDS']:
        ns['BOUNDS'][t] += BOUND

    def scenarios_(tier):
        return list(scn0(tier)) + scenarios(prop, tier)

    def run_(scn, rec):
        return run(scn, rec) if 'hist' in scn else run0(scn, rec)
    ns['scenarios'], ns['run'] = scenarios_, run_
