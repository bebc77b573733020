BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug('inhib-overlapping-groups', 'C13',
    [('sporco/admm/cbpdnin.py',
      'self.Wg) - np.sum(self.Wg, axis=0) * WhXal',
      'self.Wg) - np.amax(self.Wg, axis=0) * WhXal')],
    'lateral inhibition with a filter that belongs to more than one group',
    'the filter inhibits itself once per additional group',
    '''
import numpy as np
from sporco.admm import cbpdnin
rng = np.random.RandomState(1)
D = rng.randn(3, 3, 3)
S = rng.randn(8, 7)
for Wg in (np.array([[1., 1., 0.], [0., 0., 1.]]),
           np.array([[1., 1., 0.], [0., 1., 1.]])):
    opt = cbpdnin.ConvBPDNInhib.Options({'MaxMainIter': 3, 'Verbose': False,
        'SmoothWeight': 0.0, 'AutoRho': {'Enabled': False}})
    b = cbpdnin.ConvBPDNInhib(D, S, Wg, 3, None, 0.1, 0.2, 0.0, opt)
    b.solve()
    c = cbpdnin.ConvBPDNInhib(D, S, np.ones((1, 3)), 3, None, 0.1, 0.2, 0.0,
                              opt)
    h = np.fft.irfftn(c.Whfl, (8, 7), (0, 1))
    A = np.abs(b.X)
    P = np.fft.irfftn(np.fft.rfftn(A, axes=(0, 1)) *
                      np.fft.rfftn(h, axes=(0, 1)), (8, 7), (0, 1))
    n = Wg.T.dot(Wg)
    n[np.diag_indices(3)] = 0
    W = P.dot(n)
    assert np.allclose(W, b.wml), np.abs(W - b.wml).max()
''')

bug('inhib-group-precision', 'C27',
    [('sporco/admm/cbpdnin.py',
      'self.Wg = self.Wg.astype(self.dtype)',
      'self.Wg = np.asarray(self.Wg)')],
    'single precision data with a double precision group matrix',
    'the auxiliary variable is promoted to double precision',
    '''
import numpy as np
from sporco.admm import cbpdnin
rng = np.random.RandomState(1)
D = rng.randn(3, 3, 2).astype(np.float32)
S = rng.randn(8, 7).astype(np.float32)
opt = cbpdnin.ConvBPDNInhib.Options({'MaxMainIter': 4})
for Wg in (np.ones((1, 2), np.float32), np.ones((1, 2))):
    b = cbpdnin.ConvBPDNInhib(D, S, Wg, 3, None, 0.1, 0.2, 0.0, opt)
    b.solve()
    assert b.Y.dtype == np.float32, b.Y.dtype
    assert b.U.dtype == np.float32, b.U.dtype
''')

bug('pdcsc-standard-dict-replacement', 'C02',
    [('sporco/admm/pdcsc.py', '''                             axis=self.cri.axisC)

        # Fold square root of Gamma into the dictionary array to enable
        # use of the solvedbi_sm solver
        shpg = [1] * len(self.cri.shpD)
        shpg[self.cri.axisC] = self.Gamma.shape[0]
        Gamma2 = np.sqrt(self.Gamma).reshape(shpg)
        self.gDf = Gamma2 * self.Df
''', '''                             axis=self.cri.axisC)

        # Fold square root of Gamma into the dictionary array to enable
        # use of the solvedbi_sm solver
        if D is not None or not hasattr(self, 'gDf'):
            shpg = [1] * len(self.cri.shpD)
            shpg[self.cri.axisC] = self.Gamma.shape[0]
            Gamma2 = np.sqrt(self.Gamma).reshape(shpg)
            self.gDf = Gamma2 * self.Df
''')],
    'setdict of a product dictionary solver given only the standard dictionary',
    'the linear solver still uses the eigenvalues of the old one',
    '''
import numpy as np
from sporco.admm import pdcsc
rng = np.random.RandomState(1)
D = rng.randn(3, 3, 2)
B = rng.randn(3, 2)
B2 = rng.randn(3, 2)
S = rng.randn(6, 5, 3)
c = pdcsc.ConvProdDictBPDN
opt = c.Options({'MaxMainIter': 3, 'AutoRho': {'Enabled': False}})
a = c(D, B, S, 0.1, opt, dimK=0)
a.setdict(B=B2)
b = c(D, B2, S, 0.1, opt, dimK=0)
b.rho = a.rho
assert np.allclose(a.solve(), b.solve())
''')

bug('online-constructor-dimk', 'C26',
    [('sporco/dictlrn/onlinecdl.py', '''    def solve(self, S, W=None, dimK=None):
        """Compute sparse coding and dictionary update for training
        data `S`."""

        # Use dimK specified in __init__ as default
        if dimK is None and self.dimK is not None:
''', '''    def solve(self, S, W=None, dimK=None):
        """Compute sparse coding and dictionary update for training
        data `S`."""

        # Use dimK specified in __init__ as default
        if self.dimK is not None:
''')],
    'online learning with a mask and a dimK parameter in both the '
    'constructor and the call',
    'the training data is interpreted with the wrong axis roles',
    '''
import numpy as np
from sporco.dictlrn import onlinecdl
rng = np.random.RandomState(1)
D = rng.randn(3, 3, 2)
S = rng.randn(7, 6, 4)
def run(k0, k1):
    c = onlinecdl.OnlineConvBPDNMaskDictLearn
    opt = c.Options({'CBPDN': {'MaxMainIter': 3}})
    b = c(D, 0.1, opt, dimK=k0)
    b.solve(S, np.ones((7, 6, 1)), dimK=k1)
    return b.cri.C, b.cri.K
assert run(None, 0) == (4, 1)
assert run(None, 1) == (1, 4)
assert run(1, None) == (1, 4)
assert run(1, 0) == (4, 1)
assert run(0, 1) == (1, 4)
''')

bug('lcn-common-bound', 'C23',
    [('sporco/signal.py',
      'c = np.mean(snrm, axis=(0, 1), keepdims=True)',
      'c = np.mean(snrm)')],
    'local contrast normalisation of several images or channels at once',
    'every image is bounded by the mean norm of all of them',
    '''
import numpy as np
from sporco import signal
rng = np.random.RandomState(1)
S = rng.rand(20, 18, 3) * np.array([1.0, 10.0, 0.1])
a, m, n = signal.local_contrast_normalise(S, 3)
for k in range(3):
    b = signal.local_contrast_normalise(S[..., k], 3)
    for u, v in zip((a, m, n), b):
        assert np.allclose(u[..., k], v)
''')

bug('nesterov-asymptotic', 'C14',
    [('sporco/pgm/momentum.py',
      'return 0.5 * float(1. + np.sqrt(1. + 4. * t**2))',
      'return 0.5 * float(1. + np.sqrt(1. + 4. * t**2)) if t < 50. '
      'else t + 0.5')],
    'about one hundred iterations of accelerated proximal gradient',
    'the momentum coefficient departs from the Nesterov sequence',
    '''
import numpy as np
from sporco.pgm import bpdn
rng = np.random.RandomState(1)
D = rng.randn(8, 12)
D /= np.linalg.norm(D, axis=0)
s = rng.randn(8, 1)
b = bpdn.BPDN(D, s, 0.1, bpdn.BPDN.Options({'MaxMainIter': 140, 'L': 50.0,
                                            'RelStopTol': 0.0}))
b.solve()
t = 1.0
for k in range(140):
    t = 0.5 * (1 + np.sqrt(1 + 4 * t**2))
assert abs(b.t - t) < 1e-9 * t, (b.t, t)
''')

bug('parcbpdn-group-cache', 'C03',
    [('sporco/admm/parcbpdn.py', '''        mp_grp = [np.min(i) for i in
                  np.array_split(np.array(range(self.cri.M)),
                                 mp_ngrp)] + [self.cri.M, ]
''', '''        mp_grp = [i * self.cri.M // mp_ngrp for i in range(mp_ngrp)] + \\
                 [self.cri.M, ]
''')],
    'the high memory solver with a number of filters that is not a multiple '
    'of the number of groups',
    'the cached factors belong to other groups of filters',
    '''
import numpy as np
from sporco.admm import parcbpdn
rng = np.random.RandomState(1)
S = rng.randn(7, 6)
for M, G in ((4, 2), (5, 2), (7, 3)):
    D = rng.randn(3, 3, M)
    X = []
    for hm in (False, True):
        c = parcbpdn.ParConvBPDN
        b = c(D, S, 0.1, opt=c.Options({'MaxMainIter': 4,
              'HighMemSolve': hm}), nproc=0, ngrp=G)
        X.append(b.solve().copy())
    assert np.allclose(X[0], X[1]), (M, G)
''')

bug('consensus-dl-chunks', 'C04',
    [('sporco/dictlrn/prlcnscdl.py', '''            self.pool.map(step_group, range(self.xstep.cri.K))

        ccmod_ystep()
        ccmod_ustep()
        cbpdn_setdict()



    def solve(self):
        """Start (or re-start) optimisation. This method implements the
        framework for the alternation between `X` and `D` updates in a
        dictionary learning algorithm.

        If option ``Verbose`` is ``True``, the progress of the
        optimisation is displayed at every iteration. At termination
        of this method, attribute :attr:`itstat` is a list of tuples
        representing statistics of each iteration.
''', '''            n = max(self.xstep.cri.K // self.nproc, 1)
            self.pool.map(step_group, range(min(n * self.nproc,
                                                self.xstep.cri.K)))

        ccmod_ystep()
        ccmod_ustep()
        cbpdn_setdict()



    def solve(self):
        """Start (or re-start) optimisation. This method implements the
        framework for the alternation between `X` and `D` updates in a
        dictionary learning algorithm.

        If option ``Verbose`` is ``True``, the progress of the
        optimisation is displayed at every iteration. At termination
        of this method, attribute :attr:`itstat` is a list of tuples
        representing statistics of each iteration.
''')],
    'more training signals than processes, not a multiple of them',
    'the last training signals are never coded',
    '''
import numpy as np
from sporco.dictlrn import prlcnscdl
rng = np.random.RandomState(1)
D = rng.randn(3, 3, 2)
S = rng.randn(7, 6, 5)
out = []
for n in (0, 1, 5, 2, 3):
    c = prlcnscdl.ConvBPDNDictLearn_Consensus
    b = c(D, S, 0.1, c.Options({'MaxMainIter': 3}), nproc=n, dimK=1)
    out.append(b.solve().copy())
for o in out[1:]:
    assert np.allclose(o, out[0])
''')

bug('autorho-call-period', 'C17',
    [('sporco/admm/admm.py',
      "if k != 0 and np.mod(k + 1, self.opt['AutoRho', 'Period']) == 0:",
      "if k != 0 and np.mod(len(self.itstat) or k + 1,\n"
      "                                 self.opt['AutoRho', 'Period']) == 0:")],
    'FastSolve switched on after some iterations with statistics',
    'the penalty update period is counted from the recorded statistics, '
    'which stop growing',
    '''
import numpy as np
from sporco.admm import bpdn
rng = np.random.RandomState(1)
D = rng.randn(6, 9)
s = rng.randn(6, 1)
def run(n, fast):
    c = bpdn.BPDN
    b = c(D, s, 0.1, c.Options({'MaxMainIter': n, 'rho': 5.0,
          'RelStopTol': 0.0, 'AutoRho': {'Enabled': True, 'Period': 5}}))
    b.solve()
    b.opt['FastSolve'] = fast
    b.opt['MaxMainIter'] = 20
    b.solve()
    return b.X
for n in (3, 5, 7):
    assert np.allclose(run(n, False), run(n, True))
''')

bug('gridsearch-nan-value', 'C05',
    [('sporco/util.py', '        slct = np.nanargmax', '        slct = np.argmax')],
    'maximisation of a function that is not a number at some grid point',
    'the grid point with the undefined value is returned as the optimum',
    '''
import numpy as np
from sporco import util
g = (np.array([0.0, 1.0, 2.0]), np.array([1.0, 2.0]))
def fn(p):
    return np.nan if p[0] == 1.0 else p[0] + p[1]
for fmin, w in ((True, 1.0), (False, 4.0)):
    sprm, sfvl, fvmx, sidx = util.grid_search(fn, g, fmin, 2)
    assert sfvl == w, sfvl
''')

bug('tiledict-size-order', 'C28',
    [('sporco/util.py', '    mxsz = np.amax(sz, 1)\n',
      '    mxsz = sz[:, -1]\n')],
    'tiling a dictionary of several sizes whose largest filters are not last',
    'the tiles overlap or are truncated',
    '''
import numpy as np
from sporco import util
rng = np.random.RandomState(1)
for sz in (((2, 2, 2), (4, 3, 2)), ((4, 3, 2), (2, 2, 2)),
           ((2, 4, 2), (4, 2, 2))):
    D = np.zeros((4, 4, 4))
    k = 0
    for s in sz:
        for i in range(s[2]):
            D[0:s[0], 0:s[1], k] = rng.rand(s[0], s[1])
            k += 1
    im = util.tiledict(D, sz)
    m = max(s[0] for s in sz), max(s[1] for s in sz)
    assert im.shape == (2 * m[0] + 1, 2 * m[1] + 1), im.shape
''')

bug('cupy-fftconv-longer', 'C25',
    [('sporco/cupy/__init__.py', '    af = fft(a, dims, axes)\n',
      '    af = fft(a, None if a.ndim > 1 else dims, axes)\n')],
    'convolution in sporco.cupy with a first argument smaller than the second',
    'arrays with two or more axes are not padded to the common size',
    '''
import numpy as np
from sporco import fft
import sporco.cupy as sc
rng = np.random.RandomState(1)
for sa, sb in (((7, 6), (3, 3)), ((7, 6), (7, 6)), ((3, 3), (7, 6))):
    a, b = rng.randn(*sa), rng.randn(*sb)
    assert np.allclose(sc.fft.fftconv(a, b), fft.fftconv(a, b))
''')

bug('sylvester-shared-rhs', 'C09',
    [('sporco/linalg.py', '    QATCQB = C.copy()\n',
      '    QATCQB = C if QA is None else C.copy()\n')],
    'symmetric Sylvester equation with a diagonal A and a symmetric B',
    'the right-hand side of the caller is overwritten',
    '''
import numpy as np
from sporco import linalg as sl
rng = np.random.RandomState(1)
a = rng.rand(4)
B = rng.randn(3, 3)
B = B + B.T
A = np.diag(a)
for u, v in ((A, B), (a, np.array([1.0, 2.0, 3.0])), (a, B)):
    C = rng.randn(4, 3)
    C0 = C.copy()
    X = sl.solve_symmetric_sylvester(u, v, C, 20.0)
    assert np.array_equal(C, C0)
''')

bug('pca-single-observation', 'C09',
    [('sporco/linalg.py', '    return B, S**2, C\n',
      '    return B, S**2 / max(1, U.shape[1] - 1), C\n')],
    'pca of data with more than two observations',
    'the eigenvalues are scaled',
    '''
import numpy as np
from sporco import linalg as sl
rng = np.random.RandomState(1)
for n in (1, 2, 5):
    U = rng.randn(4, n)
    B, S, C = sl.pca(U)
    assert np.allclose((B * S).dot(B.T), U.dot(U.T))
''')

bug('rolling-step-remainder', 'C11',
    [('sporco/array.py', 'PLACEHOLDER', 'PLACEHOLDER')], '', '', '')
BUGS.pop()

bug('multidict-sizes', 'C13',
    [('sporco/admm/cbpdn.py',
      '            dsz = np.maximum(dsz, np.asarray(D[b].shape[0:dimN]))\n',
      '            dsz = max(tuple(dsz), D[b].shape[0:dimN])\n'
      '            dsz = np.asarray(dsz)\n')],
    'two dictionaries neither of which is at least as large on every axis',
    'the combined dictionary is too small on one axis',
    '''
import numpy as np
from sporco.admm import cbpdn
rng = np.random.RandomState(1)
S = (rng.randn(8, 7), rng.randn(8, 7))
for a, b in (((2, 2), (3, 3)), ((3, 3), (2, 2)), ((2, 3), (3, 2))):
    D = (rng.randn(*(a + (2,))), rng.randn(*(b + (2,))))
    m = cbpdn.MultiDictConvBPDN(cbpdn.ConvBPDN, D, S, 0.1,
        cbpdn.ConvBPDN.Options({'MaxMainIter': 2}), dimK=0)
    m.solve()
    for k in range(2):
        assert m.reconstruct(k).shape[0:2] == (8, 7)
''')
