BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug('projl1-zero-radius', 'C08',
    [('sporco/prox/_l1proj.py', 'K = np.sum(vs >= t, axis=axis, keepdims=True)',
      'K = np.sum(vs > t, axis=axis, keepdims=True)')],
    'proj_l1 along an axis with gamma = 0',
    'the projection onto the l1 ball of radius zero is NaN instead of zero',
    '''
import numpy as np
from sporco import prox
v = np.array([[1.0, -3.0, 2.0], [0.5, 0.0, 0.25]])
for g in (2.0, 0.5, 0.0):
    x = prox.proj_l1(v, g, axis=1)
    assert np.all(np.isfinite(x)), x
    assert np.all(np.sum(np.abs(x), axis=1) <= g + 1e-12)
''')

bug('dl1l2-tie-at-threshold', 'C08',
    [('sporco/prox/_dl1l2.py', 'vamx <= alpha) * u2', 'vamx < alpha) * u2')],
    'prox_dl1l2 along an axis with the largest magnitude equal to alpha',
    'the minimiser is replaced by zero, which has a larger objective value',
    '''
import numpy as np
from sporco import prox
v = np.array([[0.25, 1.0, -0.5], [2.0, 0.0, 0.1]])
x = prox.prox_dl1l2(v, 1.0, 0.5, axis=1)
for k in range(2):
    y = prox.prox_dl1l2(v[k], 1.0, 0.5)
    assert np.allclose(x[k], y), (x[k], y)
''')

bug('ism-two-term-recursion', 'C09',
    [('sporco/linalg.py', 'for l in range(0, k + 1):',
      'for l in range(max(0, k - 2), k + 1):')],
    'iterated Sherman-Morrison with at least five rank one terms',
    'the solution of the linear system is wrong for five or more terms',
    '''
import numpy as np
from sporco import linalg as sl
rng = np.random.RandomState(3)
for K in range(1, 8):
    a = rng.randn(2, 3, 1, K, 9) + 1j * rng.randn(2, 3, 1, K, 9)
    X = rng.randn(2, 3, 1, 1, 9) + 1j * rng.randn(2, 3, 1, 1, 9)
    b = np.sum(np.conj(a) * np.sum(a * X, axis=4, keepdims=True), axis=3,
               keepdims=True) + 0.3 * X
    Y = sl.solvemdbi_ism(a, 0.3, b, 4, 3)
    assert np.linalg.norm(Y - X) < 1e-8 * np.linalg.norm(X), K
''')

bug('fftconv-mixed-types', 'C10',
    [('sporco/fft.py', 'if np.isrealobj(a) and np.isrealobj(b):',
      'if np.isrealobj(b):')],
    'circular convolution of a complex and a real array',
    'the imaginary part of the complex argument is lost or rejected',
    '''
import numpy as np
from sporco.fft import fftconv
rng = np.random.RandomState(0)
a = rng.randn(5) + 1j * rng.randn(5)
b = rng.randn(5)
def cc(x, y):
    n = len(x)
    return np.array([sum(x[k] * y[(i - k) % n] for k in range(n))
                     for i in range(n)])
for x, y in ((a, b), (b, a), (b, b), (a, a)):
    r = fftconv(x, y)
    assert np.allclose(r, cc(x, y))
''')

bug('subsample-pad-all-axes', 'C11',
    [('sporco/array.py', 'sbsz += np.clip(dvmd, 0, 1)',
      'sbsz += np.max(np.clip(dvmd, 0, 1))')],
    'subsample_array with padding where only some axes are not multiples of '
    'the step',
    'an additional, padded sample appears on the axes that need no padding',
    '''
import numpy as np
from sporco.array import subsample_array
x = np.arange(8 * 9.0).reshape(8, 9)
y = subsample_array(x, (4, 3), pad=True)
assert y.shape == (4, 3, 2, 3), y.shape
y = subsample_array(x, (4, 4), pad=True)
assert y.shape == (4, 4, 2, 3), y.shape
''')

bug('bcrop-first-channel-size', 'C12',
    [('sporco/cnvrep.py',
      'maxsz = np.maximum(maxsz, np.asarray(dsz[mb][cb][0:dimN]))',
      'maxsz = np.maximum(maxsz, np.asarray(dsz[mb][0][0:dimN]))')],
    'a dictionary with filter sizes varying by channel where a channel other '
    'than the first has the largest filters',
    'the dictionary is cropped to the filter size of the first channel',
    '''
import numpy as np
from sporco import cnvrep as cr
rng = np.random.RandomState(0)
dsz = (((3, 3, 2, 4), (5, 6, 1, 4)), ((4, 4, 3, 2),))
v = rng.randn(8, 8, 3, 1, 6)
c = cr.bcrop(v, dsz)
assert c.shape == (5, 6, 3, 1, 6), c.shape
assert np.array_equal(c[:, :, 2, :, 0:4], v[0:5, 0:6, 2, :, 0:4])
''')

bug('robust-backtrack-alias', 'C15',
    [('sporco/pgm/backtrack.py', 'self.Zrb = solverobj.var_x().copy()',
      'self.Zrb = solverobj.var_x()')],
    'PGM in the signal domain with robust backtracking started from a given '
    'point and statistics of the first iteration',
    'the auxiliary point of the first iteration shares memory with the '
    'iterate',
    '''
import numpy as np
from sporco.pgm import bpdn
from sporco.pgm.backtrack import BacktrackRobust
rng = np.random.RandomState(1)
D = rng.randn(8, 12)
S = rng.randn(8, 2)
X0 = rng.randn(12, 2)
sts = []
def run(splt):
    opt = bpdn.BPDN.Options({'MaxMainIter': 1, 'L': 10.0, 'X0': X0,
        'RelStopTol': 0.0, 'Backtrack': BacktrackRobust()})
    b = bpdn.BPDN(D, S, 0.05, opt)
    for k in range(6):
        b.solve()
        assert b.backtrack.Zrb is not b.X
        assert not np.may_share_memory(b.backtrack.Zrb, b.Xprv)
run(0)
''')

bug('zmean-support-blocks', 'C12',
    [('sporco/cnvrep.py', '''            m0 = m1  # Update initial index for start of next block
    else:
        # Single scale dictionary specification
        axisN = tuple(range(0, dimN))
        axnslc = tuple([slice(0, x) for x in dsz[0:dimN]])
        vz''',
      '''            m0 = m1 if mb == 0 else m0 + np.size(dsz[mb][-1])
    else:
        # Single scale dictionary specification
        axisN = tuple(range(0, dimN))
        axnslc = tuple([slice(0, x) for x in dsz[0:dimN]])
        vz''')],
    'zero-mean projection with sizes by channel in a block after the first',
    'filters of later blocks are left with a non-zero mean or an exception '
    'is raised',
    '''
import numpy as np
from sporco import cnvrep as cr
rng = np.random.RandomState(0)
one = (((3, 3, 1, 2), (4, 4, 1, 2)), ((2, 2, 2, 3),), ((5, 5, 2, 2),))
v = cr.bcrop(rng.randn(6, 6, 2, 1, 7), one)
z = cr.zeromean(v, one)
assert abs(np.mean(z[0:2, 0:2, :, 0, 2:5], axis=(0, 1))).max() < 1e-12
assert abs(np.mean(z[0:5, 0:5, :, 0, 5:7], axis=(0, 1))).max() < 1e-12
''')

bug('bndry-cross-last-axis', 'C13',
    [('sporco/admm/cbpdn.py', '''        if self.opt['NoBndryCross']:
            for n in range(0, self.cri.dimN):
                self.Y[(slice(None),) * n +
                       (slice(self.cri.Nv[n] + 1 - self.D.shape[n], None),)] = 0.0''',
      '''        if self.opt['NoBndryCross']:
            for n in range(0, self.cri.dimN):
                self.Y[(slice(None),) * n +
                       (slice(self.cri.Nv[n] + 1 - self.D.shape[0], None),)] = 0.0''')],
    'NoBndryCross with filters that are not square',
    'coefficients of filters that cross the boundary of the last axis are '
    'not set to zero (or too many are)',
    '''
import numpy as np
from sporco.admm import cbpdn
rng = np.random.RandomState(0)
D = rng.randn(3, 5, 4)
s = rng.randn(9, 10)
opt = cbpdn.ConvBPDN.Options({'MaxMainIter': 10, 'NoBndryCross': True})
b = cbpdn.ConvBPDN(D, s, 1e-3, opt)
X = b.solve()
assert np.all(X[7:] == 0) and np.all(X[:, 6:] == 0)
assert np.any(X[6] != 0) and np.any(X[:, 5] != 0)
''')

bug('bb-store-extrapolated', 'C14',
    [('sporco/pgm/pgm.py',
      'self.stepsizepolicy.store_prev_state(self.Xf, gradf)',
      'self.stepsizepolicy.store_prev_state(self.Yf, gradf)')],
    'Barzilai-Borwein step size in a DFT domain solver with momentum',
    'the step size uses the difference from the extrapolated point rather '
    'than from the previous iterate',
    '''
import numpy as np
from sporco.pgm import cbpdn
from sporco.pgm.stepsize import StepSizePolicyBB
rng = np.random.RandomState(0)
D = rng.randn(3, 3, 4)
s = rng.randn(8, 8)
log = []
class P(StepSizePolicyBB):
    def store_prev_state(self, xprv, gradprv):
        log.append(np.array(xprv, copy=True))
        super(P, self).store_prev_state(xprv, gradprv)
xs = []
opt = cbpdn.ConvBPDN.Options({'MaxMainIter': 6, 'L': 200.0,
    'RelStopTol': 0.0, 'StepSizePolicy': P(),
    'Callback': lambda o: xs.append(o.Xf.copy()) and False})
b = cbpdn.ConvBPDN(D, s, 0.01, opt)
b.solve()
for k in range(1, 6):
    assert np.allclose(log[k], xs[k - 1]), k
''')

bug('pgm-residual-autostop-resume', 'C16',
    [('sporco/pgm/pgm.py', 'adapt_tol = self.tau0 / (1. + self.k)',
      'adapt_tol = self.tau0 / (1. + len(self.itstat) %% '
      'self.opt[\'MaxMainIter\'])'.replace('%%', '%'))],
    'AutoStop with iterations spread over more than one call of solve',
    'the automatic stopping tolerance starts again in every call of solve',
    '''
import numpy as np
from sporco.pgm import bpdn
rng = np.random.RandomState(1)
D = rng.randn(8, 12)
S = rng.randn(8, 2)
def new(n):
    opt = bpdn.BPDN.Options({'MaxMainIter': n, 'L': 60.0,
        'AutoStop': {'Enabled': True, 'Tau0': 0.2}})
    return bpdn.BPDN(D, S, 0.05, opt)
a = new(500)
a.solve()
n = len(a.itstat)
assert 5 < n < 500, n
b = new(n // 2 + 1)
b.solve()
b.solve()
assert len(b.itstat) == n, (len(b.itstat), n)
''')

bug('yprev-not-refreshed', 'C13',
    [('sporco/admm/admm.py', '''            self.Yprev = self.Y.copy()

            # X update''', '''            if not self.opt['FastSolve'] or self.k % 2 == 0:
                self.Yprev = self.Y.copy()

            # X update''')],
    'FastSolve together with AutoRho with a period of one',
    'the dual residual used by the automatic penalty policy is computed '
    'from the variable two iterations ago',
    '''
import numpy as np
from sporco.admm import bpdn
rng = np.random.RandomState(1)
D = rng.randn(8, 12)
S = rng.randn(8, 2)
def run(fast):
    opt = bpdn.BPDN.Options({'MaxMainIter': 15, 'rho': 20.0,
        'RelStopTol': 0.0, 'FastSolve': fast, 'AutoRho': {'Enabled': True,
        'Period': 1, 'AutoScaling': True, 'Scaling': 1000.0,
        'RsdlRatio': 1.2}})
    b = bpdn.BPDN(D, S, 0.05, opt)
    b.solve()
    return b.rho, b.Y
r0, y0 = run(False)
r1, y1 = run(True)
assert r0 == r1 and np.array_equal(y0, y1), (r0, r1)
''')

bug('callback-before-increment', 'C02',
    [('sporco/pgm/pgm.py', '''            # Call callback function if defined
            if self.opt['Callback'] is not None:
                if self.opt['Callback'](self):
                    break
''', '''            # Call callback function if defined
            if self.opt['Callback'] is not None:
                if self.opt['Callback'](self):
                    self.Y = self.X if self.Y is None else self.Y
                    self.t = max(1, self.t - 1e-3)
                    break
''')],
    'a PGM solver stopped by its callback and then resumed',
    'the momentum coefficient is perturbed by stopping in a callback',
    '''
import numpy as np
from sporco.pgm import bpdn
rng = np.random.RandomState(1)
D = rng.randn(8, 12)
S = rng.randn(8, 2)
def new(n, cb=None):
    opt = bpdn.BPDN.Options({'MaxMainIter': n, 'L': 60.0, 'RelStopTol': 0.0,
                             'Callback': cb})
    return bpdn.BPDN(D, S, 0.05, opt)
a = new(8)
a.solve()
b = new(8, lambda o: o.k == 3)
b.solve()
b.opt['MaxMainIter'] = 4
b.opt['Callback'] = None
b.solve()
assert np.array_equal(a.X, b.X)
''')

bug('parcbpdn-empty-y0-group', 'C03',
    [('sporco/admm/parcbpdn.py',
      'XU1 = mp_X[grpind] + 1/mp_alpha*mp_U1[grpind]',
      'XU1 = mp_X[grpind] + mp_alpha*mp_U1[grpind]')],
    'ParConvBPDN with the option alpha different from 1',
    'the shrinkage step uses the wrong scaling of the dual variable',
    '''
import numpy as np
from sporco.admm import cbpdn, parcbpdn
rng = np.random.RandomState(0)
D = rng.randn(3, 3, 4)
s = rng.randn(8, 8)
opt = parcbpdn.ParConvBPDN.Options({'MaxMainIter': 400, 'alpha': 2.0,
    'RelStopTol': 1e-6, 'rho': 5.0, 'RelaxParam': 1.0})
a = parcbpdn.ParConvBPDN(D, s, 0.3, opt=opt, nproc=0, ngrp=2)
X = a.solve()
opt = cbpdn.ConvBPDN.Options({'MaxMainIter': 500, 'RelStopTol': 1e-8,
                              'AuxVarObj': True})
b = cbpdn.ConvBPDN(D, s, 0.3, opt)
b.solve()
assert abs(a.itstat[-1].ObjFun / b.itstat[-1].ObjFun - 1) < 1e-2
''')

bug('cns-drelax-old-dict', 'C04',
    [('sporco/dictlrn/prlcnscdl.py', '''    mp_D_U[:] += mp_D_X[:] - mp_D_Y''',
      '''    for k in range(min(mp_D_U.shape[0], 3)):
        mp_D_U[k] += mp_D_X[k] - mp_D_Y''')],
    'parallel consensus dictionary learning with more than three training '
    'signals',
    'the dual variables of the fourth and following signals are never '
    'updated',
    '''
import numpy as np
from sporco.dictlrn import prlcnscdl
rng = np.random.RandomState(0)
D0 = rng.randn(3, 3, 2)
S = rng.randn(6, 6, 5)
opt = prlcnscdl.ConvBPDNDictLearn_Consensus.Options({'MaxMainIter': 3})
b = prlcnscdl.ConvBPDNDictLearn_Consensus(D0, S, 0.1, opt, nproc=0)
b.solve()
U = prlcnscdl.mp_D_U
for k in range(5):
    assert np.linalg.norm(U[k]) > 1e-6, k
''')

bug('netget-read-timeout-empty', 'C06',
    [('sporco/util.py', """            # Timeout after connection is established is not wrapped by urllib
            err = urlerror.URLError(e)
""", """            # Timeout after connection is established is not wrapped by urllib
            err = urlerror.URLError(e)
            cntnt = b''
            if ntry > 1:
                break
""")],
    'a time out while reading the content in the third or later attempt',
    'empty content is returned as success',
    '''
import io, socket
from sporco import util
class R(object):
    def __init__(self, f):
        self.f = f
    def read(self):
        if self.f:
            raise socket.timeout('t')
        return b'abc'
for fails in range(0, 6):
    n = [0]
    def op(url, timeout=None):
        n[0] += 1
        return R(n[0] <= fails)
    util.urlrequest.urlopen = op
    try:
        r = util.netgetdata('http://x/', maxtry=5).read()
    except Exception:
        r = None
    assert r == (b'abc' if fails < 5 else None), (fails, r)
''')

bug('tikhonov-odd-width', 'C23',
    [('sporco/signal.py', 'slp = sp[npd:(sp.shape[0] - npd), npd:(sp.shape[1] - npd)]',
      'slp = sp[npd:(sp.shape[0] - npd), npd:(sp.shape[0] - npd)]')],
    'tikhonov_filter of an image with fewer rows than columns',
    'the low pass component has the wrong number of columns',
    '''
import numpy as np
from sporco.signal import tikhonov_filter
rng = np.random.RandomState(0)
for shp in ((8, 8), (12, 7), (7, 12), (6, 9, 2)):
    s = rng.randn(*shp)
    l, h = tikhonov_filter(s, 3.0, 4)
    assert l.shape == s.shape and np.allclose(l + h, s), shp
''')

bug('pamse-rescale-cmp', 'C24',
    [('sporco/metric.py', 'score = np.mean(herr**2)',
      'score = np.mean(herr**2) - np.mean(herr)**2 * (emap.size < 16)')],
    'pamse of small images with a mean difference',
    'the metric of images of fewer than 16 samples ignores the mean of the '
    'difference',
    '''
import numpy as np
from sporco import metric
for n in (3, 4, 5):
    a = np.zeros((n, n))
    b = np.ones((n, n))
    assert abs(metric.pamse(a, b, rescale=False) - 1.0) < 1e-10, n
''')

bug('onlinecdl-df-stale-size', 'C26',
    [('sporco/dictlrn/onlinecdl.py',
      'if self.cri is None or cri.shpS != self.cri.shpS:',
      'if self.cri is None or cri.Nv != self.cri.Nv or '
      'cri.shpX[3] != self.cri.shpX[3]:')],
    'training signals with the same size but a different number of channels '
    'with a single channel dictionary',
    'the work arrays of the previous number of channels are reused',
    '''
import numpy as np
from sporco.dictlrn import onlinecdl
rng = np.random.RandomState(0)
D0 = rng.randn(3, 3, 2)
S1 = rng.randn(6, 6)
S3 = rng.randn(6, 6, 3)
def new():
    opt = onlinecdl.OnlineConvBPDNDictLearn.Options(
        {'CBPDN': {'MaxMainIter': 5}})
    return onlinecdl.OnlineConvBPDNDictLearn(D0, 0.1, opt)
a = new()
a.solve(S1, dimK=0)
a.solve(S3, dimK=0)
assert a.cri.C == 3
''')

bug('timer-aggregate-start-order', 'C07',
    [('sporco/util.py', 'XX', 'XX')], '', '', '')
BUGS.pop()

bug('ccmod-cns-mean-axis', 'C13',
    [('sporco/admm/admm.py',
      'return np.sqrt(self.Nb) * self.rho * (Yprev - Y)',
      'return self.Nb ** 0.5 * self.rho * (self.Y - Y)')],
    'the dual residual of a consensus solver', 'the dual residual is zero',
    'assert 0')
BUGS.pop()

bug('consensus-weighted-prox', 'C21',
    [('sporco/admm/admm.py', 'rho = asum * self.rho',
      'rho = self.Nb * self.rho')],
    'WeightedADMMConsensus with weights that do not sum to the number of '
    'blocks',
    'the proximal step of the consensus variable uses the wrong parameter',
    '''
import numpy as np
from sporco.admm import admm
seen = []
class C(admm.WeightedADMMConsensus):
    def __init__(self, alpha):
        super(C, self).__init__(2, alpha, (3,), np.dtype(float),
            admm.WeightedADMMConsensus.Options({'MaxMainIter': 2,
                                                'rho': 2.0}))
        self.X = np.zeros((3, 2))
    def xistep(self, i):
        self.X[..., i] = 0.5
    def prox_g(self, X, rho):
        seen.append(rho)
        return X
    def obfn_fi(self, X, i):
        return 0.0
    def obfn_g(self, Y):
        return 0.0
for al in (np.array([1.0, 1.0]), np.array([0.5, 2.5])):
    del seen[:]
    C(al).solve()
    assert abs(seen[0] - 2.0 * al.sum()) < 1e-12, (al, seen)
''')

bug('twoblock-c1-relax', 'C21',
    [('sporco/admm/admm.py', """                self.var_y0() + self._cnst_c0,
                self.var_y1() + self._cnst_c1)""",
      """                self.var_y0() + self._cnst_c0,
                self.var_y1() + self._cnst_c0)""")],
    'a user-defined two-block solver with over-relaxation and different '
    'constraint constants in the two blocks',
    'the relaxed constraint uses the constant of the other block',
    '''
import numpy as np
from sporco.admm import admm
class T(admm.ADMMTwoBlockCnstrnt):
    def __init__(self):
        super(T, self).__init__(3, (6,), 0, 3, np.dtype(float),
            admm.ADMMTwoBlockCnstrnt.Options({'MaxMainIter': 1,
                'RelaxParam': 1.5}))
    def xstep(self):
        self.X = np.array([1.0, 2.0, 3.0])
    def ystep(self):
        self.Y = self.AX * 0.5
    def obfn_g0(self, y):
        return 0.0
    def obfn_g1(self, y):
        return 0.0
    def cnst_c(self):
        return np.hstack((self.cnst_c0(), self.cnst_c1()))
    def cnst_c0(self):
        return np.array([1.0, 1.0, 1.0])
    def cnst_c1(self):
        return np.array([0.0, 5.0, -1.0])
t = T()
t.solve()
x = np.array([1.0, 2.0, 3.0])
want = 1.5 * np.hstack((x, x)) - 0.5 * t.cnst_c()
assert np.allclose(t.AX, want), t.AX
''')

bug('dl-setdict-noncropped', 'C19',
    [('sporco/dictlrn/dictlrn.py', 'self.dstep.setcoef(self.xstep.getcoef())',
      'self.dstep.setcoef(self.xstep.getcoef() if self.j % 5 < 4 else '
      'self.xstep.var_y())')],
    'dictionary learning where the coding solver returns its primary '
    'variable, at the fifth outer iteration',
    'the dictionary update is given another variable than the one the '
    'coding solver returns',
    '''
import numpy as np
from sporco.dictlrn import bpdndl
rng = np.random.RandomState(1)
D0 = rng.randn(6, 8)
S = rng.randn(6, 10)
opt = bpdndl.BPDNDictLearn.Options({'MaxMainIter': 1,
    'BPDN': {'rho': 1.0, 'ReturnX': True, 'AutoRho': {'Enabled': False}},
    'CMOD': {'rho': 1.0}})
b = bpdndl.BPDNDictLearn(D0, S, 0.5, opt)
for k in range(7):
    b.solve()
    assert np.array_equal(b.dstep.Z, b.xstep.X), k
''')

bug('verbose-autorho-column', 'C17',
    [('sporco/admm/admm.py',
      """            if not self.opt['AutoRho', 'Enabled']:
                itdsp = itdsp[0:-1]
""", """            if not self.opt['AutoRho', 'Enabled']:
                itdsp = itdsp[0:-2] + itdsp[-1:]
""")],
    'Verbose without AutoRho',
    'the column of the dual residual shows the penalty parameter',
    '''
import io, sys
import numpy as np
from sporco.admm import bpdn
rng = np.random.RandomState(1)
D = rng.randn(8, 12)
S = rng.randn(8, 2)
opt = bpdn.BPDN.Options({'MaxMainIter': 3, 'rho': 20.0, 'Verbose': True,
                         'RelStopTol': 0.0, 'AutoRho': {'Enabled': False}})
b = bpdn.BPDN(D, S, 0.05, opt)
o, sys.stdout = sys.stdout, io.StringIO()
b.solve()
t, sys.stdout = sys.stdout.getvalue(), o
rows = [r.split() for r in t.splitlines() if r.strip()[:1].isdigit()]
assert len(rows) == 3
for r, st in zip(rows, b.itstat):
    assert abs(float(r[-1]) - st.DualRsdl) <= 1e-2 * st.DualRsdl + 1e-12
''')

bug('mask-uint8-square', 'C20',
    [('sporco/admm/cbpdn.py', """        self.W = np.asarray(W.reshape(cr.mskWshape(W, cri)),
                            dtype=self.dtype)

        super(ConvBPDNMaskDcpl, self)""", """        self.W = np.asarray(W.reshape(cr.mskWshape(W, cri)))
        if self.W.dtype.kind in 'fc':
            self.W = self.W.astype(self.dtype)

        super(ConvBPDNMaskDcpl, self)""")],
    'ConvBPDNMaskDcpl with an 8-bit integer mask with values above 15',
    'the squared mask overflows',
    '''
import numpy as np
from sporco.admm import cbpdn
rng = np.random.RandomState(1)
D = rng.randn(3, 3, 4)
s = rng.randn(8, 8)
W = np.where(rng.rand(8, 8) > 0.3, 20, 0)
X = []
for dt in (np.float64, np.uint8):
    opt = cbpdn.ConvBPDNMaskDcpl.Options({'MaxMainIter': 5})
    X.append(cbpdn.ConvBPDNMaskDcpl(D, s, 0.1, W.astype(dt), opt).solve())
assert np.allclose(X[0], X[1])
''')

bug('tiledict-common-scale', 'C28',
    [('sporco/util.py', 'XX', 'XX')], '', '', '')
BUGS.pop()

bug('single-rho-double', 'C27',
    [('sporco/admm/admm.py',
      'self.rho *= real_dtype(self.dtype).type(rsf)', 'self.rho *= rsf')],
    'single precision data with the automatic penalty policy actually '
    'changing the penalty',
    'the penalty parameter, and with it every later variable, becomes '
    'double precision',
    '''
import numpy as np
from sporco.admm import bpdn
rng = np.random.RandomState(1)
D = rng.randn(8, 12).astype(np.float32)
S = rng.randn(8, 2).astype(np.float32)
opt = bpdn.BPDN.Options({'MaxMainIter': 15, 'rho': 100.0, 'RelStopTol': 0.0,
    'AutoRho': {'Enabled': True, 'Period': 1, 'AutoScaling': True,
                'Scaling': 1000.0, 'RsdlRatio': 1.2}})
b = bpdn.BPDN(D, S, 0.05, opt)
X = b.solve()
assert b.rho.dtype == np.float32 and X.dtype == np.float32
assert b.U.dtype == np.float32
''')

bug('y0-option-alias', 'C18',
    [('sporco/admm/admm.py',
      "self.Y = self.opt['Y0'].astype(self.dtype, copy=True)",
      "self.Y = self.opt['Y0'].astype(self.dtype, copy=False)")],
    'a consensus solver, which updates its variable in place, with a starting '
    'point of the working data type',
    'solving modifies the starting point array in the options object',
    '''
import numpy as np
from sporco.admm import ccmod
rng = np.random.RandomState(1)
Z = rng.randn(6, 6, 1, 3, 2)
S = rng.randn(6, 6, 3)
Y0 = np.zeros((6, 6, 1, 1, 2))
Y0[0:3, 0:3] = rng.randn(3, 3, 1, 1, 2)
c = Y0.copy()
opt = ccmod.ConvCnstrMOD_Consensus.Options({'MaxMainIter': 3, 'Y0': Y0})
b = ccmod.ConvCnstrMOD_Consensus(Z, S, (3, 3, 2), opt)
b.solve()
assert np.array_equal(Y0, c)
''')

bug('cupy-tikhonov-npd', 'C25',
    [('sporco/cupy/__init__.py', 'XX', 'XX')], '', '', '')
BUGS.pop()
