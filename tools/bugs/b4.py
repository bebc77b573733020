BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug('sylvester-eig-cache', 'C09',
    [('sporco/linalg.py', '''            LambdaA, QA = np.linalg.eigh(A)
''', '''            LambdaA, QA = _eigh(A)
'''), ('sporco/linalg.py', '''            LambdaB, QB = np.linalg.eigh(B)
''', '''            LambdaB, QB = _eigh(B)
'''), ('sporco/linalg.py', '''def solve_symmetric_sylvester(A, B, C, alpha):
''', '''_eig = []


def _eigh(A):
    """Eigenvalue decomposition of A, keeping the most recent ones."""

    for B, ev in _eig:
        if B is A:
            return ev
    ev = np.linalg.eigh(A)
    _eig.append((A, ev))
    del _eig[:-4]
    return ev



def solve_symmetric_sylvester(A, B, C, alpha):
''')],
    'a matrix modified in place between two calls',
    'the second call uses the decomposition of the old matrix',
    '''
import numpy as np
from sporco.linalg import solve_symmetric_sylvester as f
rng = np.random.RandomState(0)
A, B, C = rng.randn(4, 4), rng.randn(3, 3), rng.randn(4, 3)
A, B = A.dot(A.T), B.dot(B.T)
for k in range(3):
    X = f(A, B, C, 0.5)
    assert np.allclose(A.dot(X).dot(B) + 0.5 * X, C)
    A[k, k] += 1.0
''')

bug('setdict-same-array', 'C02',
    [('sporco/admm/cbpdn.py',
      '''        if D is not None:
            self.D = np.asarray(D, dtype=self.dtype)
        self.Df = self.fftn(self.D, self.cri.Nv, self.cri.axisN)
        # Compute D^H S
        self.DSf = np.conj(self.Df) * self.Sf
        if self.cri.Cd > 1:
            self.DSf = np.sum(self.DSf, axis=self.cri.axisC, keepdims=True)
        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
            self.c = sl.solvedbi_sm_c(self.Df, np.conj(self.Df), self.rho,
''', '''        if D is not None:
            if D is self.D and hasattr(self, 'Df'):
                # Nothing to update: the dictionary is already in place
                return
            self.D = np.asarray(D, dtype=self.dtype)
        self.Df = self.fftn(self.D, self.cri.Nv, self.cri.axisN)
        # Compute D^H S
        self.DSf = np.conj(self.Df) * self.Sf
        if self.cri.Cd > 1:
            self.DSf = np.sum(self.DSf, axis=self.cri.axisC, keepdims=True)
        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
            self.c = sl.solvedbi_sm_c(self.Df, np.conj(self.Df), self.rho,
''')],
    'the dictionary is replaced by passing the same array object again, '
    'refilled with new values',
    'the second replacement is ignored',
    """
import numpy as np
from sporco.admm import cbpdn
rng = np.random.RandomState(0)
s = rng.randn(8, 8)
D1, D2 = rng.randn(3, 3, 2), rng.randn(3, 3, 2)
opt = {'MaxMainIter': 3, 'Verbose': False, 'AutoRho': {'Enabled': False}}
def run(same):
    b = cbpdn.ConvBPDN(D1, s, 0.1, cbpdn.ConvBPDN.Options(opt))
    buf = D1.reshape(b.cri.shpD).copy()
    b.setdict(buf)
    b.solve()
    if same:
        buf[:] = D2.reshape(b.cri.shpD)
        b.setdict(buf)
    else:
        b.setdict(D2.reshape(b.cri.shpD).copy())
    return b.solve()
assert np.allclose(run(True), run(False))
""")

bug('primal-tolerance-size', 'C16',
    [('sporco/admm/admm.py',
      '''            epri = np.sqrt(self.Nc) * self.opt['AbsStopTol'] / rn + \\
''', '''            epri = np.sqrt(self.Nx) * self.opt['AbsStopTol'] / rn + \\
''')],
    'a problem with a different number of constraints and unknowns, a '
    'positive absolute tolerance and normalised residuals',
    'the primal stopping threshold uses the number of unknowns',
    '''
import numpy as np
from sporco.admm import tvl2
s = np.random.RandomState(0).randn(6, 5)
b = tvl2.TVL2Denoise(s, 0.1, tvl2.TVL2Denoise.Options(
    {'MaxMainIter': 3, 'Verbose': False, 'AbsStopTol': 1e-3,
     'RelStopTol': 1e-4, 'AutoRho': {'StdResiduals': False}}))
b.solve()
rn = b.rsdl_rn(b.AXnr, b.Y)
e = np.sqrt(2 * 30) * 1e-3 / rn + 1e-4
assert np.allclose(b.getitstat().EpsPrimal[-1], e), (
    b.getitstat().EpsPrimal[-1], e)
''')

bug('robust-backtrack-limit', 'C14',
    [('sporco/pgm/backtrack.py',
      '''        self.Tk = T
        self.Zrb +=''', '''        if not linesearch:
            self.Tk = T
        self.Zrb +=''')],
    'a robust backtracking line search that reaches its iteration limit '
    'without satisfying its criterion',
    'the weight of the estimate sequence is not advanced',
    '''
import numpy as np
from sporco.pgm import bpdn
from sporco.pgm.backtrack import BacktrackRobust
rng = np.random.RandomState(1)
D, s = rng.randn(6, 8), rng.randn(6, 1)
b = bpdn.BPDN(D, s, 0.1, bpdn.BPDN.Options(
    {'MaxMainIter': 4, 'Verbose': False, 'L': 0.01,
     'Backtrack': BacktrackRobust(maxiter=2)}))
X = np.zeros((8, 1))
Z, T, L = X.copy(), 0.0, 0.01
for k in range(4):
    L *= 0.9
    for i in range(2):
        t = (1 + np.sqrt(1 + 4 * L * T)) / (2 * L)
        Y = (T * X + t * Z) / (T + t)
        g = D.T.dot(D.dot(Y) - s)
        V = Y - g / L
        V = np.sign(V) * np.maximum(0, np.abs(V) - 0.1 / L)
        f = 0.5 * np.sum((D.dot(V) - s)**2)
        Q = 0.5 * np.sum((D.dot(Y) - s)**2) + np.sum(g * (V - Y)) + \\
            L / 2 * np.sum((V - Y)**2)
        if f <= Q:
            break
        L *= 2.0
    T += t
    Z = Z + t * L * (V - Y)
    X = V
b.solve()
assert np.allclose(b.X, X), np.abs(b.X - X).max()
''')

bug('consensus-ppp-weights', 'C13',
    [('sporco/admm/ppp.py',
      '''        mu = np.array(mu, dtype=self.dtype)
''', '''        mu = np.array(mu, dtype=self.dtype) / np.sum(mu) * Nb
''')],
    'consensus with weights that do not add up to the number of blocks',
    'the weights are normalised, which changes the proximal parameter of '
    'each block and of the regulariser',
    '''
import numpy as np
from sporco.admm import ppp
def fi(v, rho):
    return v / (1 + 1 / rho)
def g(v, rho):
    return np.sign(v) * np.maximum(0, np.abs(v) - 1 / rho)
mu = np.array([0.5, 2.0])
b = ppp.PPPConsensus((5,), (fi, lambda v, rho: (v + 1 / rho) / (1 + 1 / rho)),
                     g, mu, ppp.PPPConsensus.Options(
    {'MaxMainIter': 1, 'Verbose': False, 'rho': 1.0, 'RelaxParam': 1.0,
     'Y0': np.arange(5.) - 1, 'U0': np.zeros((5, 2)),
     'AutoRho': {'Enabled': False}, 'DataType': np.float64}))
b.solve()
X = np.stack([fi(np.arange(5.) - 1, 1.0), np.arange(5.) / 2], axis=-1)
assert np.allclose(b.X, X)
v = (0.5 * X[..., 0] + 2.0 * X[..., 1]) / np.sum(mu)
w = g(v, np.sum(mu))
assert np.allclose(b.Y, w), (b.Y, w)
''')
