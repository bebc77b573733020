BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo))


bug('autorho-target-decrease', 'C13',
    [('sporco/admm/admm.py', 'elif s > (mu / xi) * r:',
      'elif s > mu * r:')],
    'AutoRho enabled with RsdlTarget different from 1 and a dual residual '
    'between mu/xi and mu times the primal one',
    'the penalty parameter is not decreased when the documented policy says '
    'it must be',
    '''
import numpy as np
from sporco.admm import bpdn
rng = np.random.RandomState(1)
D = rng.randn(8, 12)
S = rng.randn(8, 2)
bad = 0
for xi in (1.0, 4.0, 16.0):
    opt = bpdn.BPDN.Options({'MaxMainIter': 20, 'rho': 40.0, 'RelStopTol': 0.0,
        'AutoRho': {'Enabled': True, 'Period': 1, 'AutoScaling': False,
                    'Scaling': 2.0, 'RsdlRatio': 1.5, 'RsdlTarget': xi}})
    b = bpdn.BPDN(D, S, 0.05, opt)
    b.solve()
    st = b.itstat
    for i in range(1, len(st) - 1):
        r, s, rho = st[i].PrimalRsdl, st[i].DualRsdl, st[i].Rho
        f = 2.0 if r > xi * 1.5 * s else 0.5 if s > 1.5 / xi * r else 1.0
        if abs(st[i + 1].Rho - f * rho) > 1e-9 * rho:
            bad += 1
assert bad == 0, bad
''')

bug('tvl1-dual-norm-block', 'C15',
    [('sporco/admm/tvl1.py', '''        return self.rho*np.linalg.norm(U)



    def LaplaceCentreWeight''', '''        return self.rho*np.linalg.norm(U[..., 0:-1])



    def LaplaceCentreWeight''')],
    'TVL1Denoise with a dual variable whose data fidelity block matters',
    'the dual residual normalisation (hence DualRsdl and EpsDual) ignores '
    'the data fidelity block of the dual variable',
    '''
import numpy as np
from sporco.admm import tvl1
rng = np.random.RandomState(0)
s = rng.randn(6, 5)
seen = []
def cb(b):
    seen.append((np.linalg.norm(b.cnst_AT(b.U)) / np.linalg.norm(b.U),
                 b.itstat[-1].DualRsdl))
opt = tvl1.TVL1Denoise.Options({'MaxMainIter': 5, 'Callback': cb,
                                'AutoRho': {'Enabled': False}})
tvl1.TVL1Denoise(s, 0.3, opt).solve()
for e, v in seen:
    assert abs(e - v) < 1e-8, (e, v)
''')

bug('timer-stop-skips-running', 'C07',
    [('sporco/util.py', '''                # Increment time accumulator from the elapsed time
                # since most recent start call
                self.td[lbl] += t - self.t0[lbl]
''', '''                # Increment time accumulator from the elapsed time
                # since most recent start call
                self.td[lbl] += t - min(self.t0[x] for x in labels
                                        if self.t0[x] is not None)
''')],
    'two labels started at different times and stopped by the same call',
    'a label is charged with the time of another label',
    '''
from sporco import util
clk = [0.0]
util.timer = lambda: clk[0]
t = util.Timer()
t.start('a')
clk[0] = 5.0
t.start('b')
clk[0] = 7.0
t.stop(['b', 'a'])
assert t.elapsed('a') == 7.0 and t.elapsed('b') == 2.0, (t.elapsed('a'), t.elapsed('b'))
''')

bug('gridsearch-worker-merge', 'C05',
    [('sporco/util.py', '        fval = pool.map(fn, fprm)\n',
      '        fval = list(pool.imap_unordered(fn, fprm, chunksize=16))\n')],
    'more than sixteen grid points whose evaluations complete out of order',
    'function values are assigned to the wrong grid points',
    '''
import time
import numpy as np
from sporco import util
def f(p):
    if p[0] < 16:
        time.sleep(0.05)
    return (p[0] - 20.0)**2
x = np.arange(48.0)
for nproc in (2, 4):
    sprm, sfvl, fvmx, sidx = util.grid_search(f, (x,), nproc=nproc)
    assert np.array_equal(fvmx, (x - 20.0)**2), fvmx
    assert sprm[0] == 20.0
''')

bug('options-subtree-none', 'C01',
    [('sporco/cdict.py', '''            elif isinstance(a[key], dict) and not isinstance(value, dict):
                raise InvalidValueError(self.pth + (key,))
''', '''            elif isinstance(a[key], dict) and a[key] and \\
                    not isinstance(value, (dict, type(None))):
                raise InvalidValueError(self.pth + (key,))
''')],
    'assigning None to an option that is a subtree',
    'an option subtree can be replaced by None instead of being rejected',
    '''
from sporco import cdict
from sporco.admm import admm
o = admm.ADMM.Options()
try:
    o['AutoRho'] = None
except cdict.InvalidValueError:
    pass
assert isinstance(o['AutoRho'], dict)
assert o['AutoRho', 'Period'] == admm.ADMM.Options.defaults['AutoRho']['Period']
''')
