"""Writes known_findings.json (run after tools/props.py changes)."""
import json
import os
import subprocess

# subject fragment of the fix commit -> property, what failed
FIXED = [
    ('AddMaskSim.setdict used a function', 'C13',
     'AddMaskSim.setdict raised AttributeError for every dictionary'),
    ('ParConvBPDN.setdict did not update', 'C03',
     'after ParConvBPDN.setdict the solver went on with the old dictionary'),
 ('grid_search with non-double', 'C05', 'mpiutil.grid_search returned wrong results for integer/float32 function values and with more ranks than grid points'),
 ('netgetdata retry', 'C06', 'util.netgetdata did not retry timeouts raised while reading (socket.timeout not wrapped in URLError)'),
 ('ConvBPDN lmbda and rho', 'C13', 'ConvBPDN with Y0 given and U0 not given raised AttributeError in uinit'),
 ('ConvElasticNet and ConvBPDNGradReg linear', 'C13', 'linear solver cache not updated (or wrongly) when rho changes'),
 ('ConvMinL1InL2Ball initialisation of U', 'C13', 'Y0 without U0 raised or used the wrong U'),
 ('ConvBPDNMaskDcpl initialisation of U', 'C13', 'Y0 without U0 raised or used the wrong U'),
 ('ConvL1L1Grd initialisation', 'C13', 'HighMemSolve raised AttributeError'),
 (' MinL1InL2Ball initialisation of U', 'C13', 'Y0 without U0 raised or used the wrong U'),
 ('SplineL1 initialisation of U', 'C13', 'Y0 without U0 raised'),
 ('ConvBPDNScalarTV y step', 'C13', 'y step was not the proximal operator of the regulariser'),
 ('ConvBPDNScalarTV x step', 'C13', 'x step wrong with filter-dependent TVWeight'),
 ('ConvBPDNScalarTV/VectorTV l1', 'C13', 'array L1Weight raised'),
 ('ConvBPDNRecTV y step', 'C13', 'y step raised with multi-channel dictionary and multiple signals'),
 ('ConvBPDNRecTV dual residual', 'C15', 'dual residual wrong with multi-channel dictionary'),
 ('gradient_filters', 'C08', 'gradient filters wrong for axes other than the leading ones'),
 ('TVL1Denoise and TVL2Denoise', 'C13', 'axes other than the leading ones raised or gave wrong results'),
 ('ConvProdDictL1L1Grd ignores', 'C13', 'options Y0 and U0 ignored'),
 ('ConvProdDictL1L1GrdJoint with default', 'C13', 'default options raised'),
 ('ConvProdDictBPDN.setdict', 'C02', 'setdict with only a new B raised or used the old one'),
 ('ConvCnstrMODMaskDcpl_Consensus', 'C13', 'U1 not rescaled when rho changes'),
 ('zero-mean dictionary constraint', 'C12', 'zero-mean constraint wrong for dimN other than 2'),
 ('AddMaskSim with a mask', 'C13', 'mask shared between channels or signals raised or gave wrong results'),
 ('size of x in ConvTwoBlock', 'C15', 'dual stopping tolerance used the wrong size'),
 ('undefined name in MultiDict', 'C15', 'MultiDictConvBPDN.reconstruct raised NameError'),
 ('MultiDictConvBPDN with multi', 'C13', 'multi-channel dictionaries and signals gave wrong results'),
 ('ndto2d', 'C08', 'ndto2d with all axes of the array selected raised'),
 ('prox_l1 of a complex', 'C08', 'prox_l1 of a complex array with zero entries returned NaN'),
 ('PGMDFT option Monotone', 'C14', 'only one of the two representations of X was reverted'),
 ('reconstruct methods of pgm', 'C15', 'reconstruct raised or returned the wrong array'),
 ('Hessian of the weighted', 'C14', 'Cauchy step size with the wrong Hessian for weighted fidelity terms'),
 ('state of PGM step size', 'C18', 'two solvers given the same options object shared the state of the step size and backtracking policies'),
 ('objective function value of the first', 'C15', 'objective value of the first iteration with Monotone was that of the initial point'),
 ('MaxMainIter of zero', 'C02', 'a call of zero iterations advanced the iteration counter'),
 ('solve_symmetric_sylvester', 'C09', 'wrong solution with indefinite matrices'),
 ('ifftn of a real', 'C10', 'ifftn of a real array raised without pyfftw'),
 ('x step with a multi-channel dictionary', 'C03', 'ParConvBPDN x step raised or was wrong with a multi-channel dictionary'),
 ('ParConvBPDN options Y0', 'C03', 'ParConvBPDN ignored or misused the options Y0, Y1, U0, and U1'),
 ('residuals and X belong', 'C03', 'ParConvBPDN residuals (hence AutoRho and stopping) were those of the previous iteration'),
 ('X is not the relaxed X', 'C03', 'ParConvBPDN exposed the relaxed variable as X'),
 ('AccurateDFid ignored', 'C19', 'objective reported with AccurateDFid did not include L1Weight'),
 ('mask layout in ConvBPDNMaskDictLearn', 'C19', 'ConvBPDNMaskDictLearn with dmethod pgm raised with a mask that has a signal or channel axis'),
 ('online dictionary learning with varying', 'C26', 'training data with another number of signals raised or gave a wrong gradient'),
 ('online dictionary learning with a single-channel', 'C26', 'multi-channel training data with a single-channel dictionary raised or gave a wrong gradient'),
 ('online dictionary learning with singleton', 'C26', 'dictionaries with one filter or filters of unit size along an axis raised'),
 ('gradient in OnlineConvBPDNMaskDictLearn', 'C26', 'gradient scaled by W instead of W^2'),
 ('option NoBndryCross with filters', 'C13', 'NoBndryCross zeroed the whole coefficient map when a filter has unit size along an axis'),
 ('shape of L1Weight arrays', 'C12', 'L1Weight arrays with a signal axis but no channel axis mapped to the wrong axis'),
 ('signal.grad and signal.gradT with a negative', 'C23', 'negative axis zeroed the wrong samples; gradT on an axis of length 1 raised'),
 ('signal.rndmask with an integer', 'C23', 'integer and boolean masks were constant'),
 ('signal.rgb2gray with integer', 'C23', 'integer images gave zeros, arrays of images raised; ExampleImages(gray=True) gave zeros or raised'),
 ('interp.bilinear_demosaic used cubic', 'C23', 'red and blue channels were interpolated with cubic splines'),
 ('metric.psnr range of integer', 'C24', 'psnr default range of integer images overflowed'),
 ('metric.bsnr noise of integer', 'C24', 'bsnr difference of integer images wrapped around'),
 ('signal.tikhonov_filter of an unpadded axis', 'C23', 'single-sample axis without padding was penalised'),
 ('Cholesky solves in sporco.cupy', 'C25', 'NameError (cpxl) in every sporco.cupy solver using Cholesky solves when cupy is not installed'),
 ('sporco.cupy fftconv differs', 'C25', 'sporco.cupy.fft.fftconv lacked origin and convolved only the first two axes by default'),
 ('mask in ConvCnstrMODMaskDcpl', 'C27', 'mask not converted to DataType: single precision variables promoted'),
 ('ConvProdDictL1L1GrdJoint promotes', 'C27', 'single precision variables promoted to double'),
 ('inconsistent terms in the PGM backtracking', 'C22', 'ConvBPDNMask and ConvCnstrMODMask with backtracking: L grows without bound and the solver stalls away from the solution'),
 ('constraints applied after rather than before', 'C22', 'BPDNProjL1, ConvBPDNProjL1, BPDNJoint, ConvBPDNJoint, ConvProdDictBPDNJoint, ConvProdDictL1L1GrdJoint with NonNegCoef: result is not a minimiser'),
 ('PGM fixed point residual with option Monotone', 'C22', 'PGM with Monotone and MomentumLinear stops after 2 iterations at an arbitrary point'),
 ('ADMMTwoBlockCnstrnt default options', 'C20', 'ADMMTwoBlockCnstrnt with opt=None raises KeyError for AuxVarObj'),
 ('ConvBPDNJoint raises an exception', 'C20', 'ConvBPDNJoint with opt=None raises UnknownKeyError for L21Weight'),
 ('OnlineConvBPDNMaskDictLearn raises', 'C20', 'OnlineConvBPDNMaskDictLearn with opt=None raises UnknownKeyError for ReturnVar'),
 ('PGM step size policies divide by zero', 'C14', 'BB/Cauchy step size with unchanged iterate or zero gradient: L becomes NaN or infinite'),
 ('squares the mask in its own data type', 'C20', 'pgm ConvCnstrMODMask with an 8 bit integer mask: squared mask overflows'),
]

FINDINGS = [
 {'property': 'C18', 'match': 'd:prlcnscdl/*|overlap',
  'what': 'two live prlcnscdl solvers in one process share the module-level '
          'shared-memory arrays: stepping one changes the other'},
 {'property': 'C18', 'match': 'pairs/d:prlcnscdl/*|parallel-pair',
  'what': 'prlcnscdl plain and mask solvers alive at the same time in one '
          'process share the module-level shared-memory arrays'},
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'],
                         stdout=subprocess.PIPE, check=True).stdout.decode()
    lines = [ln.split(' ', 1) for ln in log.splitlines()]
    lines = [(h, s) for h, s in lines if s.startswith('fix:')]
    used = set()
    out = []
    for frag, prop, what in FIXED:
        m = [h for h, s in lines if frag in s.replace('fix:', 'fix: ')
             .replace('  ', ' ')]
        assert len(m) == 1, (frag, m)
        used.add(m[0])
        out.append('fixed: property=%s %s %s' % (prop, m[0], what))
    left = [x for x in lines if x[0] not in used]
    assert not left, left
    fn = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'known_findings.json')
    with open(fn, 'w') as f:
        json.dump({'findings': FINDINGS, 'fixed': out}, f, indent=1)
        f.write('\n')


main()
