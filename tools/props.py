"""Properties and their checks (source of properties.jsonl, MANIFEST.json)."""
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique=None,
         level='model_checking', note='', na=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[
                 dict(name=n, where=w) for n, w in mech]),
             technique=technique, level=level, note=note)
    if observe:
        d['anchors']['observe_at'] = observe
    if na:
        d['na'] = na
    PROPS.append(d)


prop('C01', 'Option trees are validated, independent nested mappings',
     'Every option object accepts exactly the documented option names at '
     'every nesting level, rejects unknown names and wrongly typed subtrees '
     'with the documented errors leaving the object unchanged, and reads '
     'back exactly what was last set, with every unset option at its class '
     'default. Setting (values being leaves or plain mappings), '
     'deep-copying or pickling one object never '
     'changes any other object, any class default, or the mapping the values '
     'came from.',
     ['histories', 'configurations'],
     'all sequences of option operations on several live objects of every '
     'option class',
     'Tests set a few keys on one synthetic class; aliasing between nested '
     'trees, defaults and copies needs operation histories over several '
     'objects.',
     ['sporco/cdict.py', 'sporco/admm/*.py', 'sporco/pgm/*.py',
      'sporco/dictlrn/*.py'],
     [('ConstrainedDict', 'sporco/cdict.py'),
      ('nested Options classes', 'sporco/admm/admm.py, sporco/pgm/pgm.py, '
       'sporco/dictlrn/dictlrn.py')],
     'explicit-state exploration of operation sequences on the real objects '
     'against a nested-dict model',
     note='Exhaustive to the stated depth over an alphabet of operations on '
          'two live instances; value domain is a few representative values.')

prop('C05', 'Grid search finds the optimum however work is distributed',
     'A grid search over a finite parameter grid returns the extremal '
     'function value, the grid point that attains it, and the complete '
     'array of function values, each value belonging to its own grid point. '
     'This holds for every number of worker processes or message-passing '
     'ranks (including more ranks than points), every completion order, '
     'scalar and tuple-valued functions, minimisation and maximisation.',
     ['schedules', 'inputs', 'configurations'],
     'all assignments of values to small grids, all completion orders, all '
     'rank counts and orders within the bounds',
     'Tests run one grid with the default pool and one MPI layout with '
     'well-behaved values.',
     ['sporco/util.py', 'sporco/mpiutil.py'],
     [('grid_search', 'sporco/util.py'),
      ('grid_search / work allocation', 'sporco/mpiutil.py')],
     'exhaustive enumeration of completion orders and rank schedules under a '
     'controlled pool and message-passing stand-in',
     note='The message-passing stand-in implements the collectives used; '
          'ranks are run as real threads under a deterministic scheduler.')

prop('C06', 'Network retrieval obeys its retry limit and never lies',
     'Retrieving a resource over an unreliable network returns exactly the '
     'bytes served, after at most the configured number of attempts, '
     'retrying transient failures wherever in the transfer they occur. '
     'When the attempts are used up the failure is reported as an error, '
     'and no partial content is ever returned as success.',
     ['fault_sequences'],
     'all sequences of per-attempt faults at the open and at the read stage, '
     'for every retry limit within the bound',
     'The tests need a network and exercise at most one unreachable host.',
     ['sporco/util.py'],
     [('netgetdata', 'sporco/util.py')],
     'fault enumeration: every fault sequence injected below the URL layer',
     'fault_enumeration',
     'Faults are injected at the urllib boundary; real sockets are not used.')

prop('C07', 'Timers account exactly for running time per label',
     'A timer reports for each label exactly the accumulated time during '
     'which that label was running, whatever the sequence of starts, stops, '
     'resets, context uses and copies, and with aggregate labels acting on '
     'all or the default label as documented. Querying never changes the '
     'state, and a stopped label stays constant as the clock advances.',
     ['histories'],
     'all operation sequences up to the bound over three labels, under a '
     'virtual clock',
     'Tests measure one or two start/stop pairs with real sleeps.',
     ['sporco/util.py'],
     [('Timer', 'sporco/util.py'), ('ContextTimer', 'sporco/util.py')],
     'explicit-state exploration of operation sequences with a virtual clock '
     'against an interval model',
     note='Exhaustive to the stated depth; time is virtual and advances '
          'between operations.')

prop('C13', 'ADMM solvers follow the ADMM recursion of their problem',
     'From any starting point, every iteration of every ADMM solver maps the '
     'current primal, auxiliary and dual variables and penalty to exactly '
     'the ones the relaxed, scaled-dual ADMM iteration for its documented '
     'optimisation problem prescribes, for every combination of problem '
     'layout, weights, masks, non-negativity and boundary options, '
     'relaxation and automatic penalty policy. A warm start is used as '
     'given, and the solver returns the variable it documents.',
     ['histories', 'configurations', 'inputs'],
     'full product of the option axes and problem layouts of each class, '
     'every step of every trace',
     'Tests check convergence on a few easy problems, which tolerates wrong '
     'steps, scalings and rarely used option combinations.',
     ['sporco/admm/admm.py', 'sporco/admm/bpdn.py', 'sporco/admm/cbpdn.py',
      'sporco/admm/cmod.py', 'sporco/admm/ccmod.py',
      'sporco/admm/ccmodmd.py', 'sporco/admm/tvl1.py', 'sporco/admm/tvl2.py',
      'sporco/admm/spline.py', 'sporco/admm/rpca.py', 'sporco/admm/ppp.py'],
     [('ADMM.solve, xstep/ystep/ustep, update_rho', 'sporco/admm/admm.py'),
      ('per-class steps', 'sporco/admm/*.py')],
     'trace conformance: each step of the implementation compared with the '
     'transition of a dense reference model, over all configurations',
     note='The reference models are written from the documented problems '
          'with dense linear algebra; small arrays, floating point tolerance '
          '1e-7.')

prop('C15', 'Reported statistics describe the iterates they accompany',
     'In every iteration of every solver the reported objective terms, '
     'residuals, stopping tolerances, penalty and iteration number are '
     'those of the variables of that iteration, whichever variables the '
     'options select for evaluation. The linear solver residual is reported '
     'when and only when asked for, and the reconstruction is that of the '
     'current solution.',
     ['histories', 'configurations'],
     'full product of the option axes and problem layouts of each class, '
     'every iteration',
     'Tests look at a final objective value on a few problems; a wrong '
     'statistic that does not alter the solution passes unnoticed.',
     ['sporco/admm/*.py', 'sporco/pgm/*.py'],
     [('iteration_stats, eval_objfn, compute_residuals',
       'sporco/admm/admm.py, sporco/pgm/pgm.py')],
     'trace conformance: statistics recomputed from the observed variables '
     'by a dense reference model',
     note='Statistics recomputed independently at every iteration; '
          'tolerance 1e-6 relative.')

prop('C08', 'Proximal and projection operators return exact minimisers',
     'Every proximal operator and ball projection of sporco.prox returns, '
     'for every finite input array (zeros, ties, equal magnitudes, complex '
     'values where supported, any shape and memory layout), every axis '
     'specification and every non-negative scalar or array parameter, the '
     'minimiser of its defining problem taken independently over each vector '
     'selected by the axes, in an array of the shape (and precision) of the '
     'input, which is left unmodified. The norms are those of the same '
     'vectors, and ndto2d/ndfrom2d are mutually inverse.',
     ['inputs', 'configurations'],
     'all arrays over a finite value lattice, all axis specifications, all '
     'listed parameters',
     'Tests compare a few random arrays with default axes; ties, zeros, '
     'boundary parameters and unusual axes are never sampled.',
     ['sporco/prox/_lp.py', 'sporco/prox/_l1proj.py', 'sporco/prox/_l21.py',
      'sporco/prox/_dl1l2.py', 'sporco/prox/_nuclear.py',
      'sporco/prox/_util.py'],
     [('prox_l1, prox_l2, proj_l2, prox_l0, norms', 'sporco/prox/_lp.py'),
      ('proj_l1', 'sporco/prox/_l1proj.py'),
      ('prox_sl1l2', 'sporco/prox/_l21.py'),
      ('prox_dl1l2', 'sporco/prox/_dl1l2.py'),
      ('prox_nuclear', 'sporco/prox/_nuclear.py')],
     'exhaustive enumeration of input lattices, axes and parameters on the '
     'real code against independent closed-form and combinatorial minimisers',
     note='Lattice values, not all reals; dtype of proj_l1 not claimed.')

prop('C14', 'PGM solvers follow the accelerated proximal gradient recursion',
     'From any starting point, every iteration of every PGM solver produces '
     'exactly the iterate, extrapolated point and inverse step size that the '
     'accelerated proximal gradient method prescribes for its documented '
     'problem: the selected momentum rule, the Cauchy or Barzilai-Borwein '
     'step size, standard or robust backtracking (which enforces its '
     'quadratic upper bound test up to the iteration limit), and the '
     'monotone option, under which the objective never increases from one '
     'iteration to the next. The solver returns the last accepted iterate.',
     ['histories', 'configurations', 'inputs'],
     'all combinations (up to the bound) of policies, options and problem '
     'layouts of each class, every step of every trace',
     'Tests check convergence on a few problems with one policy each; policy '
     'combinations and single steps are not observed.',
     ['sporco/pgm/pgm.py', 'sporco/pgm/momentum.py', 'sporco/pgm/stepsize.py',
      'sporco/pgm/backtrack.py', 'sporco/pgm/bpdn.py', 'sporco/pgm/cbpdn.py',
      'sporco/pgm/cmod.py', 'sporco/pgm/ccmod.py', 'sporco/pgm/ppp.py'],
     [('PGM.solve, xstep, ystep', 'sporco/pgm/pgm.py'),
      ('policies', 'sporco/pgm/momentum.py, stepsize.py, backtrack.py')],
     'trace conformance: each step of the implementation compared with the '
     'transition of a dense reference model, over all configurations',
     note='Traces are cut where a line-search or monotone decision is '
          'within rounding error of a tie.')

prop('C02', 'Stopping, copying and resuming a solver never changes its course',
     'For every solver and dictionary learning class, n iterations performed '
     'by one call of solve() leave the same variables, the same sequence of '
     'iteration statistics (times aside) and the same returned value as the '
     'same iterations performed by any number of successive calls, some of '
     'them possibly of zero iterations, whether the calls end by the '
     'iteration limit or by the callback, and whether or not the solver is '
     'replaced by a deep copy (or, where supported, an unpickled copy) of '
     'itself in between; a copy and its original never affect each other. '
     'After setdict or setcoef only the last array supplied matters: '
     'replacing it and replacing it back is the identity.',
     ['histories', 'configurations'],
     'all splits of the iteration budget into calls, all copy points, all '
     'replacement sequences up to the bound, for every class and option',
     'Tests call solve() once, or resume one or two solvers once with the '
     'default options.',
     ['sporco/admm/*.py', 'sporco/pgm/*.py', 'sporco/dictlrn/*.py',
      'sporco/common.py'],
     [('ADMM.solve', 'sporco/admm/admm.py'), ('PGM.solve',
                                              'sporco/pgm/pgm.py'),
      ('DictLearn.solve', 'sporco/dictlrn/dictlrn.py'),
      ('setdict, setcoef', 'sporco/admm/*.py, sporco/pgm/*.py')],
     'exhaustive exploration of call-splitting, copying and replacement '
     'histories of the real solvers, each compared with the unsplit run',
     note='Every composition of the iteration budget; pickling only of '
          'newly constructed solvers that hold no local functions.')

prop('C09', 'Structured linear solvers return the exact solution',
     'Every structured solver of sporco.linalg returns, up to rounding, the '
     'unique solution of its documented system for every right-hand side and '
     'every coefficient array (zero vectors, broadcast axes, real or complex '
     'values, one unknown, any positive parameter), along any supported '
     'axis, with or without precomputed factors: Sherman-Morrison and '
     'iterated Sherman-Morrison, conjugate gradient, LU and Cholesky solves '
     'for tall, square and wide matrices, and the symmetric Sylvester '
     'equation. inner, dot, block_circulant, rrs, pca, nkp and kpsvd equal '
     'their defining formulas. Arguments, including cached factors, are '
     'never modified.',
     ['inputs', 'configurations'],
     'all shapes, broadcast patterns and axes within the bound, all '
     'coefficient vectors and matrices over small value lattices',
     'Tests use one random array per solver in the standard 5-axis layout.',
     ['sporco/linalg.py'],
     [('solvedbi_sm, solvedbd_sm', 'sporco/linalg.py'),
      ('solvemdbi_ism, solvemdbi_rsm, solvemdbi_cg', 'sporco/linalg.py'),
      ('lu_solve_*, cho_solve_*', 'sporco/linalg.py'),
      ('solve_symmetric_sylvester', 'sporco/linalg.py')],
     'exhaustive enumeration of shapes, axes and lattice-valued systems on '
     'the real code against dense solves',
     note='Matrix right-hand sides of the *_AATI solvers act on rows, as in '
          'their use and tests; nkp for blocks smaller than the array.')

prop('C10', 'Transforms, FFT convolution and DFT-domain norms match definitions',
     'fftn, ifftn, rfftn, irfftn, dctii and idctii equal the defining sums on '
     'the selected (non-negative) axes in the order given, with cropping and '
     'padding where a size is given, for every shape (odd, even and unit '
     'lengths), memory layout, precision and thread count, with pyfftw and '
     'with the numpy fallback; they preserve precision, never modify their '
     'input, and no later call ever alters an array returned earlier. '
     'fftconv is circular convolution on the selected axes with '
     'broadcasting on the others and the requested origin; fl2norm2 and '
     'rfl2norm2 of a transform equal the squared norm of the original; '
     'aligned allocation and dtype helpers return the stated shape and type.',
     ['inputs', 'configurations', 'histories'],
     'all shapes, axis selections, sizes, layouts and types within the '
     'bound, all short call histories',
     'Tests check a few even square sizes on contiguous double arrays.',
     ['sporco/fft.py'],
     [('fftn, ifftn, rfftn, irfftn', 'sporco/fft.py'),
      ('fftconv', 'sporco/fft.py'),
      ('fl2norm2, rfl2norm2', 'sporco/fft.py'),
      ('fallback definitions', 'sporco/fft.py')],
     'exhaustive enumeration of shapes, axes, sizes, layouts and call '
     'histories on the real code against explicit DFT/DCT/convolution sums',
     note='Negative axes are not claimed (a limitation of the pyfftw '
          'interface itself).')

prop('C11', 'Array block, window and padding utilities map every sample exactly',
     'rolling_window and subsample_array place every input sample at exactly '
     'the documented position for every shape, memory layout, window, step, '
     'count and padding mode, and reject steps as large as the array; '
     'extract_blocks lists every block in order, average_blocks and '
     'combine_blocks return at every sample the mean (or the given function) '
     'of exactly the block samples covering it and NaN where none does, so '
     'recombining extracted blocks restores the signal; zpad, zdivide, '
     'split, atleast_nd, promote16 and the named tuple conversions satisfy '
     'their definitions. Inputs are never modified.',
     ['inputs', 'configurations'],
     'all shapes, block sizes, steps, counts, padding modes and layouts '
     'within the bound',
     'Tests check the shape or one entry of a single array.',
     ['sporco/array.py'],
     [('rolling_window, subsample_array', 'sporco/array.py'),
      ('extract_blocks, average_blocks, combine_blocks', 'sporco/array.py'),
      ('zpad, zdivide, split, promote16', 'sporco/array.py')],
     'exhaustive enumeration of shapes and parameters on the real code '
     'against per-sample index maps',
     note='Floating point data; named tuples with numeric scalar fields.')

prop('C12', 'Problem dimension inference and dictionary constraint projection',
     'For every combination of dictionary and signal axes allowed by the '
     'documentation, the inferred roles, sizes and internal shapes '
     '(CSC_ConvRepIndexing, CDU_ConvRepIndexing, DictionarySize) are the '
     'documented ones and inconsistent channel counts raise ValueError; a '
     'weight or mask of external shape is mapped to the internal shape in '
     'which each of its axes meets the signal axis it came from. Pcn and '
     'getPcn return, for every dictionary size specification (single size, '
     'blocks, per-channel sizes), padding, cropping and zero-mean setting, '
     'exactly the cropped, mean-subtracted and normalised filters in the '
     'specified support (zero filters stay zero), are idempotent, preserve '
     'the type and leave their argument unmodified.',
     ['configurations', 'inputs'],
     'all axis combinations, weight shapes, dictionary size forms and '
     'settings within the bound',
     'Tests check a dozen shapes; role inference and block layouts multiply '
     'into thousands of combinations.',
     ['sporco/cnvrep.py'],
     [('CSC_ConvRepIndexing, CDU_ConvRepIndexing', 'sporco/cnvrep.py'),
      ('l1Wshape, mskWshape', 'sporco/cnvrep.py'),
      ('Pcn, getPcn, bcrop, zeromean, normalise', 'sporco/cnvrep.py')],
     'exhaustive enumeration of layouts and size specifications on the real '
     'code against independent inference rules and a per-filter projection')

prop('C16', 'Stopping rules',
     'A call of solve runs exactly up to the first iteration at which one of '
     'its stopping rules holds: both ADMM residuals below their primal and '
     'dual tolerances (AbsStopTol, RelStopTol), the PGM residual below '
     'RelStopTol or the automatic tolerance Tau0/(1+k), a callback returning '
     'a true value, or MaxMainIter iterations of this call; residual rules '
     'are inactive only where FastSolve skips the residuals (PGM, and ADMM '
     'without AutoRho). The iteration counter, the statistics list (one '
     'entry per iteration, numbered consecutively across calls, already '
     'including the current iteration when the callback is called), '
     'getitstat and the returned solution are those of that iteration, and '
     'a following call continues from there.',
     ['inputs', 'histories', 'configurations'],
     'all tolerances, limits, callback answers and option combinations '
     'within the bound, and the call that follows each stop',
     'Tests run solvers to a fixed limit or convergence; which of the rules '
     'stopped the run, and where, is never compared with the residuals.',
     ['sporco/admm', 'sporco/pgm', 'sporco/dictlrn'],
     [('ADMM.solve', 'sporco/admm/admm.py'), ('PGM.solve',
      'sporco/pgm/pgm.py'), ('DictLearn.solve', 'sporco/dictlrn/dictlrn.py'),
      ('ConvBPDNDictLearn_Consensus.solve', 'sporco/dictlrn/prlcnscdl.py')],
     'enumeration of every distinguishable stopping-rule configuration on '
     'the real solvers, the predicted stop computed from a long reference '
     'trace')

prop('C17', 'Performance and diagnostic options never change a result',
     'FastSolve, Verbose, StatusHeader, IterTimer, Callback (returning '
     'False), LinSolveCheck, HighMemSolve, AuxVarObj, fEvalX, gEvalY and '
     'AccurateDFid, in any combination and for any other configuration, '
     'and the per-iteration ones also when switched between two calls of '
     'solve, leave the sequence of iterates, the returned solution and the '
     'statistics that do not depend on them by definition unchanged. With '
     'Verbose off nothing is printed; with Verbose on exactly one row per '
     'iteration is printed, each column showing the recorded statistic its '
     'label names, framed by a header and rules exactly when StatusHeader '
     'is on.',
     ['configurations'],
     'all combinations of diagnostic options for every configuration within '
     'the bound',
     'Tests exercise these options one at a time, mostly for the absence of '
     'exceptions.',
     ['sporco/admm', 'sporco/pgm', 'sporco/dictlrn', 'sporco/common.py'],
     [('ADMM.solve, display_start, display_status', 'sporco/admm/admm.py'),
      ('PGM.solve, display_status', 'sporco/pgm/pgm.py'),
      ('DictLearn.solve', 'sporco/dictlrn/dictlrn.py'),
      ('solve_status_str', 'sporco/common.py')],
     'exhaustive enumeration of diagnostic option combinations on the real '
     'solvers with comparison of complete executions')

prop('C18', 'Inputs are left alone and solvers are independent',
     'Constructing, stepping and querying a solver never modifies an array '
     'it was given (data, dictionary, weights, masks, starting points, '
     'replacement dictionaries and coefficients), the options object it was '
     'given (except that dictionary learning constructors fill in the '
     'initial values X0/Y0/U0 of the dictionary update options), the class '
     'defaults, the global random number state or the floating point error '
     'state. Any number of solvers, of the same or different classes, '
     'sharing the same input and option objects, follow exactly their own '
     'course in every interleaving of construction and iteration.',
     ['histories', 'schedules'],
     'all interleavings of two solvers and all operations within the bound',
     'Tests use one solver at a time and do not compare inputs afterwards.',
     ['sporco/admm', 'sporco/pgm', 'sporco/dictlrn'],
     [('ADMM.__init__, solve', 'sporco/admm/admm.py'),
      ('PGM.__init__, solve', 'sporco/pgm/pgm.py'),
      ('stepsize and momentum policies', 'sporco/pgm/stepsize.py'),
      ('DictLearn', 'sporco/dictlrn/dictlrn.py')],
     'exhaustive exploration of interleavings of real solver instances '
     'against their solo executions',
     note='Process-parallel classes (parcbpdn, prlcnscdl) keep their arrays '
          'in module globals: see known findings.')

prop('C03', 'Parallel convolutional BPDN is the serial recursion whatever '
     'the processes do',
     'ParConvBPDN computes, at every iteration, exactly the iterate of the '
     'documented group-wise (multi-block) ADMM recursion, including '
     'relaxation, AutoRho, weights, non-negativity and boundary options, '
     'restarts, setdict and callbacks, and reports the statistics of that '
     'iterate. The result is the same for zero (in-process), one or any '
     'number of processes, for every assignment of tasks to worker '
     'processes, every completion order and every preemption of workers '
     'that run concurrently; groupings of the filters only change the '
     'recursion in the documented way.',
     ['schedules'],
     'every worker schedule of a solve within the bound',
     'Tests run one process pool with whatever schedule the operating '
     'system gives and compare final solutions loosely.',
     ['sporco/admm/parcbpdn.py'],
     [('ParConvBPDN', 'sporco/admm/parcbpdn.py'),
      ('par_xstep, par_relax_AX, y0astep, y1astep, par_y0bstep, par_y1bstep, '
       'par_u0step, par_u1step', 'sporco/admm/parcbpdn.py')],
     'stateless exploration of schedules of real worker processes under a '
     'controlled pool, against a dense model of the recursion')

prop('C04', 'Parallel consensus dictionary learning is one recursion for '
     'any processes',
     'ConvBPDNDictLearn_Consensus and ConvBPDNMaskDcplDictLearn_Consensus '
     'compute, at every iteration, exactly the iterate of the serial '
     'recursion they document: one ADMM step of the (masked) sparse coding '
     'of every training signal with the current dictionary, then one step of '
     'the consensus ADMM dictionary update with the new coefficients, with '
     'relaxation, starting points, penalties, mask, multi-channel '
     'dictionaries, filters of several sizes and the zero-mean constraint. '
     'The dictionary, coefficients, reconstruction and reported statistics '
     'are those of that iterate, however the iterations are divided between '
     'calls or ended by a callback, and are the same for in-process '
     'execution and for any number of worker processes, every assignment of '
     'signals to workers, every order and every preemption.',
     ['schedules', 'histories'],
     'every worker schedule and every split of a solve within the bound',
     'Tests run the real pool with whatever schedule the operating system '
     'gives and only check that a solve completes.',
     ['sporco/dictlrn/prlcnscdl.py'],
     [('ConvBPDNDictLearn_Consensus', 'sporco/dictlrn/prlcnscdl.py'),
      ('ConvBPDNMaskDcplDictLearn_Consensus',
       'sporco/dictlrn/prlcnscdl.py'),
      ('step_group, md_step_group', 'sporco/dictlrn/prlcnscdl.py')],
     'stateless exploration of schedules of real worker processes under a '
     'controlled pool, against a dense model of the recursion',
     note='The L1Weight, NonNegCoef and NoBndryCross options of the sparse '
          'coding are not used by these classes (they solve the problem in '
          'their documentation) and are not claimed.')

prop('C19', 'Dictionary learning alternates its two solvers and stays '
     'feasible',
     'Every dictionary learning solver starts from the projection of the '
     'given dictionary onto the constraint set (unit norm, support, zero '
     'mean where requested), and each outer iteration is exactly the '
     'configured number of iterations of its sparse coding solver, then of '
     'its dictionary update solver given the new coefficients, whose result '
     'is handed back to the coding solver; both keep their state across '
     'iterations. The dictionary is feasible at every iteration, the '
     'returned dictionary, coefficients and reconstruction are those of the '
     'last completed iteration for every division of the iterations between '
     'calls and every callback stop, and every reported statistic is that of '
     'the iteration it is attached to (with AccurateDFid, the value of the '
     'documented objective at the new dictionary and coefficients).',
     ['histories', 'configurations'],
     'every configuration and every history of calls within the bound',
     'Tests run a few configurations and check that the solve completes.',
     ['sporco/dictlrn'],
     [('DictLearn.solve, IterStatsConfig', 'sporco/dictlrn/dictlrn.py'),
      ('BPDNDictLearn', 'sporco/dictlrn/bpdndl.py'),
      ('WeightedBPDNDictLearn', 'sporco/dictlrn/wbpdndl.py'),
      ('ConvBPDNDictLearn', 'sporco/dictlrn/cbpdndl.py'),
      ('ConvBPDNMaskDictLearn', 'sporco/dictlrn/cbpdndlmd.py'),
      ('isfld, isxmap, isdmap, evlmap', 'sporco/dictlrn/common.py')],
     'exhaustive enumeration of configurations and call histories of the '
     'real solvers against a model that alternates the (separately checked) '
     'component solvers',
     note='The component solvers are decided by C13, C14 and C02; here they '
          'are the alphabet of the model.')

prop('C26', 'Online dictionary learning is the projected stochastic '
     'gradient recursion',
     'For every history of training calls, with signals of any size, number '
     'of channels and number of signals, and any mask per call, the '
     'dictionary of OnlineConvBPDNDictLearn and OnlineConvBPDNMaskDictLearn '
     'after each call is the projection onto the constraint set of the '
     'previous dictionary minus a / (b + i) times the gradient of the '
     '(masked) data fidelity term at the sparse code of the training data '
     'with the previous dictionary; the initial dictionary is the projection '
     'of the one given; and the reported statistics (objective of the coding '
     'step, residuals, constraint violation, dictionary change, step size) '
     'are those of that call.',
     ['histories'],
     'every history of calls over the alphabet of training data within the '
     'bound',
     'Tests train with one kind of signal for a few calls and check nothing '
     'but completion.',
     ['sporco/dictlrn/onlinecdl.py'],
     [('OnlineConvBPDNDictLearn.solve, init_vars, xstep, setcoef, dstep, '
       'iteration_stats', 'sporco/dictlrn/onlinecdl.py'),
      ('OnlineConvBPDNMaskDictLearn.solve, xstep, dstep',
       'sporco/dictlrn/onlinecdl.py')],
     'exhaustive exploration of call histories of the real solver against a '
     'dense model of the recursion',
     note='The sparse coding solver is decided by C13; real data only (the '
          'classes use real transforms). The CUDA option is not claimed.')

prop('C23', 'Signal and interpolation functions compute their definitions',
     'For every array shape, axis, data type and parameter: grad and gradT '
     'are the documented matrices (both boundary forms) along any axis, '
     'counted from either end, and are transposes of each other; '
     'tikhonov_filter returns the exact solution of its regularised problem '
     'on the symmetrically padded image and the complement, which sum to the '
     'image; gaussian is the normalised sampled Gaussian; '
     'local_contrast_normalise subtracts the local mean, divides by the '
     'bounded local norm and its outputs reconstruct the image; spnoise and '
     'rndmask corrupt or zero the requested fraction and produce no other '
     'values, whatever the random source yields; rgb2gray is the weighted '
     'sum of channels for single images and arrays of images of any type; '
     'bilinear_demosaic keeps sampled values and interpolates the others '
     'bilinearly; lstabsdev and lstmaxdev return optimal solutions; the '
     'Lanczos kernel, interpolation points and filters match their '
     'formulas. Inputs are never modified.',
     ['inputs'],
     'every input within the bound: linear functions on a full basis of '
     'every small shape, the others on every value combination',
     'Tests call each function on one random image and mostly check shapes.',
     ['sporco/signal.py', 'sporco/interp.py'],
     [('grad, gradT, tikhonov_filter, local_contrast_normalise, spnoise, '
       'rndmask, rgb2gray, gaussian', 'sporco/signal.py'),
      ('bilinear_demosaic, lstabsdev, lstmaxdev, lanczos_kernel, '
       'lanczos_filters, interpolation_points', 'sporco/interp.py')],
     'exhaustive enumeration of small inputs (and of the values drawn from '
     'the random source) on the real code against dense definitions',
     note='Demosaicing: the red and blue border outside the samples is only '
          'claimed for constant images; images below 4 x 4 are rejected by '
          'SciPy. Contrast normalisation: the local norm is claimed where '
          'the region is inside the image.')

prop('C24', 'Image quality metrics are exact for every data type',
     'For every pair of images of any shape, memory layout and numeric type, '
     'including integer types at their extremes and mixed types: mae, mse, '
     'snr, psnr (default, given and typed range), isnr and bsnr equal their '
     'definitions evaluated exactly, without overflow or wrap-around, with '
     'infinite values where a definition divides by zero; pamse and gmsd '
     '(score and quality map, with and without rescaling) equal their '
     'definitions with symmetric boundary extension. Inputs are never '
     'modified.',
     ['inputs'],
     'every pair of small images over the value alphabets of every type',
     'Tests compare one or two metrics on one random image.',
     ['sporco/metric.py'],
     [('mae, mse, snr, psnr, isnr, bsnr, pamse, gmsd', 'sporco/metric.py')],
     'exhaustive enumeration of small images per data type on the real code '
     'against exact evaluation of the definitions')

prop('C28', 'Dictionary tiling, bundled dictionaries and example images',
     'tiledict places every atom, and nothing else, at its place in the '
     'tiling for every dictionary layout, number of atoms and size '
     'specification, scaled to [0, 1]; convdicts returns fresh arrays of the '
     'shapes their names state; ExampleImages lists exactly the image files '
     'of a directory tree by group, raises IOError for any other, and '
     'returns each image cropped, scaled, converted, zoomed and turned to '
     'grey exactly as the constructor and call parameters say, a call '
     'parameter overriding the constructor parameter.',
     ['inputs', 'configurations'],
     'every combination of parameters within the bound',
     'Tests load one image with one set of parameters and do not inspect '
     'tilings.',
     ['sporco/util.py'],
     [('tiledict, convdicts, ExampleImages', 'sporco/util.py')],
     'exhaustive enumeration of parameters on the real code against a '
     'reference construction')

prop('C25', 'The sporco.cupy modules compute what their originals compute',
     'With the NumPy back end (no GPU present) every function and solver '
     'class reachable through sporco.cupy - array, cnvrep, linalg, fft, '
     'prox, signal, metric, util, the ADMM and PGM solver classes and online '
     'dictionary learning - is importable, accepts the same arguments and '
     'gives the same results, iterate by iterate for the solvers, as the '
     'original it is derived from.',
     ['inputs', 'configurations', 'histories'],
     'every input, layout and option combination within the bounds of the '
     'checks of the originals (C08 to C14, C23, C24, C26)',
     'The tests of sporco.cupy are skipped when cupy is not installed.',
     ['sporco/cupy/__init__.py', 'sporco/cupy/_np_util.py',
      'sporco/cupy/admm', 'sporco/cupy/pgm', 'sporco/cupy/dictlrn'],
     [('sporco_cupy_patch_module and the patched functions',
       'sporco/cupy/__init__.py')],
     'exhaustive enumeration of inputs, options and iterates on the real '
     'sporco.cupy modules, substituted for the originals, against the '
     'reference definitions and solver models',
     note='The GPU back end needs hardware and is not covered.')

prop('C27', 'Working precision: variables have the requested data type',
     'For every solver and dictionary learning class (except plug-and-play '
     'priors), layout and option: with single (double) precision data, or '
     'with a single (double) precision DataType whatever the precision of '
     'the data, every primary, auxiliary and dual variable, every accessor '
     'and every result has exactly that precision at every iteration - it '
     'is never silently promoted or demoted - and its value agrees with the '
     'double precision run to the accuracy of the precision.',
     ['configurations', 'histories'],
     'every class and layout, all combinations of up to 2 non-default '
     'options, 4 data/DataType modes, every iteration',
     'Tests check the data type of the result of one configuration of some '
     'classes.',
     ['sporco/common.py', 'sporco/admm', 'sporco/pgm', 'sporco/dictlrn'],
     [('IterativeSolver.set_dtype', 'sporco/common.py'),
      ('DataType option of the solver classes', 'sporco/admm/admm.py')],
     'exhaustive enumeration of options, data type modes and iterates on '
     'the real code, monitored at every iteration against the requested '
     'type and the double precision run')

prop('C22', 'What a solver returns when it stops is a solution of its problem',
     'When an ADMM or PGM solver for a convex problem stops because its '
     'stopping criterion holds (rather than at the iteration limit), its '
     'variables satisfy the optimality conditions of the documented problem '
     '- with the documented constraints, weights and masks, for every '
     'option and layout - to the accuracy of the stopping tolerance; and '
     'all the solver classes that can express the same problem attain the '
     'same smallest objective function value.',
     ['inputs', 'configurations', 'histories'],
     'every convex ADMM and PGM solver class and layout, at most 1 (2) '
     'non-default options, 1500 iterations; all solvers of 4 families of '
     'equivalent problems with 3000 iterations',
     'Tests compare one solver with one generating signal or with one other '
     'solver for one option set.',
     ['sporco/admm', 'sporco/pgm'],
     [('stopping criteria', 'sporco/admm/admm.py'),
      ('stopping criteria and backtracking', 'sporco/pgm/pgm.py')],
     'exhaustive enumeration of solver classes, layouts and options, each '
     'run of the real code explored to its terminal state, which must be a '
     'fixed point of the dense model of its problem and attain the smallest '
     'objective over all solvers of the problem',
     note='That the criterion is met within a given number of iterations is '
     'not claimed; nonconvex problems are excluded.')

prop('C20', 'Equivalent ways of stating a problem give the same solver',
     'Every restatement of the same problem gives the same iterates, '
     'statistics and results, for every solver and dictionary learning '
     'class: options omitted, given empty, copied or set item by item in '
     'any order; arrays in any memory layout or read-only; scalars of any '
     'numeric type; weights and masks given as scalars, with singleton axes '
     'or in full, masks of any numeric type or omitted; arguments by '
     'position or keyword; and the solver selected by a method label or by '
     'its class. Omitted parameters (regularisation, penalty, step size, '
     'inhibition parameters) equal their documented or defining formulas, '
     'and unknown labels or labels contradicting the options raise '
     'ValueError.',
     ['inputs', 'configurations'],
     'every solver and dictionary learning class and layout; every single '
     'restatement and pairs of restatements of different arguments; every '
     'subset of singleton axes of weights and masks; 3 iterations; every '
     'label and pair of labels of the dispatch functions',
     'Tests use one statement of each problem (contiguous double precision '
     'arrays, explicit options).',
     ['sporco/admm', 'sporco/pgm', 'sporco/dictlrn', 'sporco/cnvrep.py'],
     [('constructors of all solver classes', 'sporco/admm/cbpdn.py'),
      ('ConvBPDNDictLearn, ConvBPDN, ConvCnstrMOD dispatch',
       'sporco/dictlrn/cbpdndl.py'), ('mskWshape', 'sporco/cnvrep.py')],
     'exhaustive enumeration of restatements of bounded problems, the real '
     'solver run on each and its whole trajectory compared with that of the '
     'reference statement',
     note='The default penalty of CMOD, CCMOD and the convolutional total '
     'variation classes is not claimed.')

prop('C21', 'User-defined solvers follow the framework they derive from',
     'A solver obtained by deriving from ADMM, ADMMEqual, '
     'ADMMTwoBlockCnstrnt, ADMMConsensus, WeightedADMMConsensus, PGM or '
     'PGMDFT and defining only the methods their documentation requires '
     'follows the documented algorithm on the problem so defined: the '
     'iterates, penalty or step size, residuals, tolerances and objective '
     'terms of every iteration are those of the algorithm, for every '
     'combination of options and of problem features (constraint '
     'matrices and constants, dimensions of the blocks, block axis, number '
     'of consensus blocks and weights).',
     ['inputs', 'configurations', 'histories'],
     'solvers defined on each framework class with only the required '
     'methods; all combinations of options; 4-5'
     '  iterations from several starting points',
     'Tests derive at most one trivial solver from some of these classes.',
     ['sporco/admm/admm.py', 'sporco/pgm/pgm.py'],
     [('ADMM, ADMMEqual, ADMMTwoBlockCnstrnt, ADMMConsensus',
       'sporco/admm/admm.py'), ('PGM, PGMDFT', 'sporco/pgm/pgm.py')],
     'exhaustive enumeration of problems and options; every transition of '
     'the real framework code compared with the reference recursion')
