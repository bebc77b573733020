"""C25: the modules of sporco.cupy compute what their originals compute."""
import importlib
import sys

PROPERTY = 'C25'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 900
BOUNDS = {
    'quick': 'the checks of the function modules (array, cnvrep, linalg, fft, '
             'prox, signal, metric) on a third of their scenarios, and every '
             'solver class of sporco.cupy on every problem layout with at '
             'most 2 non-default options, NumPy back end',
    'thorough': 'all scenarios of the function modules and of the online '
                'dictionary learning class'}

MODS = ['array', 'cnvrep', 'common', 'linalg', 'fft', 'prox', 'signal',
        'metric', 'util', 'admm.admm', 'admm.rpca', 'admm.tvl1',
        'admm.tvl2', 'admm.bpdn', 'admm.cbpdn', 'admm.cbpdnin',
        'admm.cbpdntv', 'admm.pdcsc', 'pgm.pgm', 'pgm.backtrack',
        'pgm.momentum', 'pgm.stepsize', 'pgm.cbpdn', 'dictlrn.onlinecdl']
ADMM = {'sporco.admm.' + m for m in ('rpca', 'tvl1', 'tvl2', 'bpdn', 'cbpdn',
                                     'cbpdnin', 'cbpdntv', 'pdcsc')}


def substitute():
    """Put the modules of sporco.cupy in the place of the originals, once per
    process."""
    if getattr(substitute, 'done', False):
        return
    for p in ('cupy', 'cupy.admm', 'cupy.pgm', 'cupy.dictlrn'):
        importlib.import_module('sporco.' + p)
    import sporco
    import sporco.cupy as sc
    if sc.cupy_enabled():
        raise RuntimeError('a GPU back end is not expected here')
    for p in ('sporco.admm', 'sporco.pgm', 'sporco.dictlrn'):
        importlib.import_module(p)
    for m in MODS:
        importlib.import_module('sporco.' + m)
        par, _, leaf = m.rpartition('.')
        new = sys.modules['sporco.cupy.' + m]
        sys.modules['sporco.' + m] = new
        setattr(sys.modules['sporco.' + par if par else 'sporco'], leaf, new)
    substitute.done = True


def home(e):
    """The module of the solver class of a catalogue entry."""
    ent = e()
    p = ent.probs('quick')[0]
    ax = ent.axes('quick', p)
    o = {k: ax[k][0] for k in ax}
    return type(ent.build(p, o)).__module__


FN = {'c08': 1, 'c09': 1, 'c10': 1, 'c11': 1, 'c12': 1, 'c23': 1, 'c24': 1}


def scenarios(tier):
    out = []
    for c in FN:
        mod = importlib.import_module('mc.checks.' + c)
        # (call histories start interpreters of their own, on the originals)
        s = [x for x in mod.scenarios(tier)
             if not x['key'].startswith('history/')]
        for k, x in enumerate(s):
            if tier == "quick" and k % 3:
                continue
            out.append(dict(mod=c, scn=x, key='%s:%s' % (c, x['key'])))
    md = 2
    from mc.checks import c13, c14, c26
    keep = {}
    for x in c13.scenarios('quick'):
        e = x['ent']
        if e not in keep:
            keep[e] = home([y for y in c13.entries()
                            if y.__name__ == e][0]) in ADMM
        if keep[e]:
            out.append(dict(mod='c13', scn=dict(x, maxdev=min(md, x.get('maxdev', md))),
                            key='admm:' + x['key']))
    for x in c14.scenarios('quick'):
        if x.get('pgm') in ('ConvBPDN', 'ConvBPDNMask'):
            out.append(dict(mod='c14', scn=dict(x, maxdev=min(md, x.get('maxdev', md))),
                            key=x['key']))
    for k, x in enumerate(c26.scenarios('quick')):
        if tier != 'quick' or k % 6 == 0:
            out.append(dict(mod='c26', scn=x, key='onlinecdl:' + x['key']))
    return out


def run(scn, rec):
    substitute()
    mod = importlib.import_module('mc.checks.' + scn['mod'])
    mod.run(scn['scn'], rec)
