"""C13: ADMM solvers follow the ADMM recursion of their problem."""
from mc import conform
from mc import cat_admm as ca

PROPERTY = 'C13'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 600
BOUNDS = {'quick': 'all ADMM solver classes, every problem layout of the '
                   'catalogue, all combinations of at most 3 non-default '
                   'options, 4 iterations, each also with FastSolve; all '
                   'with at most 1 non-default option, 24 iterations; '
                   'every layout enlarged in each dimension in turn (at '
                   'least 5 signals, channels, terms, 7 filters); every '
                   'parameter (regularisation, constraint, penalty, scale '
                   'of the data) zero, small and large; the '
                   'dictionary or coefficient array replaced before the '
                   'first and the third iteration',
          'thorough': 'full product of larger option axes, more layouts; '
                      'at most 2 non-default options, 60 iterations'}
CHECKS = {'iter'}
# quick bound: number of options that differ from their default value
MAXDEV = 3


def LARGE(tier, q):
    """number of non-default options for an enlarged problem"""
    return (1 if tier != 'quick' or not (q['key'].endswith('+N') and
                                         'M' in q) else 0)


# iterations after which the dictionary is replaced
SWITCH = {'quick': (0, 2), 'thorough': (0, 1, 2, 3)}
# long traces: iterations and number of options not at their default
DEEP = {'quick': (24, 1), 'thorough': (60, 2)}


def entries():
    from mc import cat_admm, cat_admm2
    return cat_admm2.ENTRIES


def scenarios(tier):
    out = []
    for e in entries():
        ent = e()
        for p in ent.probs(tier):
            ax = ent.axes(tier, p)
            # split on the two first axes to balance the work
            names = list(ax)
            for a in ax[names[0]]:
                for b in ax[names[1]]:
                    out.append({'key': '%s/%s/%s/%s' % (
                        ent.name, p['key'], a, b), 'ent': e.__name__, 'p': p,
                        'fix': {names[0]: a, names[1]: b}, 'tier': tier})
            out.append({'key': '%s/%s/deep' % (ent.name, p['key']),
                        'ent': e.__name__, 'p': p, 'fix': {}, 'tier': tier,
                        'deep': DEEP[tier]})
            if conform.switching(e(), 0):
                for k0 in SWITCH[tier]:
                    out.append({'key': '%s/%s/switch/%d' % (
                        ent.name, p['key'], k0), 'ent': e.__name__, 'p': p,
                        'fix': {}, 'tier': tier, 'switch': k0,
                        'maxdev': 1 if tier == 'quick' else 2})
            for tag, ch in conform.varied(ent):
                out.append({'key': '%s/%s/%s' % (ent.name, p['key'], tag),
                            'ent': e.__name__, 'p': p, 'fix': {},
                            'tier': tier, 'vary': ch,
                            'maxdev': 0 if tier == 'quick' else 1})
            for q in conform.enlarged(p):
                out.append({'key': '%s/%s/large' % (ent.name, q['key']),
                            'ent': e.__name__, 'p': q, 'fix': {},
                            'tier': tier, 'maxdev': LARGE(tier, q)})
    return out


def run(scn, rec, checks=CHECKS):
    ent = [e for e in entries() if e.__name__ == scn['ent']][0]()
    p = scn['p']
    full = ent.axes(scn['tier'], p)
    if scn.get('deep'):
        n, scn['maxdev'] = scn['deep']
        conform.deepen(ent, n)
        full['AutoRho'] = full['AutoRho'] + ['d10', 'p7', 'p4std']
    if 'vary' in scn:
        conform.vary(ent, scn['vary'])
        ent.variant = str(scn['vary'])
    if 'switch' in scn:
        conform.switching(ent, scn['switch'])
    axes = full.copy()
    for k in scn['fix']:
        axes[k] = [scn['fix'][k]]
    for o in conform.cfgs(axes):
        if sum(o[k] != full[k][0] for k in full) > scn.get(
                'maxdev', MAXDEV if scn['tier'] == 'quick' else 99):
            continue
        if hasattr(ent, 'valid') and not ent.valid(p, o):
            continue
        conform.run_cfg(ent, p, o, rec, checks)
        if len(rec.violations) >= 20:
            break
    rec.sample = {'class': ent.name, 'problem': p['key'], 'fixed': scn['fix'],
                  'axes': {k: [str(x) for x in axes[k]] for k in axes}}
