"""C14: PGM solvers follow the accelerated proximal gradient recursion."""
from mc import conform, pconform
from mc.checks.c13 import LARGE, SWITCH

PROPERTY = 'C14'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 600
BOUNDS = {'quick': 'all PGM solver classes, every problem layout of the '
                   'catalogue, all combinations of at most 3 non-default '
                   'policies/options, 5 iterations, each also with '
                   'FastSolve; all with at most 1, 24 iterations; every '
                   'layout enlarged in each dimension in turn; the momentum '
                      'rules over 2000 steps for every parameter of a grid; '
                      'every parameter (regularisation, step size, scale of '
                      'the data) zero, small and large; '
                      'the dictionary or coefficient array replaced before '
                      'the first and the third iteration',
          'thorough': 'all combinations of at most 5 non-default options, '
                      'more policies and layouts; at most 2, 60 iterations; 20000 momentum '
                        'steps'}
CHECKS = {'iter'}
MAXDEV = {'quick': 3, 'thorough': 5}
# long traces: iterations and number of policies/options not at their default
DEEP = {'quick': (24, 1), 'thorough': (60, 2)}


def entries():
    from mc import cat_pgm
    return cat_pgm.ENTRIES


def scenarios(tier):
    out = [{'key': 'pgm/momentum/%s' % m, 'mom': m, 'tier': tier}
           for m in ('Nesterov', 'Linear', 'GenLinear')]
    for e in entries():
        ent = e()
        for p in ent.probs(tier):
            ax = ent.axes(tier, p)
            for a in ax['Backtrack']:
                for b in ax['StepSizePolicy']:
                    out.append({'key': 'pgm/%s/%s/%s/%s' % (
                        ent.name, p['key'], a, b), 'pgm': e.__name__, 'p': p,
                        'fix': {'Backtrack': a, 'StepSizePolicy': b},
                        'tier': tier})
            out.append({'key': 'pgm/%s/%s/deep' % (ent.name, p['key']),
                        'pgm': e.__name__, 'p': p, 'fix': {}, 'tier': tier,
                        'deep': DEEP[tier]})
            if conform.switching(e(), 0):
                for k0 in SWITCH[tier]:
                    out.append({'key': 'pgm/%s/%s/switch/%d' % (
                        ent.name, p['key'], k0), 'pgm': e.__name__, 'p': p,
                        'fix': {'Monotone': False} if k0 else {},
                        'tier': tier, 'switch': k0,
                        'maxdev': 1 if tier == 'quick' else 2})
            for tag, ch in conform.varied(ent):
                out.append({'key': 'pgm/%s/%s/%s' % (ent.name, p['key'], tag),
                            'pgm': e.__name__, 'p': p, 'fix': {},
                            'tier': tier, 'vary': ch,
                            'maxdev': 1 if tier == 'quick' else 2})
            for q in conform.enlarged(p):
                out.append({'key': 'pgm/%s/%s/large' % (ent.name, q['key']),
                            'pgm': e.__name__, 'p': q, 'fix': {},
                            'tier': tier, 'maxdev': LARGE(tier, q)})
    return out


def momentum(scn, rec):
    """the coefficient sequences of the momentum rules"""
    import math
    from sporco.pgm import momentum as mm
    n = 2000 if scn['tier'] == 'quick' else 20000
    c = getattr(mm, 'Momentum' + scn['mom'])

    def check(w, got, want):
        if not (isinstance(got, (int, float)) and
                abs(got - want) <= 1e-12 * want):
            rec.violate('momentum', '%s: %r instead of %r' % (w, got, want))
            return False
        return True
    if scn['mom'] == 'Nesterov':
        a, b = c(), c()
        t = 1.0
        for k in range(n):
            q = 0.5 * (1 + math.sqrt(1 + 4 * t * t))
            rec.step()
            for m in (a, b):
                if not check('Nesterov step %d' % k, m.update(t), q):
                    return
            t = q
        rec.trace()
        for v in (0.25, 0.5, 1, 1.0, 2, 1e3, 1e6, 1e9):
            check('Nesterov from %r' % v, a.update(v),
                  0.5 * (1 + math.sqrt(1 + 4 * v * v)))
        rec.state(n)
        return
    pars = [(), (2.0,), (2,), (3.0,), (20.5,)] if scn['mom'] == 'Linear' \
        else [(), (50.0,), (4,), (4.0, 3.0), (1.5, 2.5)]
    for p in pars:
        m = c(*p)
        rec.trace()
        if scn['mom'] == 'Linear':
            b = p[0] if p else 2.0
            A, B = b, b
        else:
            A = p[0] if p else 50.0
            B = p[1] if len(p) > 1 else 2.0
        rec.state(n)
        for k in range(n):
            rec.step()
            if not check('%s%r step %d' % (scn['mom'], p, k), m.update(k),
                         (k + A) / B):
                return


def run(scn, rec, checks=CHECKS):
    if 'mom' in scn:
        return momentum(scn, rec) if 'iter' in checks else None
    ent = [e for e in entries() if e.__name__ == scn['pgm']][0]()
    p = scn['p']
    if 'vary' in scn:
        conform.vary(ent, scn['vary'])
        ent.variant = str(scn['vary'])
    full = ent.axes(scn['tier'], p)
    if scn.get('deep'):
        n, scn['maxdev'] = scn['deep']
        conform.deepen(ent, n)
    if 'switch' in scn:
        conform.switching(ent, scn['switch'])
    axes = full.copy()
    for k in scn['fix']:
        axes[k] = [scn['fix'][k]]
    for o in conform.cfgs(axes):
        if sum(o[k] != full[k][0] for k in full) > scn.get(
                'maxdev', MAXDEV[scn['tier']]):
            continue
        if not ent.valid(p, o):
            continue
        pconform.run_cfg(ent, p, o, rec, checks)
        if len(rec.violations) >= 20:
            break
    rec.sample = {'class': ent.name, 'problem': p['key'], 'fixed': scn['fix'],
                  'axes': {k: [str(x) for x in axes[k]] for k in axes}}
