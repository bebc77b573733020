"""C21: user-defined solvers built on the generic framework classes."""
from mc import conform, pconform
from mc.cat_user import ADMM_ENTRIES, PGM_ENTRIES
from mc.checks.c02 import devs

PROPERTY = 'C21'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 600
BOUNDS = {'quick': 'solvers defined with only the required methods on each '
                   'generic framework class; all combinations of options '
                   'and problem features, every problem also enlarged in '
                   'each dimension in turn; 4 (5) iterations',
          'thorough': 'larger option axes'}


def scenarios(tier):
    out = []
    for e in ADMM_ENTRIES + PGM_ENTRIES:
        ps = e().probs(tier)
        for p in ps + [q for p in ps for q in conform.enlarged(p)]:
            out.append(dict(ent=e.__name__, p=p, tier=tier, key='%s/%s' % (
                e.name, p['key'])))
    return out


def run(scn, rec):
    ent = [e for e in ADMM_ENTRIES + PGM_ENTRIES
           if e.__name__ == scn['ent']][0]()
    ad = type(ent) in ADMM_ENTRIES
    p, tier = scn['p'], scn['tier']
    for o in devs(ent.axes(tier, p), 2 if '+' in p['key'] else 9):
        if hasattr(ent, 'valid') and not ent.valid(p, o):
            continue
        (conform if ad else pconform).run_cfg(ent, p, o, rec,
                                              {'iter', 'stat'})
        if len(rec.violations) >= 20:
            break
