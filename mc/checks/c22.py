"""C22: what a solver returns when it stops is a solution of its problem."""
import numpy as np
from mc import conform
from mc.agree import FAMILIES as AGREE, ITER, NIT
from mc.checks import c13, c14
from mc.checks.c02 import devs

PROPERTY = 'C22'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 800
BOUNDS = {
    'quick': 'every convex ADMM solver class, every problem layout, at most '
             '1 non-default option, and every PGM solver class with at most '
             '2, run until the stopping criterion holds (at most 1500 '
             'iterations); every pair of solvers of equivalent problems',
    'thorough': 'at most 2 (3) non-default options, at most 5000 iterations'}
NONCONVEX = ('Inhib', 'CnstrMOD', 'CCMod')
N = {'quick': 1500, 'thorough': 5000}


def scenarios(tier):
    out = []
    for e in c13.entries():
        if any(s in e.__name__ for s in NONCONVEX):
            continue
        for p in e().probs('quick'):
            out.append(dict(part='admm', ent=e.__name__, p=p, tier=tier,
                            key='%s/%s' % (e.name, p['key'])))
    for e in c14.entries():
        if 'CnstrMOD' in e.__name__ or 'PPP' in e.__name__:
            continue
        for p in e().probs('quick'):
            out.append(dict(part='pgm', ent=e.__name__, p=p, tier=tier,
                            key='%s/%s' % (e.name, p['key'])))
    for n in sorted(AGREE):
        for p in AGREE[n].probs():
            out.append(dict(part='agree', ent=n, p=p, tier=tier,
                            key='agree:%s/%s' % (n, p['key'])))
    return out


def run(scn, rec):
    p, part, tier = scn['p'], scn['part'], scn['tier']
    if part == 'agree':
        return agree(AGREE[scn['ent']], p, rec, tier)
    mod = c13 if part == 'admm' else c14
    ent = [e for e in mod.entries() if e.__name__ == scn['ent']][0]()
    ax = ent.axes('quick', p)
    if 'AutoRho' in ax:
        ax['AutoRho'] = [a for a in ax['AutoRho'] if a != 'p1']
    if 'Backtrack' in ax:
        # variants with a guarantee of convergence
        ax['Backtrack'] = ['none', 'S', 'R']
        ax['StepSizePolicy'] = ['none']
        ax['Momentum'] = [a for a in ax['Momentum'] if a[0] in 'NL']
        ax['L'] = [max(ax['L'])]
    n = (1 if part == 'admm' else 2) + (tier != 'quick')
    for o in devs(ax, n):
        if hasattr(ent, 'valid') and not ent.valid(p, o):
            continue
        (admm if part == 'admm' else pgm)(ent, p, o, rec, N[tier])
        if len(rec.violations) > 10:
            break


def admm(ent, p, o, rec, n):
    name = '%s %s [%s]' % (ent.name, p['key'], conform.ostr(o))
    m = conform.model(ent, p, o)
    rec.trace()
    b = ent.build(p, o, {'MaxMainIter': n, 'RelStopTol': 1e-6,
                         'AbsStopTol': 1e-9})
    b.solve()
    c = ent.core(b)
    its = c.getitstat()
    k = len(its.Iter)
    rec.state(k)
    rec.step(k)
    if k >= n:
        rec.count('not_converged')
        return
    rec.count('converged')
    x, y, u = [np.array(v) for v in ent.get(b)]
    st = {'x': x, 'y': y, 'u': u, 'rho': float(c.rho)}
    if hasattr(m, 'hidden0'):
        st.update(m.hidden0(b, st))
    # optimality conditions: a fixed point of the iteration of the problem
    q = m.step(st, 1.0)
    for nm, v in (('x', x), ('y', y), ('u', u)):
        ok, msg = conform.close(v, q[nm], 1e-3)
        if not ok:
            rec.violate('not-optimal', '%s: stopped after %d iterations at '
                        '%s: %s' % (name, k, nm, msg))
            return
    rec.outcome(y)


def pgm(ent, p, o, rec, n):
    name = '%s %s [%s]' % (ent.name, p['key'], conform.ostr(o))
    m = ent.spec(p, o)
    rec.trace()
    b = ent.build(p, o, {'MaxMainIter': n, 'RelStopTol': 1e-14 if ent.dft else 1e-7})
    b.solve()
    its = b.getitstat()
    k = len(its.Iter)
    rec.state(k)
    rec.step(k)
    if k >= n:
        rec.count('not_converged')
        return
    rec.count('converged')
    x = np.array(b.getmin())
    if np.linalg.norm(m.Am(), 2)**2 > o['L'] and o['Backtrack'] == 'none':
        raise RuntimeError('L below the Lipschitz constant')
    # optimality conditions: a fixed point of the proximal gradient map
    L = max(float(np.linalg.norm(m.Am(), 2))**2, 1.0)
    q = m.prox(x - m.grad(x) / L, L)
    ok, msg = conform.close(x, q, 1e-3)
    if not ok:
        rec.violate('not-optimal', '%s: stopped after %d iterations: %s'
                    % (name, k, msg))
    rec.outcome(x)


def agree(fam, q, rec, tier):
    """Every solver attains the smallest objective function value."""
    val = []
    for nm, f in fam.cases(q):
        rec.trace()
        rec.state()
        rec.step()
        try:
            x = f()
        except Exception as e:
            rec.violate('exception', '%s %s: %s: %s' % (
                nm, q['key'], type(e).__name__, str(e)[:200]))
            continue
        if ITER[0] + 1 >= NIT[0]:
            rec.count('not_converged')
            continue
        rec.count('converged')
        val.append((fam.obj(q, x), nm))
        rec.outcome(x)
    lo = min(val) if val else None
    for v, nm in val:
        if not v <= lo[0] + 1e-3 * (1.0 + lo[0]):
            rec.violate('not-minimal', '%s %s: objective function value '
                        '%.6g, %.6g attained by %s' % (
                            nm, q['key'], v, lo[0], lo[1]))
