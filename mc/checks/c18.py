"""C18: solvers leave their inputs alone and do not influence each other."""
import copy
import itertools
import re
import numpy as np
from mc.checks.c02 import ents, devs, build, snap, same, setmax, DLOPT

PROPERTY = 'C18'
LEVEL = 'model_checking'
SCENARIO_LIMIT = 600
N = {'quick': 2, 'thorough': 3}
BOUNDS = {
    'quick': 'every solver and dictionary learning class, base configuration '
             'plus each single non-default option: inputs compared before '
             'and after every operation; all 10 interleavings of '
             'constructing and stepping (2 steps) two solvers sharing the '
             'same input and option objects, and of two solvers with '
             'different options; every ordered pair of classes interleaved',
    'thorough': '3 steps (35 interleavings), all pairs of non-default '
                'options'}


def scenarios(tier):
    out = []
    E = ents()
    for nm, e in E.items():
        ps = e.probs(tier)
        if tier == 'quick':
            ps = ps[:1] + [p for p in ps[1:] if p['key'] == '2dCdK']
        for p in ps:
            if nm[0] == 'd':
                for i in range(len(DLOPT)):
                    out.append({'key': '%s/%s/%d' % (nm, p['key'], i),
                                'e': nm, 'p': p, 'dl': i, 'tier': tier})
                continue
            ax = e.axes(tier, p)
            for i, o in enumerate(devs(ax, 1 if tier == 'quick' else 2)):
                if hasattr(e, 'valid') and not e.valid(p, o):
                    continue
                out.append({'key': '%s/%s/%s' % (
                    nm, p['key'], ','.join('%s=%s' % (k, o[k]) for k in o
                                           if o[k] != ax[k][0])),
                    'e': nm, 'p': p, 'o': o, 'tier': tier})
    for nm in E:
        out.append({'key': 'pairs/' + nm, 'pairs': nm, 'tier': tier})
    return out


# --------------------------------------------------------------- capturing
class Capture(object):
    """records the arguments of the outermost solver constructor call"""
    def __init__(self):
        from sporco.admm import admm
        from sporco.pgm import pgm
        from sporco.dictlrn import dictlrn, prlcnscdl
        from sporco.admm import cbpdn
        self.metas = set(type(c) for c in (
            admm.ADMM, pgm.PGM, dictlrn.DictLearn,
            prlcnscdl.ConvBPDNDictLearn_Consensus)) - {type}
        self.cls, self.args, self.kw, self.depth = None, None, None, 0

    def __enter__(self):
        self.old = {}
        cap = self
        for m in self.metas:
            old = m.__call__

            def call(cls, *args, _old=old, **kw):
                if cap.depth == 0 and cap.cls is None:
                    cap.cls, cap.args, cap.kw = cls, args, kw
                    cap.inp = Inputs((args, kw))
                cap.depth += 1
                try:
                    return _old(cls, *args, **kw)
                finally:
                    cap.depth -= 1
            self.old[m] = m.__dict__.get('__call__')
            m.__call__ = call
        return self

    def __exit__(self, *a):
        for m, o in self.old.items():
            if o is None:
                del m.__call__
            else:
                m.__call__ = o


def leaves(v, path, out):
    if isinstance(v, np.ndarray):
        out.append((path, v))
    elif isinstance(v, dict):
        for k in v:
            leaves(v[k], '%s[%r]' % (path, k), out)
    elif isinstance(v, (tuple, list)):
        for i, x in enumerate(v):
            leaves(x, '%s[%d]' % (path, i), out)
    elif v is None or isinstance(v, (int, float, complex, str, np.generic,
                                     np.dtype)):
        out.append((path, v))
    elif hasattr(v, '__dict__') and type(v).__module__.startswith('sporco'):
        leaves(v.__dict__, path + '.', out)


# entries of the options given to a dictionary learning class that its
# constructor is there to fill in
INITIAL = re.compile(r"\['(CMOD|CCMOD)'\]\['(X0|Y0|U0)'\]")


class Inputs(object):
    def __init__(self, obj):
        self.obj = obj
        out = []
        leaves(obj, '', out)
        out = [x for x in out if not INITIAL.search(x[0])]
        self.was = [(p, v, v.copy() if isinstance(v, np.ndarray) else v)
                    for p, v in out]

    def changed(self):
        now = []
        leaves(self.obj, '', now)
        now = [x for x in now if not INITIAL.search(x[0])]
        if len(now) != len(self.was):
            return 'entries added to or removed from an option or argument'
        for (p, v, c), (p2, v2) in zip(self.was, now):
            if p != p2:
                return 'entries added to or removed from %s' % p
            if isinstance(c, np.ndarray):
                if v2 is not v or v.dtype != c.dtype or v.shape != c.shape \
                        or v.tobytes() != c.tobytes():
                    return 'array argument %s modified' % p
            elif type(v2) is not type(c) or (v2 != c and not (
                    v2 != v2 and c != c)):
                return 'argument %s changed from %r to %r' % (p, c, v2)
        return None


def defaults(cls):
    out = []
    for c in cls.__mro__:
        for nm, v in c.__dict__.items():
            if nm == 'Options':
                for b in v.__mro__:
                    if 'defaults' in b.__dict__:
                        out.append(b.__dict__['defaults'])
    return Inputs(out)


def pub(b):
    """every array and number reachable from a solver object"""
    return b


def glob():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], sorted(np.geterr().items()))


# ------------------------------------------------------------------ checks
def run(scn, rec):
    if 'pairs' in scn:
        return pairs(scn, rec)
    nm = scn['e']
    e = ents()[nm]
    try:
        untouched(nm, e, scn, rec)
        interleave(nm, e, scn, rec)
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        rec.violate('exception', '%s: %s: %s (%s:%d)' % (
            scn['key'], type(ex).__name__, ex, tb.filename, tb.lineno))


def untouched(nm, e, scn, rec):
    n = 3
    g0 = glob()
    with Capture() as cap:
        b = build(nm, e, scn, {'MaxMainIter': 1})
    if cap.cls is None:
        rec.violate('no-constructor', scn['key'])
        return
    core = e.core(b) if nm[0] == 'a' else b
    dfl = defaults(type(core))
    bad = []

    def chk(what):
        rec.state()
        rec.step()
        m = cap.inp.changed() or dfl.changed()
        if m is None and glob() != g0:
            m = 'global random number or floating point error state changed'
        if m:
            bad.append('%s: %s' % (what, m))
    # setmax() goes through the solver's own options, which by design are
    # the options object it was given; so only fixed-length calls are made
    chk('construction')
    for i in range(n):
        b.solve()
        chk('iteration %d' % i)
        if bad:
            break
    ops = []
    for meth in ('reconstruct', 'getitstat', 'getmin', 'getcoef', 'getdict',
                 'eval_objfn', 'var_x', 'var_y', 'var_u', 'block_sep0'):
        if hasattr(b, meth):
            ops.append(meth)
    for meth in ops:
        try:
            getattr(b, meth)()
        except TypeError:
            continue
        chk(meth + '()')
    if hasattr(b, 'reconstruct') and nm[0] in 'ap' and \
            hasattr(b, 'getmin'):
        X = b.getmin()
        if isinstance(X, np.ndarray):
            X = X.copy()
            c = X.copy()
            try:
                b.reconstruct(X)
                if not np.array_equal(X, c):
                    bad.append('reconstruct modified its argument')
            except Exception:
                pass
            chk('reconstruct(X)')
    for meth, attr in (('setdict', 'D'), ('setcoef', 'Z')):
        if scn.get('o', {}).get('late'):
            break
        if hasattr(b, meth) and isinstance(getattr(b, attr, None),
                                           np.ndarray):
            a = np.array(getattr(b, attr)) * 1.1
            c = a.copy()
            getattr(b, meth)(a)
            chk(meth)
            for i in range(2):
                b.solve()
                chk('iteration after ' + meth)
            if not np.array_equal(a, c):
                bad.append('%s: argument modified' % meth)
    rec.trace()
    if bad:
        rec.violate('input-modified', '%s: %s' % (scn['key'], bad[0]))


def orders(n):
    """interleavings of n steps of A and (construct B, n steps of B)"""
    m = 2 * n + 1
    for pos in itertools.combinations(range(m), n):
        yield ''.join('A' if i in pos else 'B' for i in range(m))


def interleave(nm, e, scn, rec):
    n = N[scn['tier']]

    def solo(s):
        b = build(nm, e, s, {'MaxMainIter': 1})
        out = [snap(nm, e, b)] if nm[0] != 'p' else [None]
        for i in range(n):
            b.solve()
            out.append(snap(nm, e, b))
        return out
    ref = solo(scn)
    if nm[0] == 'd':
        other = dict(scn, dl=(scn['dl'] + 1) % len(DLOPT))
    else:
        ax = e.axes(scn['tier'], scn['p'])
        other = dict(scn, o={k: ax[k][0] for k in ax})
        if hasattr(e, 'valid') and not e.valid(scn['p'], other['o']):
            other = scn
    oref = solo(other)
    modes = ['shared'] + (['other'] if other != scn else [])
    for mode in modes:
        for order in orders(n):
            with Capture() as cap:
                a = build(nm, e, scn, {'MaxMainIter': 1})
            b = None
            ia = ib = 0
            rec.trace()
            for t in order:
                rec.step()
                rec.state()
                if t == 'A':
                    a.solve()
                    ia += 1
                    obj, want = a, ref[ia]
                elif b is None:
                    if mode == 'other' or cap.cls is None or \
                            nm == 'a:AddMaskSim' or \
                            scn.get('o', {}).get('late'):
                        b = build(nm, e, other if mode == 'other' else scn,
                                  {'MaxMainIter': 1})
                    else:
                        b = cap.cls(*cap.args, **cap.kw)
                    continue
                else:
                    b.solve()
                    ib += 1
                    obj, want = b, (oref if mode == 'other' else ref)[ib]
                m = same(snap(nm, e, obj), want)
                if m:
                    over = order != 'A' * n + 'B' * (n + 1)
                    rec.violate('overlap' if over else 'sequential',
                                '%s: two solvers (%s options) in order %s: '
                                'solver %s after %d steps: %s' % (
                                    scn['key'], mode, order, t,
                                    ia if t == 'A' else ib, m))
                    if len(rec.violations) > 30:
                        return
                    break
    rec.outcome(ref[-1][0])


def pairs(scn, rec):
    """A and B of different classes, stepped alternately"""
    E = ents()
    na = scn['pairs']

    def first(nm):
        e = E[nm]
        p = e.probs('quick')[0]
        s = {'key': nm, 'e': nm, 'p': p, 'dl': 0}
        if nm[0] != 'd':
            ax = e.axes('quick', p)
            s['o'] = {k: ax[k][0] for k in ax}
        return s

    def new(nm):
        return build(nm, E[nm], first(nm), {'MaxMainIter': 1})
    try:
        for nb in E:
            if (na, nb) not in SOLO:
                for q in (na, nb):
                    if q not in SOLO:
                        b = new(q)
                        b.solve()
                        b.solve()
                        SOLO[q] = snap(q, E[q], b)
            a, b = new(na), new(nb)
            for x in (a, b, a, b):
                x.solve()
                rec.step()
                rec.state()
            rec.trace()
            for q, x in ((na, a), (nb, b)):
                m = same(snap(q, E[q], x), SOLO[q])
                if m:
                    par = na.startswith('d:prlcnscdl') and \
                        nb.startswith('d:prlcnscdl')
                    rec.violate('parallel-pair' if par else 'pair',
                                '%s stepped alternately with %s: %s' % (
                                    q, nb if q == na else na, m))
    except Exception as ex:
        rec.violate('exception', '%s: %s: %s' % (
            scn['key'], type(ex).__name__, ex))


SOLO = {}
