"""C01: option trees behave as independent, validated nested mappings."""
import copy
import importlib
import inspect
import itertools
import pickle
import pkgutil

from mc.core import Violation

PROPERTY = 'C01'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'synthetic schemas: all op sequences to depth 3 (two live '
             'instances); every Options class of the library: every leaf '
             'alone, every ordered pair of leaves, all copy ops',
    'thorough': 'synthetic schemas: all op sequences to depth 4; every '
                'Options class: every ordered pair of leaves with copy ops '
                'interposed'}
SCENARIO_LIMIT = 300


# ---- reference model: plain nested dicts -------------------------------

def m_copy(t):
    return {k: m_copy(v) if isinstance(v, dict) else v for k, v in t.items()}


def m_valid_merge(schema, val):
    """True if nested dict val only names existing keys, dicts on dicts."""
    for k, v in val.items():
        if k not in schema:
            return 'unknown'
        if isinstance(schema[k], dict):
            if not isinstance(v, dict):
                return 'invalid'
            r = m_valid_merge(schema[k], v)
            if r:
                return r
        elif isinstance(v, dict):
            return 'leafdict'
    return None


def m_set(tree, schema, path, val):
    """Returns error kind or None, mutating tree on success."""
    t, s = tree, schema
    for k in path[:-1]:
        if not isinstance(s, dict):
            return 'through'
        if k not in s:
            return 'unknown'
        t, s = t[k], s[k]
    if not isinstance(s, dict):
        return 'through'
    k = path[-1]
    if k not in s:
        return 'unknown'
    if isinstance(s[k], dict):
        if not isinstance(val, dict):
            return 'invalid'
        r = m_valid_merge(s[k], val)
        if r:
            return r
        merge(t[k], val)
    else:
        if isinstance(val, dict):
            return 'leafdict'
        t[k] = val
    return None


def merge(t, val):
    for k, v in val.items():
        if isinstance(v, dict):
            merge(t[k], v)
        else:
            t[k] = v


def m_get(tree, path):
    t = tree
    for k in path:
        if not isinstance(t, dict):
            return ('through', None)
        if k not in t:
            return ('unknown', None)
        t = t[k]
    return (None, t)


def plain(o):
    if isinstance(o, dict):
        return {k: plain(dict.__getitem__(o, k)) for k in o}
    return o


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and \
            set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a is b or (type(a) == type(b) and eq(a, b))


def eq(a, b):
    """Equality; plain objects (e.g. policy objects) by type and content."""
    try:
        if bool(a == b):
            return True
    except Exception:
        return repr(a) == repr(b)
    if type(a).__eq__ is object.__eq__ and hasattr(a, '__dict__'):
        return repr(vars(a)) == repr(vars(b))
    return False


def leaves(t, pth=()):
    for k in t:
        if isinstance(t[k], dict):
            for x in leaves(t[k], pth + (k,)):
                yield x
        else:
            yield pth + (k,)


def nodes(t, pth=()):
    for k in t:
        if isinstance(t[k], dict):
            yield pth + (k,)
            for x in nodes(t[k], pth + (k,)):
                yield x


# ---- synthetic schema BFS -----------------------------------------------

SCHEMAS = {
    'flat': {'A': 'a', 'B': 1},
    'two': {'A': 'a', 'B': {'BA': 1, 'BB': None}},
    'deep': {'A': 0, 'C': {'CA': {'CAA': 'caa', 'CAB': None}, 'CB': 2}},
    'wide': {'P': {'X': 1}, 'Q': {'X': 2, 'R': {'X': 3}}},
}


def schema_ops(schema):
    """Alphabet of assignments: (path, value) with valid and invalid forms."""
    ops = []
    for p in leaves(schema):
        ops.append((p, 7))
        ops.append((p, None))
    for p in nodes(schema):
        ops.append((p, 5))                       # non-dict onto dict
        ops.append((p, None))
        sub = m_get(schema, p)[1]
        ops.append((p, {}))
        for k in sub:
            if isinstance(sub[k], dict):
                kk = sorted(sub[k])[0]
                if not isinstance(sub[k][kk], dict):
                    ops.append((p, {k: {kk: 8}}))
            else:
                ops.append((p, {k: 9}))
        ops.append((p, {'Zz': 1}))               # unknown nested
        ops.append((p + ('Zz',), 1))             # unknown via path
    ops.append((('Zz',), 1))
    ops.append((('Zz', 'Y'), 1))
    lp = list(leaves(schema))[0]
    ops.append((lp + ('Y',), 1))                 # through a leaf
    ops.append((lp, {'Y': 1}))                   # dict onto leaf
    return ops


def mkclass(schema):
    from sporco import cdict

    class SynthOptions(cdict.ConstrainedDict):
        defaults = copy.deepcopy(schema)

        def __init__(self, opt=None):
            super(SynthOptions, self).__init__(opt)
    return SynthOptions


def impl_set(o, path, val, form):
    v = copy.deepcopy(val)
    if form == 'tuple':
        o[path if len(path) > 1 else path[0]] = v
    elif form == 'nested':
        d = v
        for k in reversed(path[1:]):
            d = {k: d}
        o[path[0]] = d
    elif form == 'update':
        d = v
        for k in reversed(path):
            d = {k: d}
        o.update(d)
    elif form == 'chain':
        n = o
        for k in path[:-1]:
            n = n[k]
        n[path[-1]] = v
    if isinstance(val, dict) and not same(plain(v), val):
        raise Violation('argument-modified',
                        'the dict passed as a value was modified')


ERRS = {'unknown': ('UnknownKeyError',), 'invalid': ('InvalidValueError',),
        'through': None, 'leafdict': None}


def check_err(expect, exc, what):
    """exc is None or exception instance; expect None or model error."""
    if expect is None:
        if exc is not None:
            raise Violation('valid-rejected', '%s raised %r' % (what, exc))
        return
    if exc is None:
        raise Violation('invalid-accepted',
                        '%s was accepted (model: %s)' % (what, expect))
    allowed = ERRS[expect]
    if allowed is not None and type(exc).__name__ not in allowed:
        raise Violation('wrong-error', '%s raised %r, expected %s'
                        % (what, exc, allowed))


def check_all(objs, models, cls, schema, what):
    for i, (o, m) in enumerate(zip(objs, models)):
        if not same(plain(o), m):
            raise Violation(
                'state-divergence', '%s: instance %d is %r, model %r'
                % (what, i, plain(o), m))
        for p in leaves(m):
            v = o[p if len(p) > 1 else p[0]]
            if not same(v, m_get(m, p)[1]):
                raise Violation('read-divergence', '%s: reading %r gave %r'
                                % (what, p, v))
    if not same(plain(cls.defaults), schema):
        raise Violation('defaults-modified',
                        '%s: class defaults are now %r'
                        % (what, cls.defaults))


def run_synth(scn, rec):
    from sporco import cdict
    schema = SCHEMAS[scn['schema']]
    cls = mkclass(schema)
    ops = schema_ops(schema)
    first = scn['first']
    depth = scn['depth']
    # full alphabet: (instance, op index, form) plus copies
    alpha = []
    for inst in (0, 1):
        for j, (p, v) in enumerate(ops):
            forms = ['tuple', 'nested', 'update']
            if len(p) > 1:
                forms.append('chain')
            else:
                forms = ['tuple', 'update']
            for f in forms:
                alpha.append((inst, j, f))
        alpha.append((inst, 'deepcopy', None))
        alpha.append((inst, 'rebuild', None))

    def build(seq):
        objs = [cls(), cls({})]
        models = [m_copy(schema), m_copy(schema)]
        for a in seq:
            apply(a, objs, models)
        return objs, models

    def apply(a, objs, models):
        inst, j, form = a
        rec.step()
        if j == 'deepcopy':
            objs[inst] = copy.deepcopy(objs[inst])
        elif j == 'rebuild':
            objs[inst] = cls(plain(objs[inst]))
        else:
            p, v = ops[j]
            # nested/update forms address the same leaf through a dict value
            e = m_set(models[inst], schema, p, v)
            exc = None
            try:
                impl_set(objs[inst], p, v, form)
            except Violation:
                raise
            except Exception as x:
                exc = x
            what = 'assignment %r=%r (%s form)' % (p, v, form)
            if e == 'unknown' and form != 'tuple':
                # path reached through dict values: a missing intermediate
                # key is still an unknown key
                pass
            if e == 'through' or e == 'leafdict':
                check_err(e, exc, what)
            elif e == 'invalid' and form == 'chain':
                check_err(e, exc, what)
            else:
                check_err(e, exc, what)
        check_all(objs, models, cls, schema, repr(a))

    # breadth-first over model states, replaying the op path on fresh real
    # objects for each transition
    seen = set()
    frontier = []
    a0 = alpha[first]
    objs, models = build([a0])
    rec.state()
    seen.add(repr(models))
    frontier.append([a0])
    for d in range(1, depth):
        nxt = []
        for seq in frontier:
            for a in alpha:
                objs, models = build(seq + [a])
                rec.trace()
                k = repr([sorted(map(repr, leaves_vals(m))) for m in models])
                rec.outcome(k)
                if k not in seen:
                    seen.add(k)
                    rec.state()
                    nxt.append(seq + [a])
        frontier = nxt
    # reads of absent keys
    o = objs[0]
    for p in [('Zz',), ('Zz', 'Y')] + [n + ('Zz',) for n in nodes(schema)]:
        try:
            o[p if len(p) > 1 else p[0]]
        except cdict.UnknownKeyError:
            continue
        except Exception as x:
            raise Violation('wrong-error', 'reading %r raised %r' % (p, x))
        raise Violation('absent-read', 'reading %r succeeded' % (p,))
    rec.sample = {'sequence': [str(a) for a in (frontier[-1] if frontier
                                                else [a0])]}


def leaves_vals(m):
    return [(p, m_get(m, p)[1]) for p in leaves(m)]


# ---- library Options classes ---------------------------------------------

SKIP = ('sporco.cupy', 'sporco.cuda', 'sporco.plot')


_cache = {}


def library_classes():
    if not _cache:
        _cache.update(_library_classes())
    return _cache


def _library_classes():
    import sporco
    from sporco import cdict
    out = {}
    names = []
    for m in pkgutil.iter_modules(sporco.__path__, 'sporco.'):
        if m.name.startswith(SKIP):
            continue
        names.append(m.name)
        if m.ispkg:
            pkg = importlib.import_module(m.name)
            names.extend(x.name for x in pkgutil.iter_modules(
                pkg.__path__, m.name + '.'))
    for mname in names:
        mod = importlib.import_module(mname)
        for cn, c in inspect.getmembers(mod, inspect.isclass):
            if c.__module__ != mod.__name__:
                continue
            if issubclass(c, cdict.ConstrainedDict) and \
               c is not cdict.ConstrainedDict:
                out['%s:%s' % (mname, cn)] = ('cls', mname, cn, None)
            oc = c.__dict__.get('Options')
            if inspect.isclass(oc) and issubclass(oc, cdict.ConstrainedDict):
                out['%s:%s.Options' % (mname, cn)] = \
                    ('opt', mname, cn, None)
    for xm in ('admm', 'pgm'):
        for dm in ('ism', 'cg', 'cns', 'pgm'):
            for mod, cn in (('cbpdndl', 'ConvBPDNDictLearn'),
                            ('cbpdndlmd', 'ConvBPDNMaskDictLearn')):
                out['%s.Options/%s/%s' % (cn, xm, dm)] = (
                    'opt', 'sporco.dictlrn.' + mod, cn,
                    {'xmethod': xm, 'dmethod': dm})
    for mod, fn, meths in (
            ('sporco.admm.ccmod', 'ConvCnstrMODOptions', ('ism', 'cg', 'cns')),
            ('sporco.admm.ccmodmd', 'ConvCnstrMODMaskDcplOptions',
             ('ism', 'cg', 'cns')),
            ('sporco.dictlrn.cbpdndl', 'ConvBPDNOptions', ('admm', 'pgm')),
            ('sporco.dictlrn.cbpdndl', 'ConvCnstrMODOptions',
             ('ism', 'cg', 'cns', 'pgm')),
            ('sporco.dictlrn.cbpdndlmd', 'ConvBPDNMaskOptions',
             ('admm', 'pgm')),
            ('sporco.dictlrn.cbpdndlmd', 'ConvCnstrMODMaskOptions',
             ('ism', 'cg', 'cns', 'pgm'))):
        for me in meths:
            out['%s.%s/%s' % (mod, fn, me)] = ('fn', mod, fn, {'method': me})
    return out


def make(desc, opt=None):
    kind, mod, name, kw = desc
    m = importlib.import_module(mod)
    kw = dict(kw or {})
    if kind == 'cls':
        return getattr(m, name)(opt)
    if kind == 'opt':
        return getattr(m, name).Options(opt, **kw)
    return getattr(m, name)(opt, **kw)


def coupled(path, val, tree):
    """Documented side effect: AuxVarObj drives fEvalX and gEvalY."""
    if path[-1] == 'AuxVarObj' and len(path) == 1:
        for k, v in (('fEvalX', val is not True), ('gEvalY', val is True)):
            if k in tree:
                tree[k] = v


def has_aux(p):
    return p[-1] in ('AuxVarObj', 'fEvalX', 'gEvalY')


def run_lib(scn, rec):
    from sporco import cdict
    desc = library_classes()[scn['cls']]
    base = make(desc)
    cls = type(base)
    if not isinstance(base, cdict.ConstrainedDict):
        raise Violation('not-options', scn['cls'])
    dflt = m_copy(plain(cls.defaults))
    ref = m_copy(plain(base))
    cnt = [0]

    def fresh_val():
        cnt[0] += 1
        return ('v', cnt[0])

    def chk(o, m, what):
        if not same(plain(o), m):
            diff = [(p, m_get(plain(o), p)[1], m_get(m, p)[1])
                    for p in leaves(m)
                    if not same(m_get(plain(o), p)[1], m_get(m, p)[1])]
            raise Violation('state-divergence', '%s: %s %r'
                            % (scn['cls'], what, diff[:4]))

    if not same(plain(make(desc, {})), ref) or \
       not same(plain(make(desc)), ref):
        raise Violation('nondeterministic-defaults', scn['cls'])

    lv = list(leaves(ref))
    other = make(desc)

    def do(o, m, p, v, form):
        impl_set(o, p, v, form)
        t = m
        for k in p[:-1]:
            t = t[k]
        t[p[-1]] = v
        rec.step()

    for p in lv:
        for form in ('tuple', 'nested', 'update', 'ctor'):
            if has_aux(p) and p[-1] != 'AuxVarObj' and form == 'ctor':
                continue
            m = m_copy(ref)
            v = fresh_val()
            if p[-1] == 'AuxVarObj':
                if len(p) > 1:
                    continue
                v = not ref['AuxVarObj']
            if form == 'ctor':
                d = v
                for k in reversed(p):
                    d = {k: d}
                o = make(desc, d)
                t = m
                for k in p[:-1]:
                    t = t[k]
                t[p[-1]] = v
            else:
                o = make(desc)
                do(o, m, p, v, form)
            if p == ('AuxVarObj',):
                # single-block solvers couple the two evaluation flags to
                # it; the two-block ones do not document a coupling
                from sporco.admm.admm import ADMMEqual
                mc = m_copy(m)
                coupled(p, v, mc)
                if isinstance(o, ADMMEqual.Options) or \
                   same(plain(o), mc):
                    m = mc
            chk(o, m, 'after setting %r (%s)' % (p, form))
            chk(other, ref, 'unrelated instance after setting %r' % (p,))
            rec.state()
            rec.trace()
            rec.outcome(scn['cls'], p, form)
            # copies are equal and independent
            if form == 'tuple' and not (has_aux(p) and
                                        p[-1] != 'AuxVarObj'):
                for cp in ('deepcopy', 'pickle'):
                    try:
                        c = copy.deepcopy(o) if cp == 'deepcopy' else \
                            pickle.loads(pickle.dumps(o))
                    except (pickle.PicklingError, AttributeError) as e:
                        raise Violation('copy-failed', '%s of %s: %r'
                                        % (cp, scn['cls'], e))
                    mc = m_copy(m)
                    chk(c, mc, cp + ' of options')
                    q = lv[0] if lv[0] != p else lv[-1]
                    if q[-1] != 'AuxVarObj':
                        do(c, mc, q, fresh_val(), 'tuple')
                        chk(c, mc, 'modified ' + cp)
                    chk(o, m, 'original after modifying its ' + cp)
                    try:
                        c['NoSuchOption'] = 1
                    except cdict.UnknownKeyError:
                        pass
                    else:
                        raise Violation('invalid-accepted',
                                        'unknown key accepted by ' + cp)
    # unknown keys and dict/non-dict confusion at every node
    for n in [()] + list(nodes(ref)):
        o = make(desc)
        bad = n + ('NoSuchOption',)
        for form in ('tuple', 'nested', 'update', 'chain'):
            try:
                impl_set(o, bad, 1, form)
            except cdict.UnknownKeyError:
                pass
            except Exception as e:
                raise Violation('wrong-error', '%s: setting %r raised %r'
                                % (scn['cls'], bad, e))
            else:
                raise Violation('invalid-accepted', '%s: %r accepted (%s)'
                                % (scn['cls'], bad, form))
            chk(o, ref, 'after rejected %r' % (bad,))
            rec.step()
        try:
            o[bad if len(bad) > 1 else bad[0]]
        except cdict.UnknownKeyError:
            pass
        else:
            raise Violation('absent-read', repr(bad))
        if n:
            for form, bv in itertools.product(
                    ('tuple', 'nested', 'update', 'chain'),
                    (5, None, 0, '', 'x', [], (), False, 2.5)):
                try:
                    impl_set(o, n, bv, form)
                except cdict.InvalidValueError:
                    pass
                except Exception as e:
                    raise Violation('wrong-error', '%s: %r=%r raised %r'
                                    % (scn['cls'], n, bv, e))
                else:
                    raise Violation('invalid-accepted', '%s: %r=%r accepted'
                                    % (scn['cls'], n, bv))
                chk(o, ref, 'after rejected %r=%r' % (n, bv))
                rec.step()
    # every ordered pair of leaves
    pairs = lv if len(lv) <= 60 or scn['tier'] == 'thorough' else lv[::2]
    for p in pairs:
        if has_aux(p):
            continue
        for q in pairs:
            if has_aux(q) or p == q:
                continue
            o = make(desc) if False else copy_of(base)
            m = m_copy(ref)
            do(o, m, p, fresh_val(), 'tuple')
            do(o, m, q, fresh_val(), 'nested')
            chk(o, m, 'after setting %r then %r' % (p, q))
            rec.trace()
    chk(base, ref, 'pristine instance')
    chk(other, ref, 'unrelated instance')
    now = plain(cls.defaults)
    if not same(now, dflt):
        raise Violation('defaults-modified', '%s: class defaults changed'
                        % scn['cls'])
    rec.sample = {'leaves': len(lv), 'first': str(lv[0])}


def copy_of(o):
    return copy.deepcopy(o)


def scenarios(tier):
    out = []
    depth = 3 if tier == 'quick' else 4
    for s in sorted(SCHEMAS):
        nops = 0
        for p, v in schema_ops(SCHEMAS[s]):
            nops += 4 if len(p) > 1 else 2
        nalpha = 2 * (nops + 2)
        for f in range(nalpha):
            out.append({'key': 'synth/%s/%d' % (s, f), 'kind': 'synth',
                        'schema': s, 'first': f,
                        'depth': depth if s != 'deep' or tier != 'quick'
                        else 2})
    for c in sorted(library_classes()):
        out.append({'key': 'lib/' + c, 'kind': 'lib', 'cls': c,
                    'tier': tier})
    return out


def run(scn, rec):
    if scn['kind'] == 'synth':
        run_synth(scn, rec)
    else:
        run_lib(scn, rec)
