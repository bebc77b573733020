"""C07: timers account exactly for the running intervals of each label."""
import copy
import itertools
import pickle
import time
import timeit

from mc.core import Violation

PROPERTY = 'C07'
LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all operation sequences of length <= 4 over a 19-letter '
             'alphabet (start/stop/reset/context/copy on 3 labels), 5 '
             'constructions, virtual clock, all queries after every step',
    'thorough': 'as quick, length <= 5'}


class Clock(object):
    def __init__(self):
        self.t = 1000.0

    def __call__(self):
        return self.t


CLOCK = Clock()
REAL = {f for f in (time.time, time.perf_counter, time.monotonic,
                    time.process_time, timeit.default_timer)}


def worker_init(wid):
    """Replace every real clock the module can reach by the virtual one."""
    import sporco.util as su
    for k, v in list(vars(su).items()):
        try:
            if v in REAL:
                setattr(su, k, CLOCK)
        except TypeError:
            pass
    timeit.default_timer = CLOCK
    for n in ('time', 'perf_counter', 'monotonic', 'process_time'):
        setattr(time, n, CLOCK)


# the engine itself keeps using the real clock
import mc.core as _core


class _RT(object):
    time = staticmethod(time.time)


_core.time = _RT


class Model(object):
    def __init__(self, labels, dflt, alll):
        self.acc = {}
        self.run = {}
        self.dflt = dflt
        self.alll = alll
        for l in labels:
            self.acc[l] = 0.0
            self.run[l] = None

    def _lbl(self, l):
        if l is None:
            return [self.dflt]
        if l == '<all>':
            return list(self.acc)
        return list(l) if isinstance(l, tuple) else [l]

    def start(self, l, t):
        for x in self._lbl(l):
            self.acc.setdefault(x, 0.0)
            if self.run.get(x) is None:
                self.run[x] = t

    def stop(self, l, t):
        for x in self._lbl(l):
            if x not in self.acc:
                return 'KeyError'
            if self.run[x] is not None:
                self.acc[x] += t - self.run[x]
                self.run[x] = None

    def reset(self, l, t):
        for x in self._lbl(l):
            if x not in self.acc:
                return 'KeyError'
            self.acc[x] = 0.0
            self.run[x] = None

    def elapsed(self, l, total, t):
        if l is None:
            l = self.dflt
            if l not in self.acc:
                return 0.0
        if l not in self.acc:
            return 'KeyError'
        e = 0.0 if self.run[l] is None else t - self.run[l]
        return e + (self.acc[l] if total else 0.0)


CTORS = [
    ({}, (), 'main', 'all'),
    ({'labels': 'a'}, ('a',), 'main', 'all'),
    ({'labels': ['a', 'b']}, ('a', 'b'), 'main', 'all'),
    ({'labels': ('a',), 'dfltlbl': 'b'}, ('a',), 'b', 'all'),
    ({'labels': ['main', 'b'], 'alllbl': 'every'}, ('main', 'b'), 'main',
     'every'),
]

OPS = [('start', None), ('start', 'a'), ('start', 'b'), ('start', ('a', 'b')),
       ('stop', None), ('stop', 'a'), ('stop', ('a', 'b')), ('stop', '<all>'),
       ('reset', None), ('reset', 'a'), ('reset', ('a', 'b')),
       ('reset', '<all>'),
       ('enter', 'StartStop', 'a'), ('enter', 'StopStart', 'a'),
       ('enter', 'StartStop', None), ('exit', False), ('exit', True),
       ('copy', 'deepcopy'), ('copy', 'pickle')]


def compare(tm, m, ctxs, what, rec):
    t = CLOCK.t
    for l in (None, 'a', 'b', 'main'):
        for total in (True, False):
            e = m.elapsed(l, total, t)
            try:
                g = tm.elapsed(l, total) if l is not None else \
                    tm.elapsed(total=total)
            except KeyError:
                g = 'KeyError'
            if g != e:
                raise Violation('elapsed', '%s: elapsed(%r, total=%r) is %r, '
                                'expected %r' % (what, l, total, g, e))
    if sorted(tm.labels()) != sorted(m.acc):
        raise Violation('labels', '%s: labels %r, expected %r'
                        % (what, sorted(tm.labels()), sorted(m.acc)))
    for c, (act, l) in ctxs:
        for total in (True, False):
            e = m.elapsed(l, total, t)
            if e == 'KeyError':
                continue
            g = c.elapsed(total)
            if g != e:
                raise Violation('ctx-elapsed', '%s: context elapsed %r, '
                                'expected %r' % (what, g, e))
    s = str(tm)
    for l in m.acc:
        row = [r for r in s.splitlines() if r.split()[:1] == [l]]
        if len(row) != 1:
            raise Violation('str', '%s: no row for %r in %r' % (what, l, s))
        if ('Stopped' in row[0]) != (m.run[l] is None):
            raise Violation('str', '%s: row %r but running=%r'
                            % (what, row[0], m.run[l]))
        if '%.2e s' % m.acc[l] not in row[0]:
            raise Violation('str', '%s: row %r, accumulated %r'
                            % (what, row[0], m.acc[l]))


def run_seq(ci, seq, rec, only_last=False):
    from sporco.util import Timer, ContextTimer
    kw, labels, dflt, alll = CTORS[ci]
    CLOCK.t = 1000.0
    tm = Timer(**kw)
    m = Model(labels, dflt, alll)
    ctxs = []
    compare(tm, m, ctxs, 'new', rec)
    for i, op in enumerate(seq):
        CLOCK.t += float(2 ** i)     # distinct so that sums identify intervals
        what = 'ctor %d, after %r' % (ci, seq[:i + 1])
        rec.step()
        if op[0] in ('start', 'stop', 'reset'):
            arg = op[1]
            if arg == '<all>':
                arg = alll
            elif isinstance(arg, tuple):
                arg = list(arg) if i % 2 else arg
            e = getattr(m, op[0])(op[1], CLOCK.t)
            try:
                f = getattr(tm, op[0])
                g = f() if arg is None else f(arg)
                g = None
            except KeyError:
                g = 'KeyError'
            if g != e:
                raise Violation('error', '%s: %r, expected %r'
                                % (what, g, e))
            if e is not None:
                return i, False
        elif op[0] == 'enter':
            c = ContextTimer(tm, op[2], op[1])
            e = m.start(op[2], CLOCK.t) if op[1] == 'StartStop' else \
                m.stop(op[2], CLOCK.t)
            try:
                r = c.__enter__()
                g = None
            except KeyError:
                g = 'KeyError'
            if g != e:
                raise Violation('error', '%s: %r, expected %r' % (what, g, e))
            if e is not None:
                return i, False
            ctxs.append((c, (op[1], op[2])))
        elif op[0] == 'exit':
            if not ctxs:
                return i, False
            c, (act, l) = ctxs.pop()
            if act == 'StartStop':
                e = m.stop(l, CLOCK.t)
            else:
                e = m.start(l, CLOCK.t)
            if op[1]:
                exc = ValueError('x')
                r = c.__exit__(ValueError, exc, None)
                if r:
                    raise Violation('swallowed', '%s: the context manager '
                                    'suppressed an exception' % what)
            else:
                c.__exit__(None, None, None)
        elif op[0] == 'copy':
            if ctxs:
                return i, False
            if op[1] == 'deepcopy':
                old, tm = tm, copy.deepcopy(tm)
            else:
                old, tm = tm, pickle.loads(pickle.dumps(tm))
            # the original is disturbed: the copy must not notice
            old.start(['a', 'b', 'zz'])
            old.reset(['a', 'b'])
        if not only_last or i == len(seq) - 1:
            compare(tm, m, ctxs, what, rec)
    # time passes with nothing happening
    CLOCK.t += float(2 ** len(seq))
    compare(tm, m, ctxs, 'idle after %r' % (seq,), rec)
    return len(seq), True


def scenarios(tier):
    d = 4 if tier == 'quick' else 5
    out = []
    for ci in range(len(CTORS)):
        for i in range(len(OPS)):
            for j in range(len(OPS)):
                out.append({'key': 'timer/%d/%d.%d' % (ci, i, j), 'ctor': ci,
                            'prefix': [i, j], 'depth': d})
    return out


def run(scn, rec):
    n = 0
    pre = [OPS[i] for i in scn['prefix']]
    for tail in itertools.product(OPS, repeat=scn['depth'] - 2):
        seq = pre + list(tail)
        i, ok = run_seq(scn['ctor'], seq, rec, only_last=True)
        rec.trace()
        rec.state()
        n += 1
        if n == 1:
            rec.sample = {'ctor': scn['ctor'], 'ops': [str(o) for o in seq]}
        rec.outcome(scn['ctor'], tuple(seq[:i + 1]))
    for k in (1, 2):
        run_seq(scn['ctor'], pre[:k], rec)
