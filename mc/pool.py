"""A process pool under the control of the model checker.

CtlPool stands in for multiprocessing.Pool.  It forks its worker processes at
construction, exactly as the real pool does on this platform, so that worker
processes see the parent's memory as of that moment and share only what is in
shared memory.  Unlike the real pool it does not leave the order, the
assignment to workers and the interleaving of the tasks to chance: a Schedule
decides all three, with preemption points at source line granularity inside
the tasks.
"""
import multiprocessing
import os
import pickle
import sys
import traceback
from contextlib import contextmanager


class Schedule(object):
    """order: permutation index of the tasks (function of their number),
    workers: worker of the i-th task, preempt: {task: [line counts]}"""

    def __init__(self, order=None, workers=None, preempt=None):
        self.order, self.workers = order, workers
        self.preempt = preempt or {}
        self.lines = {}        # task -> largest line count seen
        self.maps = 0
        self.tasks = 0

    def key(self):
        return (self.order, self.workers,
                tuple(sorted((k, tuple(v)) for k, v in self.preempt.items())))


CURRENT = [Schedule()]


def _traced(fn, arg, star, points, conn):
    """run fn(arg) pausing after the given numbers of lines"""
    code = getattr(fn, '__code__', None)
    home = code.co_filename if code is not None else None
    cnt = [0]
    pts = list(points)

    def local(frame, event, arg):
        if event == 'line':
            cnt[0] += 1
            if pts and cnt[0] >= pts[0]:
                pts.pop(0)
                conn.send(('paused', None))
                conn.recv()
        return local

    def glob(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename == home:
            return local
        return None
    sys.settrace(glob)
    try:
        r = fn(*arg) if star else fn(arg)
    finally:
        sys.settrace(None)
    return r, cnt[0]


def _serve(conn, initializer, initargs):
    try:
        if initializer is not None:
            initializer(*initargs)
        while True:
            try:
                msg = conn.recv()
            except EOFError:
                break
            if msg is None:
                break
            data, points = msg
            try:
                fn, arg, star, kw = pickle.loads(data)
                if kw:
                    base = fn

                    def fn(*a):
                        return base(*a, **kw)
                    star = True
                r, n = _traced(fn, arg, star, points, conn)
                conn.send(('done', (r, n)))
            except BaseException as e:
                tb = traceback.format_exc()
                try:
                    pickle.loads(pickle.dumps(e))
                except Exception:
                    e = RuntimeError(repr(e))
                conn.send(('error', (e, tb)))
    finally:
        os._exit(0)


class _Result(object):
    def __init__(self, val=None, exc=None):
        self.val, self.exc = val, exc

    def get(self, timeout=None):
        if self.exc is not None:
            raise self.exc
        return self.val

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.exc is None


class CtlPool(object):
    live = 0

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        n = processes or 2
        self.n = n
        self.conns, self.pids = [], []
        for i in range(n):
            a, b = multiprocessing.Pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    import signal
                    signal.alarm(0)
                    a.close()
                    for c in self.conns:
                        c.close()
                    _serve(b, initializer, initargs)
                finally:
                    os._exit(1)
            b.close()
            self.conns.append(a)
            self.pids.append(pid)
        CtlPool.live += 1
        self.closed = False

    # -------------------------------------------------------------- running
    def _run(self, tasks):
        """tasks: list of (fn, arg, star, kw); returns results in order"""
        if self.closed:
            raise ValueError('Pool not running')
        s = CURRENT[0]
        s.maps += 1
        n = len(tasks)
        s.tasks += n
        order = list(range(n)) if s.order is None else \
            [i for i in s.order if i < n] + \
            [i for i in range(n) if i not in s.order]
        wk = [(s.workers[i % len(s.workers)] if s.workers else i) % self.n
              for i in range(n)]
        data = [pickle.dumps(t) for t in tasks]
        res = [None] * n
        err = None
        queue = list(order)
        paused = set()
        busy = {}
        while queue:
            # the first task in the queue that can proceed
            for j, t in enumerate(queue):
                if t in paused or wk[t] not in busy:
                    break
            queue.pop(j)
            c = self.conns[wk[t]]
            if t in paused:
                paused.discard(t)
                c.send('go')
            else:
                busy[wk[t]] = t
                c.send((data[t], s.preempt.get(t, ())))
            kind, val = c.recv()
            if kind == 'paused':
                paused.add(t)
                queue.append(t)
                continue
            del busy[wk[t]]
            if kind == 'error':
                err = err or val[0]
            else:
                res[t] = val[0]
                s.lines[t] = max(s.lines.get(t, 0), val[1])
        if err is not None:
            raise err
        return res

    def map(self, func, iterable, chunksize=None):
        return self._run([(func, a, False, None) for a in iterable])

    def starmap(self, func, iterable, chunksize=None):
        return self._run([(func, tuple(a), True, None) for a in iterable])

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    imap_unordered = imap

    def _async(self, f):
        try:
            return _Result(f())
        except Exception as e:
            return _Result(exc=e)

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        r = self._async(lambda: self.map(func, iterable))
        if callback and r.exc is None:
            callback(r.val)
        return r

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        r = self._async(lambda: self.starmap(func, iterable))
        if callback and r.exc is None:
            callback(r.val)
        return r

    def apply(self, func, args=(), kwds={}):
        return self._run([(func, tuple(args), True, dict(kwds))])[0]

    def apply_async(self, func, args=(), kwds={}, callback=None,
                    error_callback=None):
        r = self._async(lambda: self.apply(func, args, kwds))
        if callback and r.exc is None:
            callback(r.val)
        return r

    # ------------------------------------------------------------- teardown
    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        if self.conns:
            for c in self.conns:
                c.close()
            for p in self.pids:
                os.waitpid(p, 0)
            self.conns, self.pids = [], []
            CtlPool.live -= 1

    def join(self):
        self.terminate()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def __del__(self):
        try:
            self.terminate()
        except Exception:
            pass


class _Ctx(object):
    """a start context whose pools are controlled"""
    def __init__(self, ctx):
        self._ctx = ctx

    def Pool(self, *a, **k):
        return CtlPool(*a, **k)

    def __getattr__(self, n):
        return getattr(self._ctx, n)


@contextmanager
def controlled(schedule):
    """within the block every multiprocessing pool follows the schedule"""
    import multiprocessing.pool as mpp
    old = (multiprocessing.Pool, mpp.Pool, multiprocessing.get_context)
    oldc = CURRENT[0]
    multiprocessing.Pool = CtlPool
    mpp.Pool = CtlPool
    getctx = multiprocessing.get_context

    def get_context(method=None):
        return _Ctx(getctx(method))
    multiprocessing.get_context = get_context
    CURRENT[0] = schedule
    try:
        yield schedule
    finally:
        (multiprocessing.Pool, mpp.Pool, multiprocessing.get_context) = old
        CURRENT[0] = oldc
