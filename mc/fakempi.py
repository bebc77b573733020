"""In-process MPI communicator with a controlled scheduler.

Every rank is a thread, but only one runs at a time (a baton decides which),
and a rank gives the baton up only inside a collective.  Collectives complete
when every rank has entered the same one; anything else is reported as what
it would be on a real machine: a deadlock, a mismatch or a truncation.
Buffers are interpreted at the byte level, with mpi4py's rules for omitted
counts, so that type confusion is visible too.
"""
import pickle
import threading

import numpy as np


class MPIError(Exception):
    pass


class World(object):
    def __init__(self, size, order):
        self.size = size
        self.order = list(order)
        self.cv = threading.Condition()
        self.turn = None
        self.waiting = {}       # rank -> (name, payload)
        self.result = {}
        self.state = ['new'] * size
        self.error = None
        self.ncoll = 0

    def run(self, fn):
        res = [None] * self.size
        exc = [None] * self.size

        def body(r):
            with self.cv:
                while self.turn != r:
                    self.cv.wait()
            try:
                if self.error is None:
                    res[r] = fn(Comm(self, r), r)
            except BaseException as e:
                exc[r] = e
            with self.cv:
                self.state[r] = 'done'
                self._next()

        ths = [threading.Thread(target=body, args=(r,), daemon=True)
               for r in range(self.size)]
        with self.cv:
            self.state = ['ready'] * self.size
            for t in ths:
                t.start()
            self._next()
        for t in ths:
            t.join()
        return res, exc

    def _next(self):
        """Hand the baton to the next rank able to run."""
        for r in self.order:
            if self.state[r] == 'ready':
                self.turn = r
                self.cv.notify_all()
                return
        blocked = [r for r in range(self.size) if self.state[r] == 'blocked']
        if not blocked:
            self.turn = None
            self.cv.notify_all()
            return
        # nobody can run: either the collective is complete or deadlock
        if self.error is None:
            if len(blocked) < self.size:
                self.error = MPIError(
                    'deadlock: ranks %r wait in %r but the others have '
                    'returned' % (blocked,
                                  {self.waiting[r][0] for r in blocked}))
            else:
                names = {self.waiting[r][0] for r in blocked}
                if len(names) > 1:
                    self.error = MPIError(
                        'mismatched collectives: %r'
                        % {r: self.waiting[r][0] for r in blocked})
                else:
                    try:
                        self.ncoll += 1
                        pl = [self.waiting[r][1] for r in range(self.size)]
                        out = COLL[names.pop()](self.size, pl)
                        for r in range(self.size):
                            self.result[r] = out[r]
                    except MPIError as e:
                        self.error = e
        for r in blocked:
            self.state[r] = 'ready'
        self.turn = [r for r in self.order if r in blocked][0]
        self.cv.notify_all()

    def enter(self, r, name, payload):
        with self.cv:
            self.waiting[r] = (name, payload)
            self.state[r] = 'blocked'
            self._next()
            while self.turn != r or self.state[r] == 'blocked':
                self.cv.wait()
            if self.error is not None:
                raise self.error
            return self.result.pop(r)


class Datatype(object):
    """An MPI data type: a name and a size in bytes."""

    def __init__(self, name, code):
        self.name = name
        self.typechar = code
        self.size = np.dtype(code).itemsize

    def Get_size(self):
        return self.size

    def Get_extent(self):
        return 0, self.size

    def tocode(self):
        return np.dtype(self.typechar).char

    def __repr__(self):
        return 'MPI.' + self.name


class Op(object):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __call__(self, a, b):
        return self.fn(a, b)

    def __repr__(self):
        return 'MPI.' + self.name


def _loc(better):
    def fn(a, b):
        if better(a[0], b[0]):
            return a
        if better(b[0], a[0]):
            return b
        return (a[0], min(a[1], b[1]))
    return fn


def _ops():
    tab = {'SUM': lambda a, b: a + b, 'PROD': lambda a, b: a * b,
           'MAX': lambda a, b: max(a, b), 'MIN': lambda a, b: min(a, b),
           'LAND': lambda a, b: bool(a and b),
           'LOR': lambda a, b: bool(a or b),
           'LXOR': lambda a, b: bool(a) != bool(b),
           'BAND': lambda a, b: a & b, 'BOR': lambda a, b: a | b,
           'BXOR': lambda a, b: a ^ b,
           'MAXLOC': _loc(lambda x, y: x > y),
           'MINLOC': _loc(lambda x, y: x < y)}
    return {k: Op(k, f) for k, f in tab.items()}


TYPES = {'DOUBLE': 'd', 'FLOAT': 'f', 'INT': 'i', 'LONG': 'l',
         'LONG_LONG': 'q', 'SHORT': 'h', 'CHAR': 'b', 'BYTE': 'B',
         'SIGNED_CHAR': 'b', 'UNSIGNED_CHAR': 'B', 'UNSIGNED': 'I',
         'UNSIGNED_INT': 'I', 'UNSIGNED_SHORT': 'H', 'UNSIGNED_LONG': 'L',
         'UNSIGNED_LONG_LONG': 'Q', 'BOOL': '?', 'C_BOOL': '?',
         'INT8_T': 'i1', 'INT16_T': 'i2', 'INT32_T': 'i4', 'INT64_T': 'i8',
         'UINT8_T': 'u1', 'UINT16_T': 'u2', 'UINT32_T': 'u4',
         'UINT64_T': 'u8', 'INT8': 'i1', 'INT16': 'i2', 'INT32': 'i4',
         'INT64': 'i8', 'COMPLEX': 'F', 'DOUBLE_COMPLEX': 'D',
         'C_FLOAT_COMPLEX': 'F', 'C_DOUBLE_COMPLEX': 'D', 'AINT': 'l',
         'FLOAT32': 'f', 'FLOAT64': 'd', 'REAL8': 'd', 'REAL4': 'f'}


def install():
    """Put a stand-in for mpi4py in sys.modules, unless the real one is
    there already: importing the real one starts an MPI run time, which needs
    a daemon and a network interface."""
    import sys
    import types
    if 'mpi4py' in sys.modules:
        return
    M = types.ModuleType('mpi4py.MPI')
    for k, v in TYPES.items():
        setattr(M, k, Datatype(k, v))
    for k, o in _ops().items():
        setattr(M, k, o)
    M.Datatype = Datatype
    M.Op = Op
    M.Comm = M.Intracomm = Comm
    M.Exception = MPIError
    M.COMM_WORLD = Self()
    M.COMM_SELF = Self()
    M.Wtime = lambda: 0.0
    M.Is_initialized = lambda: True
    M.Is_finalized = lambda: False
    M._typedict = {k: getattr(M, n) for n, k in TYPES.items()
                   if len(k) == 1 and n not in ('REAL8', 'REAL4')}
    M._typecode = lambda t: t.tocode()
    p = types.ModuleType('mpi4py')
    p.__path__ = []
    p.MPI = M
    p.rc = types.SimpleNamespace(initialize=False, finalize=False)
    sys.modules['mpi4py'] = p
    sys.modules['mpi4py.MPI'] = M


def _cp(o):
    return pickle.loads(pickle.dumps(o))


def _op(op):
    if isinstance(op, Op):
        return op
    raise MPIError('unsupported op')


def _spec(buf):
    """-> (array, counts, displs, elsize)"""
    counts = displs = typ = None
    if isinstance(buf, (list, tuple)):
        arr = buf[0]
        rest = list(buf[1:])
        if rest and isinstance(rest[-1], (Datatype, str)):
            typ = rest.pop()
        if rest and isinstance(rest[0], (tuple, list)) and len(rest) == 1 \
           and len(rest[0]) == 2 and hasattr(rest[0][0], '__len__'):
            rest = list(rest[0])
        if rest:
            counts = rest[0]
        if len(rest) > 1:
            displs = rest[1]
    else:
        arr = buf
    arr = np.asarray(arr) if not isinstance(arr, np.ndarray) else arr
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise MPIError('non-contiguous buffer')
    if isinstance(typ, str):
        es = np.dtype(typ).itemsize
    elif typ is None:
        es = arr.dtype.itemsize
    else:
        es = typ.Get_size()
    return arr, counts, displs, es


def _bytes(arr):
    return arr.tobytes(order='A')


def _fill(arr, off, data):
    if off + len(data) > arr.nbytes:
        raise MPIError('receive buffer too small')
    mv = arr.reshape(-1, order='A').view(np.uint8)
    mv[off:off + len(data)] = np.frombuffer(data, np.uint8)


def c_scan(size, pl):
    out = []
    acc = None
    for r in range(size):
        v, op = pl[r]
        acc = _cp(v) if r == 0 else _op(op)(acc, _cp(v))
        out.append(_cp(acc))
    return out


def c_exscan(size, pl):
    inc = c_scan(size, pl)
    return [None] + inc[:-1]


def c_allreduce(size, pl):
    last = c_scan(size, pl)[-1]
    return [_cp(last) for _ in range(size)]


def c_reduce(size, pl):
    root = pl[0][2]
    last = c_scan(size, [p[:2] for p in pl])[-1]
    return [last if r == root else None for r in range(size)]


def c_allgather(size, pl):
    return [[_cp(x) for x in pl] for _ in range(size)]


def c_gather(size, pl):
    root = pl[0][1]
    return [[_cp(x[0]) for x in pl] if r == root else None
            for r in range(size)]


def c_bcast(size, pl):
    root = pl[0][1]
    return [_cp(pl[root][0]) for _ in range(size)]


def c_scatter(size, pl):
    root = pl[0][1]
    if len(pl[root][0]) != size:
        raise MPIError('scatter needs one item per rank')
    return [_cp(x) for x in pl[root][0]]


def c_alltoall(size, pl):
    return [[_cp(pl[s][r]) for s in range(size)] for r in range(size)]


def c_barrier(size, pl):
    return [None] * size


def _gatherv(size, pl, root=None):
    sends = []
    for p in pl:
        arr, cnt, dsp, es = _spec(p[0])
        d = _bytes(arr)
        if cnt is not None:
            d = d[:int(np.ravel(cnt)[0]) * es]
        sends.append(d)
    for r in range(size):
        if root is not None and r != root:
            continue
        arr, cnt, dsp, es = _spec(pl[r][1])
        n = arr.nbytes // es
        if cnt is None:
            # mpi4py distributes the buffer in blocks
            cnt = [n // size + (1 if i < n % size else 0)
                   for i in range(size)]
        elif np.ndim(cnt) == 0:
            cnt = [int(cnt)] * size
        if dsp is None:
            dsp = [int(x) for x in np.concatenate(
                ([0], np.cumsum(cnt)[:-1]))]
        for s in range(size):
            if len(sends[s]) != int(cnt[s]) * es:
                raise MPIError(
                    'rank %d sends %d bytes where rank %d expects %d'
                    % (s, len(sends[s]), r, int(cnt[s]) * es))
            _fill(arr, int(dsp[s]) * es, sends[s])
    return [None] * size


def c_Allgatherv(size, pl):
    return _gatherv(size, pl)


def c_Allgather(size, pl):
    n = None
    for p in pl:
        arr, cnt, dsp, es = _spec(p[0])
        k = len(_bytes(arr))
        if n is not None and k != n:
            raise MPIError('Allgather with unequal contributions')
        n = k
    for p in pl:
        arr, cnt, dsp, es = _spec(p[1])
        if arr.nbytes < n * size:
            raise MPIError('receive buffer too small')
        for s in range(size):
            _fill(arr, s * n, _bytes(_spec(pl[s][0])[0]))
    return [None] * size


def c_Allreduce(size, pl):
    op = _op(pl[0][2])
    acc = np.array(_spec(pl[0][0])[0], copy=True)
    uf = {'SUM': np.add}
    for p in pl[1:]:
        b = _spec(p[0])[0]
        acc = np.vectorize(op, otypes=[acc.dtype])(acc, b) if acc.size \
            else acc
    for p in pl:
        _fill(_spec(p[1])[0], 0, _bytes(acc))
    return [None] * size


def c_Bcast(size, pl):
    root = pl[0][1]
    d = _bytes(_spec(pl[root][0])[0])
    for r in range(size):
        if r != root:
            _fill(_spec(pl[r][0])[0], 0, d)
    return [None] * size


def c_Gatherv(size, pl):
    root = pl[0][2]
    return _gatherv(size, pl, root)


COLL = {k[2:]: v for k, v in list(globals().items()) if k.startswith('c_')}


class Comm(object):
    def __init__(self, world, rank):
        self._w = world
        self._r = rank

    rank = property(lambda s: s._r)
    size = property(lambda s: s._w.size)

    def Get_rank(self):
        return self._r

    def Get_size(self):
        return self._w.size

    def _go(self, name, payload):
        return self._w.enter(self._r, name, payload)

    def scan(self, sendobj, op=None):
        return self._go('scan', (sendobj, _sum(op)))

    def exscan(self, sendobj, op=None):
        return self._go('exscan', (sendobj, _sum(op)))

    def allreduce(self, sendobj, op=None):
        return self._go('allreduce', (sendobj, _sum(op)))

    def reduce(self, sendobj, op=None, root=0):
        return self._go('reduce', (sendobj, _sum(op), root))

    def allgather(self, sendobj):
        return self._go('allgather', sendobj)

    def gather(self, sendobj, root=0):
        return self._go('gather', (sendobj, root))

    def bcast(self, obj, root=0):
        return self._go('bcast', (obj, root))

    def scatter(self, sendobj, root=0):
        return self._go('scatter', (sendobj, root))

    def alltoall(self, sendobj):
        return self._go('alltoall', sendobj)

    def barrier(self):
        return self._go('barrier', None)

    Barrier = barrier

    def Allgather(self, sendbuf, recvbuf):
        return self._go('Allgather', (sendbuf, recvbuf))

    def Allgatherv(self, sendbuf, recvbuf):
        return self._go('Allgatherv', (sendbuf, recvbuf))

    def Gatherv(self, sendbuf, recvbuf, root=0):
        return self._go('Gatherv', (sendbuf, recvbuf, root))

    Gather = Gatherv

    def Bcast(self, buf, root=0):
        return self._go('Bcast', (buf, root))

    def Allreduce(self, sendbuf, recvbuf, op=None):
        return self._go('Allreduce', (sendbuf, recvbuf, _sum(op)))


def _sum(op):
    return Op('SUM', lambda a, b: a + b) if op is None else op


class Self(Comm):
    """A communicator of one rank: every collective completes at once."""

    def __init__(self):
        Comm.__init__(self, None, 0)

    size = property(lambda s: 1)

    def Get_size(self):
        return 1

    def _go(self, name, payload):
        return COLL[name](1, [payload])[0]
