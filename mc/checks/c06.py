"""C06: retrieval over an unreliable network."""
import io
import itertools
import socket
import http.client
import urllib.error
import urllib.request

from mc.core import Violation

PROPERTY = 'C06'
LEVEL = 'fault_enumeration'
RULE = ('every sequence of per-attempt network behaviours (15 kinds, at the '
        'open and at the read stage) up to the bound, for every retry limit '
        '0..bound+1; non-trivial: at least one fault injected; distinct by '
        '(limit, sequence, outcome)')
BOUNDS = {'quick': 'fault sequences to length 4, retry limits 0..5',
          'thorough': 'fault sequences to length 5, retry limits 0..6'}

DATA = [b'payload-%d' % i * (i + 1) for i in range(8)]


class Resp(object):
    def __init__(self, act):
        self.act = act
        self.closed = False

    def read(self, amt=None):
        a = self.act
        if isinstance(a, BaseException):
            raise a
        return a

    def readinto(self, b):
        raise io.UnsupportedOperation()

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# (name, stage, maker, class) ; class: ok / timeout / other
KINDS = [
    ('ok', 'read', None, 'ok'),
    ('empty', 'read', None, 'ok'),
    ('open-urlerror-timeout', 'open',
     lambda: urllib.error.URLError(socket.timeout('timed out')), 'timeout'),
    ('open-urlerror-TimeoutError', 'open',
     lambda: urllib.error.URLError(TimeoutError(110, 'timed out')),
     'timeout'),
    ('open-refused', 'open',
     lambda: urllib.error.URLError(ConnectionRefusedError(111, 'refused')),
     'other'),
    ('open-noname', 'open',
     lambda: urllib.error.URLError(socket.gaierror(-2, 'unknown')), 'other'),
    ('open-str', 'open', lambda: urllib.error.URLError('no host given'),
     'other'),
    ('open-404', 'open',
     lambda: urllib.error.HTTPError('http://x', 404, 'Not Found', {}, None),
     'other'),
    ('open-503', 'open',
     lambda: urllib.error.HTTPError('http://x', 503, 'Busy', {}, None),
     'other'),
    ('open-raw-timeout', 'open', lambda: socket.timeout('timed out'),
     'timeout'),
    ('read-raw-timeout', 'read', lambda: socket.timeout('timed out'),
     'timeout'),
    ('read-urlerror-timeout', 'read',
     lambda: urllib.error.URLError(socket.timeout('timed out')), 'timeout'),
    ('read-urlerror', 'read',
     lambda: urllib.error.URLError('content too short'), 'other'),
    ('read-reset', 'read', lambda: ConnectionResetError(104, 'reset'),
     'foreign'),
    ('read-incomplete', 'read',
     lambda: http.client.IncompleteRead(b'part', 10), 'foreign'),
]


def scenarios(tier):
    n = 4 if tier == 'quick' else 5
    out = [{'key': 'net/none', 'first': None, 'len': n}]
    for k in KINDS:
        for j in KINDS:
            out.append({'key': 'net/%s/%s' % (k[0], j[0]),
                        'first': [k[0], j[0]], 'len': n})
    return out


def run(scn, rec):
    byname = {k[0]: k for k in KINDS}
    if scn['first'] is None:
        for mt in (0, -1):
            go([], mt, rec)
        return
    pre = [byname[x] for x in scn['first']]
    for ln in range(2, scn['len'] + 1):
        for tail in itertools.product(KINDS, repeat=ln - 2):
            seq = pre + list(tail)
            if any(k[3] in ('ok', 'other', 'foreign') for k in seq[:-1]):
                # the history ends at the first conclusive behaviour
                if not any(k[3] in ('ok', 'other', 'foreign')
                           for k in seq[:1]):
                    pass
            for mt in range(1, scn['len'] + 2):
                go(seq, mt, rec)
    rec.sample = {'sequence': scn['first'], 'limit': 1}


def go(seq, maxtry, rec):
    import sporco.util as su
    calls = []
    resps = []

    def urlopen(url, data=None, timeout='absent', **kw):
        i = len(calls)
        calls.append((url, timeout))
        if i >= len(seq):
            k = KINDS[2]
        else:
            k = seq[i]
        if k[0] == 'ok':
            r = Resp(DATA[i])
        elif k[0] == 'empty':
            r = Resp(b'')
        elif k[1] == 'open':
            raise k[2]()
        else:
            r = Resp(k[2]())
        resps.append(r)
        return r

    # reference model
    exp = None
    nexp = 0
    for i in range(max(0, maxtry)):
        nexp += 1
        k = seq[i] if i < len(seq) else KINDS[2]
        if k[3] == 'ok':
            exp = ('data', DATA[i] if k[0] == 'ok' else b'')
            break
        if k[3] in ('other', 'foreign'):
            exp = (k[3], k)
            break
    else:
        exp = ('exhausted', None)

    real = urllib.request.urlopen
    sub = {k: v for k, v in vars(su).items() if v is real}
    urllib.request.urlopen = urlopen
    for k in sub:
        setattr(su, k, urlopen)
    exc = val = None
    try:
        val = su.netgetdata('http://host/f', maxtry=maxtry, timeout=3)
    except Exception as e:
        exc = e
    finally:
        urllib.request.urlopen = real
        for k, v in sub.items():
            setattr(su, k, v)
    rec.evaluation()
    what = 'limit %d, network %r' % (maxtry, [k[0] for k in seq])
    rec.outcome(maxtry, tuple(k[0] for k in seq[:nexp]), exp[0])
    if len(calls) != nexp:
        raise Violation('attempts', '%s: %d attempts, expected %d'
                        % (what, len(calls), nexp))
    for c in calls:
        if c != ('http://host/f', 3):
            raise Violation('request', '%s: request made as %r' % (what, c))
    if exp[0] == 'data':
        if exc is not None:
            raise Violation('lost', '%s: raised %r' % (what, exc))
        got = val.read()
        if got != exp[1]:
            raise Violation('content', '%s: returned %r, expected %r'
                            % (what, got[:40], exp[1][:40]))
        if val.tell() != len(exp[1]) or val.seek(0) != 0:
            raise Violation('stream', what)
    else:
        if exc is None:
            raise Violation('no-error', '%s: returned %r'
                            % (what, val and val.getvalue()))
        if maxtry <= 0:
            if not isinstance(exc, ValueError):
                raise Violation('error-type', '%s: %r' % (what, exc))
        elif exp[0] in ('exhausted', 'other'):
            if not isinstance(exc, urllib.error.URLError):
                raise Violation('error-type', '%s: raised %r, which is not '
                                'the documented URL error' % (what, exc))
