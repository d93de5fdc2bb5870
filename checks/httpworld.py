"""HTTP below the REST client: httplib's connections read from and write to strings,
so every request is seen as the bytes on the wire; and a recording REST client."""
import httplib
import StringIO
from mc import repo, clock
from mc.core import Violation
from eqworld import DIC, Body, llsd, exc, HTTPError, Capability, Settings, Host
from webob import Response
from pyogp.lib.base.caps import SeedCapability
from pyogp.lib.base.network.stdlib_client import StdLibClient
from pyogp.lib.base.helpers import LLSDDeserializer, ListLLSDSerializer, DictLLSDSerializer


class Request(object):
    def __init__(self, raw):
        raw = str(raw)
        head, sep, self.body = raw.partition('\r\n\r\n')
        lines = head.split('\r\n')
        self.line = lines[0]
        self.method, self.target, self.version = lines[0].split(' ')
        self.headers = [tuple(l.split(': ', 1)) for l in lines[1:]]

    def get(self, name):
        return [v for n, v in self.headers if n.lower() == name.lower()]


class Wire(object):
    """answer(n, request) -> reply bytes, or raises"""
    current = None

    def __init__(self, answer):
        self.answer = answer
        self.sent = []       # a list of chunks per connection
        self.opened = []     # (host, port)
        Wire.current = self

    @property
    def requests(self):
        return [Request(''.join(map(str, c))) for c in self.sent]


class Socket(object):
    def __init__(self, wire, n):
        self.wire, self.n = wire, n

    def sendall(self, data):
        if hasattr(data, 'read'):
            data = data.read()
        if isinstance(data, unicode):
            data = data.encode('ascii')
        self.wire.sent[self.n].append(data)

    send = sendall

    def makefile(self, *args):
        chunks = self.wire.sent[self.n]
        if self.n % 2:
            clock.advance(clock.HOUR)
        return StringIO.StringIO(self.wire.answer(self.n, Request(''.join(chunks))))

    def close(self):
        pass

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass


def connect(self):
    w = Wire.current
    w.opened.append((str(self.host), self.port))
    w.sent.append([])
    self.sock = Socket(w, len(w.sent) - 1)


httplib.HTTPConnection.connect = connect


def http(status=200, reason='OK', headers=(), body='', length=True, version='HTTP/1.1'):
    out = '%s %d %s\r\n' % (version, status, reason)
    for n, v in headers:
        out += '%s: %s\r\n' % (n, v)
    if length == 'chunked':
        out += 'Transfer-Encoding: chunked\r\n'
        data = ''
        for i in range(0, len(body), 7):
            c = body[i:i + 7]
            data += '%x\r\n%s\r\n' % (len(c), c)
        body = data + '0\r\n\r\n'
    elif length:
        out += 'Content-Length: %d\r\n' % len(body)
    return out + '\r\n' + body


class Rest(object):
    """records the calls exactly as made; answer(n) -> webob response or raises"""

    def __init__(self, answer):
        self.answer = answer
        self.calls = []

    def pause(self):
        # long requests, and short ones
        if len(self.calls) % 2 == 0:
            clock.advance(clock.HOUR)

    def GET(self, url, headers={}):
        self.calls.append(('GET', url, None, dict(headers)))
        self.pause()
        return self.answer(len(self.calls) - 1)

    def POST(self, url, data, headers={}):
        self.calls.append(('POST', url, data, dict(headers)))
        self.pause()
        return self.answer(len(self.calls) - 1)


def response(body, ctype, status='200 OK'):
    r = Response(body=body, status=status)
    r.headers['Content-Type'] = ctype
    return r


def same(a, b):
    """equal values of equal LLSD types"""
    if isinstance(a, basestring) and isinstance(b, basestring):
        return a == b
    if type(a) is not type(b) and not (isinstance(a, (int, long)) and isinstance(b, (int, long))
                                       and not isinstance(a, bool) and not isinstance(b, bool)):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and not [1 for x, y in zip(a, b) if not same(x, y)]
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or not same(a[k], b[k]):
                return False
        return True
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b
