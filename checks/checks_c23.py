"""C23: the REST client, from its arguments to the bytes on the connection and back."""
import itertools
import socket
import urllib2
from httpworld import *

URLS = [('http://10.0.0.1:1234/cap/0000', ('10.0.0.1', 1234), '/cap/0000'), ('http://host/', ('host', 80), '/'),
        ('http://host', ('host', 80), '/'), ('http://host:80/a?b=c&d=%20e', ('host', 80), '/a?b=c&d=%20e'),
        ('http://host/a/../b;c=d', ('host', 80), '/a/../b;c=d'), (u'http://host/u', ('host', 80), '/u')]
HEADERS = [None, {}, {'X-A': 'b'}, {'Content-type': 'application/llsd+xml', 'Accept': '*/*'}, {'User-agent': 'pyogp', 'X-Empty': ''},
           {u'X-U': u'v'}, {'X-High': '\xe9\xff'}, {'content-type': 'lower/case', 'X-Many-Words': 'a, b; c="d"'}]
ALL = ''.join(map(chr, range(256)))
BODIES = ['', 'x', 'a=b', '\r\n\r\n', ALL, '\xff', '\x00', ALL * 400, '<llsd>\xc3\xa9</llsd>', ' x ', '\n']
RESPONSE_HEADERS = [[], [('Content-Type', 'application/llsd+xml')], [('Content-Type', 'text/html; charset=utf-8'), ('X-A', 'b')],
                    [('content-type', 'application/xml'), ('X-Empty', ''), ('Location', 'http://else/'), ('ETag', '"x"')],
                    [('X-Words', 'a, b; c="d:e"'), ('Date', 'Thu, 01 Jan 1970 00:00:00 GMT'), ('Content-Encoding', 'gzip')],
                    [('Set-Cookie', 'a=b; Path=/'), ('Connection', 'close')]]
REPEATED = [[('X-A', '1'), ('X-A', '2')], [('Via', 'b'), ('X-B', 'c'), ('via', 'a'), ('VIA', 'b')], [('Allow', 'GET, PUT'), ('Allow', ''), ('Allow', 'POST')]]
BIG = [65535, 65536, 65537, 131072, 1048575, 1048577, 3000001]
REASONS = ['OK', 'Not Found', 'A Longer Reason: with (things)', 'x']
REDIRECTS = (301, 302, 303, 307)


def cases(tier):
    for lo in range(200, 600, 10):
        yield {'kind': 'codes', 'lo': lo}
    for i in range(len(URLS)):
        for m in ('GET', 'POST'):
            for j in range(len(HEADERS)):
                yield {'kind': 'request', 'url': i, 'm': m, 'h': j}
    for i in range(len(RESPONSE_HEADERS)):
        yield {'kind': 'response', 'h': i}
    yield {'kind': 'byte'}
    yield {'kind': 'failures'}
    for m in ('GET', 'POST'):
        for i in range(len(REPEATED)):
            yield {'kind': 'repeated', 'm': m, 'h': i}
        for n in BIG:
            yield {'kind': 'big', 'm': m, 'n': n}
    for p in itertools.product(range(len(STEPS)), repeat=2):
        yield {'kind': 'seq', 'p': list(p), 'd': 3 if tier == 'quick' else 4}


def call(client, m, url, data, headers):
    if m == 'GET':
        return client.GET(url) if headers is None else client.GET(url, headers)
    return client.POST(url, data) if headers is None else client.POST(url, data, headers)


AUTO = {'GET': ['accept-encoding', 'connection', 'host', 'user-agent'],
        'POST': ['accept-encoding', 'connection', 'content-length', 'content-type', 'host', 'user-agent']}


def exchange(ctx, client, m, u, data, headers, status, reason, rheaders, rbody, length=True, version='HTTP/1.1'):
    """one call, checked from end to end"""
    url, addr, target = URLS[u]
    wire = Wire(lambda n, r: http(status, reason, rheaders, rbody, length, version))
    mine = None if headers is None else dict(headers)
    error = None
    try:
        r = call(client, m, url, data, mine)
    except exc.HTTPError, e:
        error = e
    ctx.execution()
    ctx.step()
    ctx.state((m, u, status, reason, repr(headers), hash(data), repr(rheaders), hash(rbody), length))
    ctx.outcome((status, error is None))
    what = '%s %s answered %d' % (m, url, status)
    ctx.check(mine == headers, 'caller', "the caller's headers became %r" % (mine,))
    ctx.check(len(wire.sent) == 1, 'requests', '%s: %d requests' % (what, len(wire.sent)))
    q = wire.requests[0]
    ctx.check(wire.opened == [(addr[0], addr[1])], 'url', '%s connected to %r' % (what, wire.opened))
    ctx.check((q.method, q.target) == (m, target), 'request', '%s sent %r' % (what, q.line))
    for n, v in (headers or {}).items():
        ctx.check(q.get(n) == [str(v)], 'headers', '%s sent %r for %s: %r' % (what, q.get(n), n, v))
    names = set([n.lower() for n in headers or {}])
    extra = [n for n, v in q.headers if n.lower() not in names and n.lower() not in AUTO[m]]
    ctx.check(not extra, 'headers', '%s sent other headers: %r' % (what, extra))
    ctx.check(q.body == (data if m == 'POST' else ''), 'body', '%s sent body %r' % (what, q.body[:100]))
    if m == 'POST':
        ctx.check(q.get('content-length') == [str(len(data))], 'body', '%s sent length %r' % (what, q.get('content-length')))
    if 200 <= status < 300:
        ctx.check(error is None, 'result', '%s raised %r' % (what, error))
        ctx.check(r.status_int == status, 'status', '%s gave status %r' % (what, r.status))
        ctx.check(r.status.split(' ', 1)[1] == reason, 'status', '%s %r gave status %r' % (what, reason, r.status))
        ctx.check(type(r.body) is str and r.body == rbody, 'response body', '%s gave body %r for %r' % (what, r.body[:100], rbody[:100]))
        for n, v in rheaders:
            ctx.check(r.headers.get(n) == v, 'response headers', '%s gave %s: %r for %r' % (what, n, r.headers.get(n), v))
        have = set([n.lower() for n, v in rheaders] + ['content-length', 'transfer-encoding'])
        if not [1 for n in have if n == 'content-type']:
            have.add('content-type')
        extra = [n for n in r.headers.keys() if n.lower() not in have]
        ctx.check(not extra, 'response headers', '%s gave headers that were not sent: %r' % (what, extra))
        return r
    ctx.check(error is not None, 'result', '%s returned %r' % (what, error is None and r))
    ctx.check(error.code == status and error.msg == reason, 'error', '%s %r raised %r %r' % (what, reason, error.code, error.msg))
    ctx.check(error.fp.read() == rbody, 'error body', '%s raised an error with another body' % what)


STEPS = [('GET', 0, None, None, 200), ('GET', 1, None, {'X-A': 'b'}, 200), ('POST', 0, 'data', None, 200),
         ('POST', 0, 'more data', {'Content-type': 'a/b', 'X-C': 'd'}, 200), ('GET', 0, None, None, 404), ('POST', 3, ALL, {'X-D': 'e'}, 503),
         ('other GET', 1, None, {'X-E': 'f'}, 200), ('other POST', 0, '', {}, 500)]


def run(case, ctx):
    k = case['kind']
    client = StdLibClient()
    if k == 'codes':
        for status in range(case['lo'], case['lo'] + 10):
            if status in REDIRECTS:
                continue
            for m in ('GET', 'POST'):
                for reason in REASONS:
                    for rh in RESPONSE_HEADERS[:4]:
                        if 300 <= status < 400:
                            rh = [x for x in rh if x[0] != 'Location']
                        for rbody in BODIES[:6]:
                            if status in (204, 304) and rbody:
                                continue
                            exchange(ctx, client, m, 0, 'data', None, status, reason, rh, rbody)
        ctx.sample({'codes': [case['lo'], case['lo'] + 9]})
    elif k == 'request':
        for data in BODIES if case['m'] == 'POST' else [None]:
            for status in (200, 404, 500):
                exchange(ctx, client, case['m'], case['url'], data, HEADERS[case['h']], status, 'OK', RESPONSE_HEADERS[1], 'reply')
    elif k == 'response':
        for m in ('GET', 'POST'):
            for rbody in BODIES:
                for status in (200, 201, 206, 401, 404, 407, 503):
                    for length in (True, False, 'chunked'):
                        for version in ('HTTP/1.1', 'HTTP/1.0'):
                            if version == 'HTTP/1.0' and length == 'chunked':
                                continue
                            exchange(ctx, client, m, 0, '', {}, status, 'OK', RESPONSE_HEADERS[case['h']], rbody, length, version)
    elif k == 'byte':
        for c in ALL:
            for b in (c, c + 'x', 'x' + c, c + c):
                exchange(ctx, client, 'POST', 0, b, {}, 200, 'OK', RESPONSE_HEADERS[1], b)
            exchange(ctx, client, 'GET', 0, None, {}, 404, 'OK', RESPONSE_HEADERS[1], c)
    elif k == 'repeated':
        rh = REPEATED[case['h']]
        for status in (200, 201, 206):
            w = Wire(lambda n, r: http(status, 'OK', rh, 'reply'))
            r = call(client, case['m'], URLS[0][0], 'x', None)
            ctx.execution()
            for name in set([n.lower() for n, v in rh]):
                want = [v for n, v in rh if n.lower() == name]
                got = [v for n, v in r.headers.items() if n.lower() == name]
                ctx.check(', '.join(got) == ', '.join(want), 'response headers', 'repeated headers %r became %r' % (rh, got))
    elif k == 'big':
        body = (ALL * (case['n'] // 256 + 1))[:case['n']]
        for status in (200, 404):
            exchange(ctx, client, case['m'], 0, body, {}, status, 'OK', RESPONSE_HEADERS[1], body)
    elif k == 'failures':
        for m in ('GET', 'POST'):
            for e in (socket.error(111, 'refused'), socket.timeout('timed out')):
                def answer(n, r):
                    raise e
                w = Wire(answer)
                try:
                    call(client, m, URLS[0][0], 'x', None)
                    ctx.check(False, 'result', 'a failed connection gave a result')
                except exc.HTTPError, x:
                    ctx.check(False, 'result', 'a failed connection gave the HTTP error %r' % (x,))
                except (urllib2.URLError, socket.error):
                    pass
                ctx.execution()
                ctx.check(len(w.sent) == 1, 'requests', '%d requests' % len(w.sent))
    else:
        for rest in itertools.product(range(len(STEPS)), repeat=case['d'] - len(case['p'])):
            a, b = StdLibClient(), StdLibClient()
            held = []
            seq = list(case['p']) + list(rest)
            for i, s in enumerate(seq):
                ctx.case = {'kind': 'seq', 'p': seq[:i + 1], 'd': i + 1}
                m, u, data, headers, status = STEPS[s]
                c = a
                if m.startswith('other'):
                    c, m = b, m[6:]
                body = 'reply %d' % i
                r = exchange(ctx, c, m, u, data, headers, status, 'R%d' % i, [('X-N', str(i))], body)
                if r is not None:
                    held.append((r, body, i))
                for r, body, n in held:
                    ctx.check(r.body == body and r.headers['X-N'] == str(n), 'earlier response', 'a later call changed an earlier response')
