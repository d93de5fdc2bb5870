"""C20: every HTTP outcome of a capability's GET and POST."""
import itertools
from httpworld import *

URL = 'http://10.0.0.1:1234/cap/0000-1111'
DOC = llsd.format_xml({'a': 1})
DECODED = {'a': 1}
# content type, is LLSD for GET, is LLSD for POST (None: depends on the body)
TYPES = [('application/llsd+xml', True, True), ('application/llsd+xml; charset=utf-8', True, True),
         ('application/llsd+xml;charset=utf-8', True, True), ('application/llsd+xml;a=b; c=d', True, True),
         ('application/llsd+xml;', True, True),
         ('application/xml', False, True), ('application/xml; charset=utf-8', False, True),
         ('text/html', False, None), ('text/html; charset=utf-8', False, None), ('text/html;', False, None),
         ('text/plain', False, False), ('text/xml', False, False), ('application/octet-stream', False, False),
         ('application/llsd', False, False), ('application/llsd+json', False, False), ('application/llsd+binary', False, False),
         ('llsd+xml', False, False), ('application/xhtml+xml', False, False), ('application/json', False, False),
         ('application/llsd+xml2', False, False), ('x-application/llsd+xml', False, False),
         ('text/plain; application/llsd+xml', False, False), ('text/html+xml', False, False), ('charset=utf-8', False, False),
         ('application/llsd+xml ; charset=utf-8', True, True), ('Application/LLSD+XML', True, True),
         ('APPLICATION/Xml; Charset=utf-8', False, True), ('text/HTML ;charset=utf-8', False, None), ('TEXT/PLAIN', False, False)]
# body, is an LLSD document that may come as text/html, decoded value or None if undecodable
BODIES = [(DOC, True, ('v', DECODED)),
          (llsd.format_xml([]), True, ('v', [])),
          (llsd.format_xml(None), True, ('v', None)),
          (llsd.format_xml({}), True, ('v', {})),
          (llsd.format_xml(False), True, ('v', False)),
          (llsd.format_xml(0), True, ('v', 0)),
          (llsd.format_xml(''), True, ('v', '')),
          (llsd.format_xml({'a': 'line\nline\r\n', 'b': u'\xe9 </llsd> <&'}), True, None),
          (llsd.format_xml({'a': 1}) + '\n', True, ('v', DECODED)),
          ('<llsd><map><key>a</key><integer>1</integer></map></llsd>', False, ('v', DECODED)),
          ('<?xml version="1.0" encoding="UTF-8"?><llsd><integer>3</integer></llsd>', False, ('v', 3)),
          ("{'a':i1}", False, ('v', DECODED)),
          (llsd.format_binary({'a': 1}), False, ('v', DECODED)),
          ('', False, ('bad',)), ('   \n', False, ('bad',)), ('mumpitz', False, ('bad',)), ('<html><body>500</body></html>', False, ('bad',)),
          ('<llsd>', False, ('bad',)), ('<llsd><integer>x</integer></llsd>', False, ('bad',)), ('"unterminated', False, ('bad',)),
          ('<?xml version="1.0" ?><llsd><map><key>a</key></llsd>', True, ('bad',)),
          ('<?xml version="1.0" ?><llsd><nothing /></llsd>', True, ('bad',)),
          ('<?xml version="1.0" ?><llsd><integer>1</integer>', False, ('bad',)),
          ('\xff\xfe\x00', False, ('bad',)),
          # a page that has one in it is not one
          ('<html><body>' + DOC + '</body></html>', False, ('bad',)), ('error: ' + DOC, False, ('bad',))]
HEADERS = [{}, {'X-A': 'b'}, {'Content-type': 'text/plain'}, {'Content-type': 'application/xml', 'Accept': '*/*', 'X-Empty': ''},
           {'X-\xe9': '\xff'}, {'Content-Type': 'text/plain'}, {'CONTENT-type': 'text/x', 'X-A': 'b'}, {u'content-type': u'a/b'}]
PAYLOADS = [{}, [], {'a': 'b'}, ['a', 'b', 1], {'deep': [{'x': [None, True]}], u'k\xe9': u'v\xe9'}]
REFUSED = [None, 'text', u'text', '', 0, 1, 1.5, True, (), ('a',), set(['a']), frozenset(), object(), dict, list, iter([]), xrange(3),
           llsd.uri('http://x'), llsd.binary('x'), Exception('x')]
CALLS = ['GET', 'POST', 'POST_CUSTOM']


def cases(tier):
    q = tier == 'quick'
    codes = [c for c in range(300, 600)]
    for lo in range(0, len(codes), 20):
        yield {'kind': 'codes', 'codes': codes[lo:lo + 20]}
    for i in range(len(TYPES)):
        yield {'kind': 'types', 't': i}
    yield {'kind': 'headers'}
    yield {'kind': 'refused'}
    yield {'kind': 'wire'}
    for i in range(len(STEPS)):
        for j in range(len(STEPS)):
            yield {'kind': 'seq', 'p': [i, j], 'd': 3 if q else 4}


def call(cap, how, payload, headers):
    if how == 'GET':
        return cap.GET() if headers is None else cap.GET(headers)
    if how == 'POST':
        return cap.POST(payload) if headers is None else cap.POST(payload, headers)
    return cap.POST_CUSTOM({} if headers is None else headers, payload)


def outcome(f):
    try:
        return ('value', f())
    except exc.ResourceNotFound, e:
        return ('not found', e.url)
    except exc.ResourceError, e:
        return ('error', e.url, e.code, e.message, e.body, e.method)
    except exc.DeserializerNotFound, e:
        return ('no deserializer', e.content_type.strip().lower())
    except exc.DeserializationFailed, e:
        return ('failed', e.payload)


def expected(how, url, reply):
    """reply: ('http', code, msg, body) or ('ok', type index, body index)"""
    if reply[0] == 'http':
        if reply[1] == 404:
            return ('not found', url)
        return ('error', url, reply[1], reply[2], reply[3], 'GET' if how == 'GET' else 'POST')
    ctype, get, post = TYPES[reply[1]]
    body, is_doc, decoded = BODIES[reply[2]]
    ok = get if how == 'GET' else post
    if ok is None:
        ok = is_doc
    if not ok:
        return ('no deserializer', ctype.split(';')[0].strip().lower())
    if decoded is None:
        return ('value', llsd.parse(body))
    if decoded[0] == 'bad':
        return ('failed', body)
    return ('value', decoded[1])


def answer(reply):
    if reply[0] == 'http':
        raise HTTPError(reply[1], reply[2], Body(reply[3]))
    return response(BODIES[reply[2]][0], TYPES[reply[1]][0])


def check_request(ctx, made, how, url, payload, headers):
    ctx.check(made[0] == ('GET' if how == 'GET' else 'POST'), 'method', '%s made a %s request' % (how, made[0]))
    ctx.check(made[1] == url, 'url', '%s requested %r, not %r' % (how, made[1], url))
    # the case of header names doesn't matter
    want = dict([(n.lower(), v) for n, v in (headers or {}).items()])
    if how == 'POST':
        want.setdefault('content-type', 'application/llsd+xml')
        ctx.check(type(made[2]) is str, 'body', 'posted %r' % (made[2],))
        got = llsd.parse_xml(made[2])
        ctx.check(same(got, payload), 'body', 'posted %r for %r' % (got, payload))
    elif how == 'POST_CUSTOM':
        ctx.check(made[2] == payload, 'body', 'posted %r for %r' % (made[2], payload))
    sent = sorted([(n.lower(), v) for n, v in made[3].items()])
    ctx.check(sent == sorted(want.items()), 'headers', '%s sent headers %r, not %r' % (how, made[3], want))


def one(ctx, cap, rest, how, payload, headers, reply, url=URL):
    ctx.case = {'kind': 'one', 'how': how, 'payload': payload, 'headers': headers, 'reply': list(reply), 'custom': how == 'POST_CUSTOM'}
    before = len(rest.calls)
    rest.reply = reply
    mine = None if headers is None else dict(headers)
    got = outcome(lambda: call(cap, how, payload, mine))
    want = expected(how, url, reply)
    ctx.step()
    ctx.execution()
    ctx.state((how, repr(headers), repr(payload), repr(reply)))
    ctx.outcome(repr(want)[:60])
    ctx.check(len(rest.calls) == before + 1, 'requests', '%s with outcome %r made %d requests' % (how, reply, len(rest.calls) - before))
    check_request(ctx, rest.calls[-1], how, url, payload, headers)
    ctx.check(got[0] == want[0] and same(list(got), list(want)), 'result',
              '%s with outcome %r gave %r, not %r' % (how, reply, got, want))
    ctx.check(mine == headers, 'caller', "the caller's headers became %r" % (mine,))
    ctx.check(cap.public_url == url, 'url', 'the capability now has url %r' % (cap.public_url,))


def make(url=URL):
    rest = Rest(None)
    rest.answer = lambda n: answer(rest.reply)
    return Capability('Cap', url, rest, Settings()) if url != URL else Capability('Cap', url, rest), rest


# steps of sequences of calls on one capability and another with the same client
STEPS = [('GET', None, ('ok', 0, 0)), ('POST', None, ('ok', 1, 0)), ('GET', {'X-A': 'b'}, ('http', 500, 'bad', 'why')),
         ('POST', {'Content-type': 'text/x'}, ('ok', 5, 0)), ('POST', {'X-B': 'c'}, ('http', 404, 'none', '')),
         ('POST_CUSTOM', {'Content-type': 'application/x'}, ('ok', 7, 0)), ('POST', None, ('ok', 0, 15)), ('GET', None, ('ok', 10, 0)),
         ('other GET', None, ('ok', 0, 1)), ('other POST', {'Content-type': 'text/y'}, ('ok', 0, 0)), ('refused', None, None)]


def run(case, ctx):
    k = case['kind']
    if k == 'one':
        cap, rest = make()
        one(ctx, cap, rest, case['how'], case['payload'], case['headers'], tuple(case['reply']))
    elif k == 'codes':
        cap, rest = make()
        for code in case['codes']:
            for how in CALLS:
                for msg, body in (('Not Found', 'no such thing'), ('', ''), ('OK', DOC), (u'caf\xe9', '\xff\x00<llsd>')):
                    for headers in (None, {'X-A': 'b'}):
                        one(ctx, cap, rest, how, {'a': 1} if how == 'POST' else 'raw', headers, ('http', code, msg, body))
        ctx.sample({'codes': case['codes']})
    elif k == 'types':
        for how in CALLS:
            cap, rest = make()
            for b in range(len(BODIES)):
                for headers in (None, {'Accept': 'x'}):
                    for p in (PAYLOADS if how == 'POST' else ['raw\0\xff']):
                        one(ctx, cap, rest, how, p, headers, ('ok', case['t'], b))
        ctx.sample({'type': TYPES[case['t']][0], 'bodies': len(BODIES)})
    elif k == 'headers':
        for url in (URL, 'http://h/', 'http://h/a?b=c&d=%20', u'http://h/unicode'):
            cap, rest = make(url)
            for how in CALLS:
                for headers in [None] + HEADERS:
                    for p in (PAYLOADS if how == 'POST' else ['', 'raw\0\xff', 'x' * 70000]):
                        for reply in (('ok', 0, 0), ('http', 404, 'x', 'y'), ('http', 503, 'x', 'y'), ('ok', 12, 0), ('ok', 0, 15)):
                            one(ctx, cap, rest, how, p, headers, reply, url)
    elif k == 'refused':
        for headers in (None, {'X-A': 'b'}):
            for p in REFUSED:
                cap, rest = make()
                rest.reply = ('ok', 0, 0)
                ctx.case = {'kind': 'refused'}
                try:
                    got = ('value', call(cap, 'POST', p, headers))
                except exc.DeserializerNotFound:
                    got = 'refused'
                except Exception, e:
                    got = repr(e)
                ctx.execution()
                ctx.step()
                ctx.check(got == 'refused', 'payload', 'a payload %r gave %r' % (p, got))
                ctx.check(not rest.calls, 'requests', 'a payload %r was sent' % (p,))
    elif k == 'wire':
        # the same outcomes through the real REST client
        for how in CALLS:
            for reply in [('http', c, 'Some Reason', 'the body') for c in (400, 401, 403, 404, 405, 410, 499, 500, 502, 503, 599)] + [
                    ('ok', t, b) for t in (0, 1, 5, 7, 10) for b in (0, 1, 2, 13, 15)]:
                for headers in (None, {'X-A': 'b'}, {'Content-type': 'a/b'}, {'Content-Type': 'c/d'}, {'CONTENT-type': 'e/f'}):
                    if reply[0] == 'http':
                        raw = http(reply[1], reply[2], [('Content-Type', 'text/html')], reply[3])
                    else:
                        raw = http(200, 'OK', [('Content-Type', TYPES[reply[1]][0])], BODIES[reply[2]][0])
                    wire = Wire(lambda n, r: raw)
                    cap = Capability('Cap', URL, settings=Settings())
                    payload = {'a': u'\xe9'} if how == 'POST' else '\xffraw'
                    got = outcome(lambda: call(cap, how, payload, headers))
                    want = expected(how, URL, reply)
                    ctx.execution()
                    ctx.step()
                    ctx.check(same(list(got), list(want)), 'result', '%s with outcome %r gave %r, not %r' % (how, reply, got, want))
                    ctx.check(len(wire.sent) == 1, 'requests', '%s with outcome %r made %d requests' % (how, reply, len(wire.sent)))
                    r = wire.requests[0]
                    ctx.check(r.line == '%s /cap/0000-1111 HTTP/1.1' % ('GET' if how == 'GET' else 'POST')
                              and wire.opened == [('10.0.0.1', 1234)], 'url', 'requested %r from %r' % (r.line, wire.opened))
                    for n, v in (headers or {}).items():
                        ctx.check(r.get(n) == [v], 'headers', '%s sent %r, not %s: %s' % (how, r.headers, n, v))
                    if how == 'POST':
                        if 'content-type' not in [n.lower() for n in headers or ()]:
                            ctx.check(r.get('Content-type') == ['application/llsd+xml'], 'headers', 'sent %r' % (r.headers,))
                        ctx.check(same(llsd.parse_xml(r.body), payload), 'body', 'posted %r' % (r.body,))
                    else:
                        ctx.check(r.body == ('' if how == 'GET' else payload), 'body', 'sent %r' % (r.body,))
    else:
        for rest_ in itertools.product(range(len(STEPS)), repeat=case['d'] - len(case['p'])):
            seq = list(case['p']) + list(rest_)
            sequence(seq, ctx)


def sequence(seq, ctx):
    rest = Rest(None)
    rest.answer = lambda n: answer(rest.reply)
    cap = Capability('Cap', URL, rest, Settings())
    other = Capability('Other', URL + '/other', rest)
    for i in range(len(seq)):
        how, headers, reply = STEPS[seq[i]]
        try:
            if how == 'refused':
                n = len(rest.calls)
                rest.reply = ('ok', 0, 0)
                try:
                    cap.POST('text')
                    ctx.check(False, 'payload', 'a string was accepted')
                except exc.DeserializerNotFound:
                    pass
                ctx.check(len(rest.calls) == n, 'requests', 'a refused payload was sent')
            elif how.startswith('other'):
                one(ctx, other, rest, how[6:], {'n': i}, headers, reply, URL + '/other')
            else:
                one(ctx, cap, rest, how, {'n': i} if how == 'POST' else str(i), headers, reply)
        finally:
            ctx.case = {'kind': 'seq', 'p': seq[:i + 1], 'd': i + 1}
