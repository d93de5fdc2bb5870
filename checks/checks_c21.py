"""C21: LLSD values posted and returned, malformed documents."""
import datetime
import itertools
import math
import uuid
from httpworld import *

SCALARS = [None, True, False, 0, 1, -1, 255, 2147483647, -2147483648, 0.0, 1.5, -1e300, 1e-300, 0.1,
           '', 'a', 'true', '0', ' ', ' a ', '<&>"\'', ']]>', 'line\nline', 'tab\there', '<llsd></llsd>', '%s %d %(x)s', u'h\xe9', u'\u20ac\u4e2d',
           llsd.binary(''), llsd.binary('\x00\xff\x80abc'), llsd.binary('text'), llsd.uri('http://x/?a=b&c=d'), llsd.uri(''),
           uuid.UUID(int=0), uuid.UUID(int=2 ** 128 - 1), uuid.UUID('12345678-1234-5678-9abc-def012345678'),
           datetime.datetime(1970, 1, 1), datetime.datetime(2009, 12, 31, 23, 59, 59), [], {}]
FEW = [None, False, 0, 1.5, '', 'a<', u'\xe9', llsd.binary('\xff'), uuid.UUID(int=5), [], {}]
KEYS = ['a', '', u'\xe9', '<&', 'a b', 'ack']
TINY = [None, False, 0, '', 'x']
FORMS = [('xml', llsd.format_xml), ('binary', llsd.format_binary), ('notation', llsd.format_notation)]
BASES = [{'a': 1, 'b': [True, 'x', None]}, [1.5, u'\xe9', {'k': uuid.UUID(int=5)}], llsd.binary('\x00\xff'), -7, 'text"\'<', None,
         datetime.datetime(2009, 1, 2, 3, 4, 5), llsd.uri('http://x'), {}, [], '', False]
CHARS = '\x00\x01<>&"\'{}[]()?!/:,a0i1s\xff\xc3 \n'


def values(level):
    """grouped: containers of a shape over an alphabet"""
    if level == 'scalar':
        for s in SCALARS:
            yield s
    elif level == 'list1':
        for s in SCALARS:
            yield [s]
            for k in KEYS:
                yield {k: s}
    elif level == 'list2':
        for a, b in itertools.product(SCALARS, repeat=2):
            yield [a, b]
    elif level == 'map2':
        for k, l in itertools.combinations(KEYS, 2):
            for a, b in itertools.product(FEW, repeat=2):
                yield {k: a, l: b}
    elif level == 'deep':
        for a in SCALARS:
            yield [[a]]
            yield [{'k': a}]
            yield {'k': [a]}
            yield {'k': {'l': a}}
            yield [[[a]]]
            yield {'k': [{'l': a}]}
            yield [{'k': [a]}]
    elif level == 'deep2':
        for a, b in itertools.product(FEW, repeat=2):
            yield [[a], b]
            yield [a, [b]]
            yield {'a': [a], 'b': b}
            yield {'a': a, 'b': {'c': b}}
            yield [[a, b]]
            yield {'a': {'b': a, 'c': b}}
            yield [{'a': a}, {'b': b}]
            yield [[a], [b]]
    elif level == 'list3':
        for t in itertools.product(FEW, repeat=3):
            yield list(t)
    elif level == 'deep3':
        for t in itertools.product(TINY, repeat=4):
            a, b, c, d = t
            yield [{'k': [a, b]}, {'l': {'m': c, 'n': d}}]
            yield {'k': [a, {'l': [b, c]}], 'z': d}
    elif level == 'long':
        for n in (3, 10, 100, 1000):
            yield range(n)
            yield dict([('k%d' % i, i) for i in range(n)])
        yield 'x' * 100000
        yield llsd.binary(''.join(map(chr, range(256))) * 40)
        x = []
        for i in range(60):
            x = [x]
        yield x


LEVELS = [('scalar', 1), ('list1', 2), ('list2', 8), ('map2', 8), ('deep', 3), ('deep2', 6), ('long', 1)]
MORE = [('list3', 16), ('deep3', 16)]


def cases(tier):
    for level, parts in LEVELS + (MORE if tier != 'quick' else []):
        for f in range(3):
            for i in range(parts):
                yield {'kind': 'reply', 'level': level, 'form': f, 'part': [i, parts]}
        for i in range(parts):
            yield {'kind': 'post', 'level': level, 'part': [i, parts]}
    for b in range(len(BASES)):
        for f in range(3):
            yield {'kind': 'bad', 'base': b, 'form': f}
    yield {'kind': 'junk'}
    yield {'kind': 'wire'}


def part(case):
    i, n = case['part']
    for j, v in enumerate(values(case['level'])):
        if j % n == i and ('only' not in case or case['only'] == j):
            yield j, v


def normal(v):
    """the value as the LLSD library itself gives it back"""
    return v


def run(case, ctx):
    k = case['kind']
    if k == 'reply':
        form = FORMS[case['form']][1]
        for j, v in part(case):
            ctx.case = dict(case, only=j)
            try:
                doc = form(v)
                expect = llsd.parse(doc)
            except Exception:
                ctx.note('not representable in this encoding')
                continue
            reply(ctx, doc, v, expect, case['form'])
        ctx.sample({'form': FORMS[case['form']][0], 'value': repr(v)[:100]})
    elif k == 'post':
        for j, v in part(case):
            if type(v) not in (list, dict):
                continue
            ctx.case = dict(case, only=j)
            post(ctx, v)
    elif k == 'bad':
        bad(case, ctx)
    elif k == 'wire':
        wire(ctx)
    else:
        for s in JUNK:
            ctx.case = case
            ctx.execution()
            ctx.step()
            for how, got in results(s):
                ctx.check(got == 'failed', 'junk', '%s gave %r for %r, which is not LLSD' % (how, got, s))


JUNK = ['', ' ', '\n', '\t \r\n', 'mumpitz', 'barfoo', '<', '<>', '<html>', '<html></html>', '<html><body>no</body></html>', '<llsd>', '<llsd',
        '<?xml version="1.0" ?>', '<?xml', '<llsd/>', '<llsd></llsd>', '<llsd><integer>x</integer></llsd>', '<llsd><real>x</real></llsd>',
        '<llsd><uuid>x</uuid></llsd>', '<llsd><date>x</date></llsd>', '<llsd><map><integer>1</integer></map></llsd>', '<llsd><map><key>a</key></map></llsd>',
        '<llsd><bogus /></llsd>', '<llsd><array><bogus /></array></llsd>', '<llsd><array></llsd>', '<llsd><string>\xff</string></llsd>',
        '{', '[', '{x', "{'a'", "{'a':", "{'a':i1", '[i1', 'i', 'r', 'u', 'ux', 'd', 'd"', '"', "'", '"abc', 's(', 's(3)"a', 'b64"', 'b(3)"', 'l', 'l"',
        '<?llsd/binary?>', '<?llsd/binary?>\n', '<?llsd/binary?>\n{', '<?llsd/binary?>\n[', '<?llsd/binary?>\ni\x00',
        '<?llsd/binary?>\nq', '<?llsd/binary?>\nr\x00', '<?llsd/binary?>\nu\x00', '<?llsd/binary?>\nd\x00', '\x00', '\x00\x00\x00\x00', '\xff\xfe', 'HTTP/1.1 200 OK']


def results(doc):
    """what each way of receiving a document gives"""
    def go(f):
        try:
            return ('value', f())
        except exc.DeserializationFailed, e:
            return 'failed' if e.payload == doc else 'failed for %r' % (e.payload,)
        except Exception, e:
            return '%s: %r' % (type(e).__name__, e.args)
    rest = Rest(lambda n: response(doc, 'application/llsd+xml'))
    cap = Capability('Cap', 'http://x/', rest, SETTINGS)
    yield 'GET', go(cap.GET)
    yield 'POST', go(lambda: cap.POST({}))
    yield 'deserialize', go(lambda: LLSDDeserializer().deserialize(doc))
    yield 'deserialize_file', go(lambda: LLSDDeserializer().deserialize_file(Body(doc)))
    if len(rest.calls) != 2:
        raise Violation('requests', '%d requests for a GET and a POST' % len(rest.calls))


SETTINGS = Settings()
ROUND = ((0, 0, 0), (1, 1, 0))


def reply(ctx, doc, v, expect, form):
    ctx.execution()
    ctx.state((form, doc))
    ctx.outcome(repr(expect)[:40])
    for how, got in results(doc):
        ctx.step()
        ctx.check(isinstance(got, tuple), 'reply', '%s gave %r for %r' % (how, got, v))
        ctx.check(same(got[1], expect), 'reply', '%s gave %r for %r' % (how, got[1], v))
        if same(expect, v) or type(v) in (bool, int, str, type(None)):
            ctx.check(same(got[1], v), 'reply', '%s gave %r for %r' % (how, got[1], v))
        else:
            ctx.note('changed by the LLSD library itself')


def post(ctx, v):
    before = repr(v)
    rest = Rest(lambda n: response(DONE, 'application/llsd+xml'))
    try:
        cap = Capability('Cap', 'http://x/', rest, SETTINGS)
        cap.POST(v)
        cap.POST(v)
    finally:
        ctx.execution()
        ctx.step(2)
    ctx.check(repr(v) == before, 'caller', 'posting changed the payload to %r' % (v,))
    try:
        want = llsd.parse_xml(llsd.format_xml(v))
    except Exception:
        ctx.note('not representable in this encoding')
        return
    serializer = (ListLLSDSerializer if type(v) is list else DictLLSDSerializer)(v)
    bodies = [c[2] for c in rest.calls] + [serializer.serialize()]
    ctx.check(len(bodies) == 3, 'requests', '%d requests for 2 POSTs' % len(rest.calls))
    ctx.check(serializer.content_type == 'application/llsd+xml', 'type', serializer.content_type)
    for b in bodies:
        ctx.check(type(b) is str, 'body', 'the body is %r' % (b,))
        got = llsd.parse_xml(b)
        ctx.check(same(got, want), 'body', 'posting %r sent %r' % (v, got))
        if same(want, v):
            ctx.state(('post', b))
    for c in rest.calls:
        ctx.check(c[3] == {'Content-type': 'application/llsd+xml'}, 'type', 'sent with headers %r' % (c[3],))


DONE = llsd.format_xml({'done': True})


def wire(ctx):
    """the same through the real REST client, and with settings that log everything"""
    verbose = Settings()
    verbose.ENABLE_CAPS_LLSD_LOGGING = True
    n = 0
    for level in ('scalar', 'list1', 'deep'):
        for v in values(level):
            doc = llsd.format_xml(v)
            expect = llsd.parse(doc)
            for url in ('http://h:1/c', u'http://h:1/c'):
                w = Wire(lambda i, r: http(200, 'OK', [('Content-Type', 'application/llsd+xml')], doc))
                cap = Capability('Cap', url, settings=[SETTINGS, verbose][n % 2])
                n += 1
                ctx.execution()
                ctx.step(2)
                got = [cap.GET()]
                payload = v if type(v) in (list, dict) else [v]
                got.append(cap.POST(payload))
                for g in got:
                    ctx.check(same(g, expect), 'reply', 'received %r for %r' % (g, v))
                ctx.check([r.method for r in w.requests] == ['GET', 'POST'], 'requests', '%r' % (w.sent,))
                b = w.requests[1].body
                ctx.check(same(llsd.parse_xml(b), llsd.parse_xml(llsd.format_xml(payload))), 'body', 'posting %r sent %r' % (payload, b))


def bad(case, ctx):
    doc = FORMS[case['form']][1](BASES[case['base']])
    docs = [doc[:i] for i in range(len(doc))]
    n = len(doc)
    if n > 90 and not ctx.thorough:
        where = range(0, n, 3)
    else:
        where = range(n)
    for i in where:
        docs.append(doc[:i] + doc[i + 1:])
        for c in CHARS if ctx.thorough or case['form'] else '\x00<>&"a/ ':
            docs.append(doc[:i] + c + doc[i + 1:])
    if case.get('doc') is not None:
        docs = [docs[case['doc']]]
    for j, d in enumerate(docs):
        if case.get('doc') is None:
            ctx.case = dict(case, doc=j)
        try:
            expect = ('value', llsd.parse(d))
            if d.strip() == '':
                expect = 'failed'
        except Exception:
            expect = 'failed'
        if j < n and case['form'] == 0:
            # no proper prefix of an XML document is one
            ctx.check(expect == 'failed', 'model', 'the LLSD library accepts %r' % d)
        ctx.execution()
        ctx.state((case['form'], d))
        f = LLSDDeserializer()
        try:
            got = ('value', f.deserialize(d))
        except exc.DeserializationFailed, e:
            got = 'failed' if e.payload == d else 'failed for %r' % (e.payload,)
        except Exception, e:
            got = '%s: %r' % (type(e).__name__, e.args)
        ctx.step()
        ctx.outcome(repr(got)[:30])
        if expect == 'failed':
            ctx.check(got == 'failed', 'malformed', '%r gave %r' % (d, got))
        else:
            ctx.check(type(got) is tuple and same(got[1], expect[1]), 'reply', '%r gave %r, not %r' % (d, got, expect))
            ctx.note('still LLSD')
    ctx.sample({'malformed': repr(doc[:60]), 'variants': len(docs)})
