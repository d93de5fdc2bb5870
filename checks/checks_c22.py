"""C22: what a seed capability grants, over all name lists, grants and request histories."""
import itertools
from httpworld import *

NAMES = ['A', 'EventQueueGet', 'capabilities']
URL = 'http://seed/cap'
EXTRAS = [[], ['Extra'], ['Extra', 'Other', 'get']]


def lists(n):
    for k in range(n + 1):
        for t in itertools.product(NAMES, repeat=k):
            yield list(t)


LISTS = list(lists(3))
ODD = ['http://h/a', 'http://h/a/', 'http://h/a//', 'HTTP://H/A', 'https://h:12043/cap/x?y=z&z=%20', ' http://h/a', 'http://h/a ', 'http://h/a\n', '', '/relative', 'x',
       'http://h/%41', u'http://h/\xe9', 'http://h/#frag', 'http://u:p@h/', 'http://[::1]:80/', 'http://h/a;b=c', 'http://h/<&>"', 'http://' + 'long/' * 300, URL,
       llsd.uri('http://h/uri')]
FORMS = [llsd.format_xml, llsd.format_notation, llsd.format_binary]


def cases(tier):
    for i in range(len(LISTS)):
        yield {'kind': 'one', 'i': i}
    ops = len(OPS)
    for p in itertools.product(range(ops), repeat=2):
        yield {'kind': 'seq', 'p': list(p), 'd': 3 if tier == 'quick' else 4}
    yield {'kind': 'wire'}
    yield {'kind': 'many'}
    for i in range(len(ODD)):
        yield {'kind': 'urls', 'i': i}


class Server(object):
    def __init__(self):
        self.grants = {}
        self.extra = []
        self.form = llsd.format_xml
        self.count = 0
        self.more = {}

    def url(self, name):
        return 'http://%s/%d/%s' % (('h%d' % len(name)), self.count, name)

    def __call__(self, request):
        self.count += 1
        self.asked = request
        self.granted = {}
        for n in list(request['capabilities']) + self.extra:
            self.granted[n] = self.url(n)
        d = {'capabilities': self.granted}
        d.update(self.more)
        return self.form(d)


def setup(server, url=URL):
    box = {}

    def answer(n):
        c = rest.calls[n]
        if c[1] == url:
            return response(server(llsd.parse_xml(c[2])), 'application/llsd+xml')
        return response(llsd.format_xml({'from': c[1]}), 'application/llsd+xml')
    rest = Rest(answer)
    seed = SeedCapability('seed', url, rest, Settings())
    return seed, rest


def ask(ctx, seed, rest, server, names, how):
    mine = list(names)
    before = len(rest.calls)
    got = seed.get() if how == 'default' else seed.get(mine)
    ctx.step()
    ctx.check(mine == names, 'caller', "the caller's list became %r" % (mine,))
    ctx.check(len(rest.calls) == before + 1, 'requests', '%d requests' % (len(rest.calls) - before))
    c = rest.calls[before]
    ctx.check(c[:2] == ('POST', seed.public_url), 'requests', 'made %r' % (c[:2],))
    ctx.check(c[3] == {'Content-type': 'application/llsd+xml'}, 'headers', 'sent %r' % (c[3],))
    posted = llsd.parse_xml(c[2])
    ctx.check(same(posted, {'capabilities': names}), 'asked', 'asked for %r, not %r' % (posted, names))
    verify(ctx, got, rest, dict([(n, server.granted[n]) for n in names]))
    return got


def verify(ctx, got, rest, want):
    ctx.check(type(got) is dict and sorted(got) == sorted(want), 'granted', 'got %r, not %r' % (got, sorted(want)))
    for n in want:
        cap = got[n]
        ctx.check(isinstance(cap, Capability) and not isinstance(cap, SeedCapability), 'granted', 'got %r' % (cap,))
        ctx.check(cap.name == n and cap.public_url == want[n], 'granted', 'asked for %s at %s, got %s at %s' % (n, want[n], cap.name, cap.public_url))
        ctx.check(cap.restclient is rest, 'client', '%s uses another REST client' % n)
    ctx.check(len(set(map(id, got.values()))) == len(got), 'granted', 'one capability for several names')


def use(ctx, cap, rest):
    n = len(rest.calls)
    want = {'from': cap.public_url}
    got = cap.GET(), cap.POST({})
    ctx.step(2)
    ctx.check(got == (want, want), 'use', 'GET and POST of %s gave %r' % (cap.public_url, got))
    ctx.check([c[:2] for c in rest.calls[n:]] == [('GET', cap.public_url), ('POST', cap.public_url)], 'use', 'requested %r' % (rest.calls[n:],))


OPS = [('ask', ['A']), ('ask', ['A', 'EventQueueGet']), ('ask', []), ('default', []), ('ask', ['capabilities', 'A']), ('extra', None),
       ('use', None), ('change', None), ('fail', None), ('other seed', ['A']), ('not llsd', None)]


def sequence(seq, ctx):
    server, server2 = Server(), Server()
    server2.count = 100
    seed, rest = setup(server)
    seed2 = SeedCapability('seed', URL + '2', rest)
    held = []
    first = rest.answer
    state = {'fail': None}

    def answer(n):
        if state['fail'] == 'http':
            state['fail'] = None
            raise HTTPError(503, 'no', Body(''))
        if state['fail'] == 'llsd':
            state['fail'] = None
            return response('mumpitz', 'application/llsd+xml')
        c = rest.calls[n]
        if c[1] == URL + '2':
            return response(server2(llsd.parse_xml(c[2])), 'application/llsd+xml')
        return first(n)
    rest.answer = answer
    for i, s in enumerate(seq):
        ctx.case = {'kind': 'seq', 'p': seq[:i + 1], 'd': i + 1}
        op, arg = OPS[s]
        if op in ('ask', 'default'):
            got = ask(ctx, seed, rest, server, arg, op)
            held.append((got, dict([(n, got[n].public_url) for n in got])))
        elif op == 'other seed':
            got = ask(ctx, seed2, rest, server2, arg, 'ask')
            held.append((got, dict([(n, got[n].public_url) for n in got])))
        elif op == 'extra':
            server.extra = ['Extra', 'EventQueueGet']
        elif op == 'use':
            if held and held[-1][0]:
                use(ctx, sorted(held[-1][0].items())[0][1], rest)
        elif op == 'change' and held:
            # the caller does what it wants with what it got
            got, want = held.pop()
            for n in got:
                got[n].public_url = 'http://changed/'
            got['mine'] = None
        else:
            n = len(rest.calls)
            state['fail'] = {'fail': 'http', 'not llsd': 'llsd'}.get(op)
            try:
                seed.get(['A'])
                failed = False
            except (exc.ResourceError, exc.DeserializationFailed):
                failed = True
            except Exception:
                failed = False
            if state['fail'] is not None or op in ('fail', 'not llsd'):
                ctx.check(failed, 'failure', 'no resource error for a failed request')
            ctx.check(len(rest.calls) == n + 1, 'requests', 'failing request made %d times' % (len(rest.calls) - n))
        for got, want in held:
            verify(ctx, got, rest, want)
        ctx.check((seed.name, seed.public_url, seed.restclient) == ('seed', URL, rest), 'seed', 'the seed capability changed')
        ctx.state(tuple(seq[:i + 1]))
    ctx.execution()


def run(case, ctx):
    k = case['kind']
    if k == 'seq':
        for rest in itertools.product(range(len(OPS)), repeat=case['d'] - len(case['p'])):
            sequence(list(case['p']) + list(rest), ctx)
    elif k == 'one':
        names = LISTS[case['i']]
        for extra in EXTRAS:
            for form in FORMS:
                for more in ({}, {'Extra': 'http://x/', 'A': 'http://wrong/', 'id': 5}):
                    for url in (URL, u'http://seed/u'):
                        server = Server()
                        server.extra, server.form, server.more = extra, form, more
                        seed, rest = setup(server, url)
                        got = ask(ctx, seed, rest, server, names, 'ask')
                        for cap in got.values():
                            use(ctx, cap, rest)
                        if not names:
                            ask(ctx, seed, rest, server, names, 'default')
                        ctx.execution()
                        ctx.state((case['i'], len(extra), FORMS.index(form), len(more)))
                        ctx.outcome(repr(sorted(got)))
        ctx.sample({'names': names})
    elif k == 'urls':
        # whatever the urls granted look like, of two names at once
        for other in ODD:
            for form in FORMS:
                server = Server()
                server.form = form
                server.url = lambda n: ODD[case['i']] if n == 'A' else other
                try:
                    read = llsd.parse(form([ODD[case['i']], other]))
                except Exception:
                    read = None
                if read is None or not same(read, [ODD[case['i']], other]) and FORMS.index(form):
                    ctx.note('not representable in this encoding')
                    continue
                seed, rest = setup(server)
                got = seed.get(['A', 'EventQueueGet'])
                ctx.step()
                verify(ctx, got, rest, {'A': read[0], 'EventQueueGet': read[1]})
                for cap in got.values():
                    if cap.public_url != URL:
                        use(ctx, cap, rest)
                ctx.execution()
                ctx.state((case['i'], other, FORMS.index(form)))
    elif k == 'many':
        names = ['cap%d' % i for i in range(200)] + [u'\xe9', 'a b', '<&>', '']
        server = Server()
        server.url = lambda n: 'http://h/%d' % (names.index(n) if n in names else -1)
        seed, rest = setup(server)
        server.extra = ['x%d' % i for i in range(50)]
        ask(ctx, seed, rest, server, names, 'ask')
        ctx.execution()
    else:
        for names in LISTS[:20]:
            server = Server()
            w = Wire(lambda n, r: http(200, 'OK', [('Content-Type', 'application/llsd+xml')], server(llsd.parse_xml(r.body))))
            seed = SeedCapability('seed', URL)
            got = seed.get(names)
            verify(ctx, got, seed.restclient, dict([(n, server.granted[n]) for n in names]))
            ctx.check(len(w.sent) == 1 and same(server.asked, {'capabilities': names}), 'asked', 'asked for %r, not %r' % (server.asked, names))
            ctx.execution()
            ctx.step()
