"""C17: all sequences of poll outcomes of an event queue."""
import itertools
import socket
import urllib2
from mc.core import Violation
from eqworld import *

memoize()
HOST = Host(('10.0.0.1', 1000))


class Abort(BaseException):
    pass


class Server(object):
    def __init__(self):
        self.id = 0
        self.count = 0
        self.serial = 0
        self.expected = []
        self.last = None        # id of the last response received

    def event(self, name):
        self.serial += 1
        n = self.serial
        self.expected.append((name, n, self.id))
        if name in ('StartPingCheck', 'RaisingPing'):
            return {'message': name, 'body': {'PingID': [{'PingID': n % 256, 'OldestUnacked': n}]}}
        if name == 'ChatFromViewer':
            return {'message': name, 'body': {'ChatData': [{'Channel': n, 'Message': u'caf\xe9'}], 'AgentData': [{'AgentID': None}]}}
        if name == 'TestMessage':
            return {'message': name, 'body': {'TestBlock1': [{'Test1': n}]}}
        return {'message': name, 'body': {'serial': n, 'deep': {'list': [1, {'x': 2}]}, u'\xfc': u'\xe9'}}

    def ok(self, names, id=None, extra=None):
        if id is None:
            self.count += 1
            id = self.count
        self.id = self.last = id
        d = {'id': id, 'events': [self.event(n) for n in names]}
        d.update(extra or {})
        return reply_llsd(d)


# (label, server -> outcome)
OUTCOMES = [
    ('one', lambda s: s.ok(['OtherEvent'])),
    ('three', lambda s: s.ok(['StartPingCheck', 'OtherEvent', 'ChatFromViewer'])),
    ('raising first', lambda s: s.ok(['Raising', 'OtherEvent', 'OtherEvent'])),
    ('raising middle', lambda s: s.ok(['StartPingCheck', 'TestMessage', 'OtherEvent', 'Raising', 'Raising', 'StartPingCheck'])),
    ('none', lambda s: s.ok([])),
    ('same id', lambda s: s.ok(['OtherEvent', 'Unheard'], s.id or 1)),
    ('extra keys', lambda s: s.ok(['OtherEvent', 'StartPingCheck'], None, {'aaa': 5, 'zzz': 'more', 'events2': []})),
    ('502', lambda s: http_error(502)),
    ('404', lambda s: http_error(404)),
    ('refused', lambda s: raising(socket.error(111, 'refused'))),
    ('garbage', lambda s: reply('garbage that is not llsd')),
    ('html', lambda s: reply('<html>hello</html>', 'text/html')),
    ('no id', lambda s: reply_llsd({'events': []})),
    ('list', lambda s: reply_llsd(['nothing'])),
]
MORE = OUTCOMES + [
    ('id 0', lambda s: s.ok(['OtherEvent'], 0)),
    ('big id', lambda s: s.ok(['StartPingCheck'], 2147483647)),
    ('negative id', lambda s: s.ok(['StartPingCheck'], -2147483648)),
    ('all unheard', lambda s: s.ok(['Unheard', 'Unheard2'])),
    ('no events', lambda s: s.ok([], None) and reply_llsd({'id': s.id})),
    ('url error', lambda s: raising(urllib2.URLError('timed out'))),
    ('timeout', lambda s: raising(socket.timeout('timed out'))),
    ('500', lambda s: http_error(500, 'upstream', '')),
    ('no type', lambda s: no_type('x')),
    ('empty', lambda s: reply('')),
    ('string', lambda s: reply_llsd('text')),
    ('cut', lambda s: reply(llsd.format_xml({'id': 99, 'events': [{'message': 'OtherEvent', 'body': {}}]})[:60])),
    ('key error', lambda s: raising(KeyError('x'))),
    ('unprintable', lambda s: raising(Unprintable())),
    ('binary', lambda s: s.ok(['OtherEvent']) and reply(llsd.format_binary({'id': s.id, 'events': [{'message': 'OtherEvent', 'body': {'serial': s.serial}}]}))),
]


def cases(tier):
    q = tier == 'quick'
    for c in itertools.product(range(len(OUTCOMES)), repeat=2):
        yield {'p': list(c), 'd': 4 if q else 5, 'set': 0}
    for c in itertools.product(range(len(MORE)), repeat=1):
        yield {'p': list(c), 'd': 3 if q else 4, 'set': 1}
    for c in itertools.product(CORE, repeat=2):
        yield {'p': list(c), 'd': 5 if q else 6, 'set': 0, 'of': CORE}
    for d in (0, 1):
        yield {'p': [], 'd': d, 'set': 1}
    yield {'long': 300}
    yield {'events': 1200}


def poll(script, outcomes, closing, ctx, own_handler=True):
    server = Server()
    got = []
    eqs = []
    want = []

    def answer(n, request):
        if n < len(script):
            want.append({} if server.last is None else {'ack': server.last})
            r = outcomes[script[n]][1](server)
            if n == len(script) - 1:
                eqs[0].stop()
            return r
        if n == len(script):
            want.append({'ack': server.last, 'done': True})
            return closing
        if n > len(script) + 5:
            raise Abort()
        return reply_llsd({'id': 12345, 'events': []})
    s = Settings()
    rest = FakeRest(answer)
    fails = failures()
    cap = Capability('EventQueueGet', URL, rest, s)
    mh = MessageHandler(s) if own_handler is True else None
    if own_handler == 'none':
        eq = EventQueueClient(Capability('EventQueueGet', URL, rest))
    else:
        eq = EventQueueClient(cap, s, mh, HOST)
    eqs.append(eq)
    mh = eq.message_handler

    def receive(m):
        if m.name in ('Raising', 'TestMessage'):
            got.append((m.name, m.blocks['Message_Data'][0]['serial'] if m.name == 'Raising' else m.blocks['TestBlock1'][0]['Test1'], m.event_queue_id))
            raise fails.next()
        if m.name == 'StartPingCheck':
            got.append((m.name, m.blocks['PingID'][0]['OldestUnacked'], m.event_queue_id))
        elif m.name == 'ChatFromViewer':
            got.append((m.name, m.blocks['ChatData'][0]['Channel'], m.event_queue_id))
        else:
            got.append((m.name, m.blocks['Message_Data'][0]['serial'], m.event_queue_id))
    for n in ('OtherEvent', 'StartPingCheck', 'ChatFromViewer', 'Raising', 'TestMessage'):
        mh.register(n).subscribe(receive)
    if not script:
        eq.stop()
    try:
        eq.start()
    except Abort:
        raise Violation('not-ended', 'stopped, but still posting: %r' % rest.log[-3:])
    ctx.execution()
    ctx.step(len(rest.log))
    names = [outcomes[i][0] for i in script]
    posted = [r for u, r in rest.log]
    if posted != (want if server.last is not None else want[:len(script)]) or len(posted) < len(script):
        raise Violation('posts', 'poll outcomes %s: posted %r, expected %r' % (names, posted, want))
    ctx.check(not [1 for u, r in rest.log if u != URL], 'url', 'posted to %r' % rest.log)
    exp = [e for e in server.expected if e[0] not in ('Unheard', 'Unheard2')]
    ctx.check(got == exp, 'deliveries', 'poll outcomes %s: delivered %r, expected %r' % (names, got, exp))
    ctx.state(repr((posted, got)))
    ctx.outcome((len(posted), len(got)))
    if ctx.executions % 2003 == 7:
        ctx.sample({'outcomes': names, 'posts': [str(p) for p in posted], 'delivered': len(got)})


# their indices are the same in both
CORE = [0, 2, 4, 5, 7, 9, 10, 12]
CLOSINGS = [reply_llsd({}), http_error(502), raising(socket.error(111, 'refused')), reply('x', 'text/plain')]

OWN = [False, True, True, 'none', True]


def run(case, ctx):
    if 'events' in case:
        many = MORE[:2] + [('%d events' % n, lambda s, n=n: s.ok((['OtherEvent', 'StartPingCheck', 'Raising'] * n)[:n])) for n in (11, 40, 101, 257, 600, case['events'])]
        for script in ([2, 3, 4, 5], [0, 7, 1, 6, 0], [6, 5, 4, 3, 2, 1]):
            poll(script, many, CLOSINGS[0], ctx)
        return
    if 'long' in case:
        for step in (1, 3, 5, 11):
            poll([(i * step) % len(MORE) for i in range(case['long'])], MORE, CLOSINGS[0], ctx)
        return
    if 'exact' in case:
        poll(case['exact'], MORE, CLOSINGS[case['closing']], ctx, case['own'])
        return
    outcomes = MORE if case['set'] else OUTCOMES
    n = 0
    for rest in itertools.product(case.get('of') or range(len(outcomes)), repeat=max(0, case['d'] - len(case['p']))):
        script = case['p'] + list(rest)
        n += 1
        try:
            poll(script, outcomes, CLOSINGS[n % 4], ctx, OWN[n % 5])
        except:
            ctx.case = {'exact': script, 'closing': n % 4, 'own': OWN[n % 5], 'outcomes': [MORE[i][0] for i in script]}
            raise
