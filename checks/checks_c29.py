"""C29: the same history under every combination of settings."""
import itertools
import logging
from mc import net
from mc.core import Violation, hexs
import udpworld
from udpworld import World, ADDR
import datetime
import uuid
import checks_c17
from eqworld import *
from httpworld import Rest, response, SeedCapability
from httpworld import same as same_value
import pyogp.lib.base.settings
from pyogp.lib.base.settings import Settings

LOGS = ['LOG_VERBOSE', 'ENABLE_BYTES_TO_HEX_LOGGING', 'ENABLE_UDP_LOGGING', 'ENABLE_HOST_LOGGING', 'LOG_SKIPPED_PACKETS', 'PROXY_LOGGING', 'DISABLE_SPAMMERS']
OTHER_LOGS = ['ENABLE_CAPS_LOGGING', 'ENABLE_CAPS_LLSD_LOGGING', 'ENABLE_EQ_LOGGING', 'ENABLE_OBJECT_LOGGING', 'LOG_COROUTINE_SPAWNS', 'ENABLE_LOGGING_IN_TESTS']
DEFAULTS = dict([(k, getattr(Settings(), k)) for k in LOGS])

OPS = [('send', 'A'), ('send', 'B', 1), ('shared', 'A', 2), ('recv', 'A', 'handled', True, ['oldest']), ('recv', 'B', 'unhandled', True, ['all']), ('recv', 'A', 'unknown'), ('recv', 'A', 'zero', False),
       ('pa', 'A', ['newest'], True), ('process',), ('fail', 1), ('bad', 'A', 'block', 1), ('recv', 'B', 'refused'), ('bad', 'B', 'refused'), ('damaged', 'A'), ('raising', 'B'), ('mutate',)]
CLOSING = [('send', 'A'), ('recv', 'B', 'handled', True, ['oldest']), ('process',), ('send', 'B', 0), ('pa', 'B', ['all']), ('process',)]


# what the code that speaks to capabilities and event queues reads
EQ_LOGS = ['ENABLE_EQ_LOGGING', 'ENABLE_HOST_LOGGING', 'LOG_COROUTINE_SPAWNS', 'ENABLE_CAPS_LOGGING', 'ENABLE_CAPS_LLSD_LOGGING', 'LOG_VERBOSE']
URLS = ['http://x/cap', u'http://x/caf\xe9', 'http://x/caf\xc3\xa9', 'http://x/%s%d']
PAYLOADS = [{}, [], {'a': 1}, {u'\xe9': u'\u2603', 'b': [None, True, 1.5, 'x']}, [{'k': llsd.binary('\x00\xff')}, u'\xe9'], ['%s', '%'], {'caf\xc3\xa9': 'caf\xc3\xa9'},
            {'u': uuid.UUID(int=5), 'd': datetime.datetime(2009, 1, 2, 3, 4, 5), 'uri': llsd.uri('http://x')}]
BAD_PAYLOADS = [None, 'text', (1, 2), u'\xe9', 5]


class Sink(logging.Handler):
    """formats every record, like a real handler does"""

    def emit(self, record):
        record.getMessage()


class Log(World):
    def __init__(self, settings, subscribe, handler=True):
        World.__init__(self, ['C29'], settings, subscribe, handler)
        self.log = []

    def deliver(self, m):
        self.log.append(('delivered', m.name, repr(sorted([(n, len(l)) for n, l in m.blocks.items()]))))
        World.deliver(self, m)
        if m.name == 'StartPingCheck' and m.packet_id in self.raise_on:
            raise ValueError('subscriber')

    raise_on = ()

    def op_raising(self, h):
        """a packet whose subscriber raises"""
        hm = self.hosts[h]
        if self.mh is not None and 'StartPingCheck' in self.mh.handlers:
            self.raise_on = (hm.next_in,)
        try:
            self.op_recv(h, 'handled')
        except ValueError:
            self.log.append(('raised',))
            hm.next_in = hm.next_in
            hm.received.add(self.raise_on[0])
        self.raise_on = ()

    def op_damaged(self, h):
        hm = self.hosts[h]
        pid = hm.next_in
        hm.next_in += 1
        for data in (self.encode_in('handled', pid, 0x40, None)[:-1], '\x40', ''):
            self.env.inbox.append((data, ADDR[h]))
            buf, size = self.d.udp_client.receive_packet(self.d.socket)
            try:
                self.log.append(('result', self.d.receive_check(self.d.udp_client.get_sender(), buf, size)))
            except Exception, e:
                self.log.append(('error', e.__class__.__name__))
        hm.received.add(pid)

    def receive(self, h, *args):
        World.receive(self, h, *args)
        self.log.append(('result', self.result and self.result.name))

    def datagram(self, data, addr, ok, what, due=None, seen=None):
        self.log.append(('datagram', data, addr, ok))
        return World.datagram(self, data, addr, ok, what, due, seen)

    def common(self):
        r = []
        for h in 'AB':
            c = self.d.circuit_manager.get_circuit(self.host(h))
            if c is not None:
                r.append((h, sorted(c.unacked_packets), sorted(c.final_retry_packets), list(c.acks)))
        self.log.append(('state', r, self.errors))


def play(seq, over, subscribe, handler=True):
    s = Settings()
    for k in over:
        setattr(s, k, over[k])
    w = Log(s, subscribe, handler)
    for op in seq:
        w.do(op)
    return w.log


def only(log, *kinds):
    return [e for e in log if e[0] in kinds]


def same(a, b, what, ctx, key):
    if a == b:
        return
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    raise Violation(key, '%s: from event %d on: %r instead of %r' % (what, i, a[i:i + 2], b[i:i + 2]))


def combos(full):
    if full:
        for v in itertools.product((False, True), repeat=len(LOGS)):
            yield dict(zip(LOGS, v))
        return
    # each on or off alone, all on, all off
    for k in LOGS:
        yield {k: not DEFAULTS[k]}
        o = dict.fromkeys(LOGS, True)
        o[k] = False
        yield o
        o = dict.fromkeys(LOGS, False)
        o[k] = True
        yield o
    yield dict.fromkeys(LOGS, True)
    yield dict.fromkeys(LOGS, False)


SUBS = {'some': ('StartPingCheck',), 'none': (), 'all': ('StartPingCheck', 'TestMessage', 'PacketAck', 'ChatFromViewer', 'EnableSimulator')}


def compare(seq, sub, full, ctx):
    seq = list(seq) + CLOSING
    subscribe = SUBS[sub]
    base = play(seq, {}, subscribe)
    for over in combos(full):
        got = play(seq, over, subscribe)
        same(got, base, 'with %s' % over, ctx, 'logging')
        ctx.execution()
        ctx.step(len(seq))
        ctx.state(repr((seq, sorted(over.items()))))
        ctx.outcome(repr(got))
    for spam in ([], ['TestMessage'], ['PacketAck', 'StartPingCheck', 'nothing'], ['ChatFromViewer', 'TestMessage', 'StartPingCheck', 'PacketAck', 'AgentUpdate']):
        for d in (False, True):
            same(play(seq, {'UDP_SPAMMERS': spam, 'DISABLE_SPAMMERS': d}, subscribe), base, 'with UDP_SPAMMERS %s, DISABLE_SPAMMERS %s' % (spam, d), ctx, 'logging')
            ctx.execution()
    for quiet, spammy in ((True, False), (False, True), (True, True)):
        s = Settings(quiet, spammy)
        same(play(seq, dict(s.__dict__), subscribe), base, 'with Settings(%s, %s)' % (quiet, spammy), ctx, 'logging')
        ctx.execution()
    # deferred parsing
    over = {'ENABLE_DEFERRED_PACKET_PARSING': False}
    parsed = play(seq, over, subscribe)
    ctx.execution()
    same(only(parsed, 'datagram', 'delivered', 'state', 'raised'), only(base, 'datagram', 'delivered', 'state', 'raised'), 'without deferred parsing', ctx, 'deferred')
    for p, b in zip(only(parsed, 'result'), only(base, 'result')):
        ctx.check(b[1] is None or b == p, 'deferred-result', 'with deferred parsing %r is returned, without %r' % (b[1], p[1]))
    for over2 in ({'LOG_VERBOSE': False}, dict.fromkeys(LOGS, True), dict.fromkeys(LOGS, False)):
        over2 = dict(over2, **over)
        same(play(seq, over2, subscribe), parsed, 'with %s' % over2, ctx, 'logging')
        ctx.execution()
    # packet handling off
    if ('raising', 'B') not in seq:
        for handler in (True, False):
            off = play(seq, {'HANDLE_PACKETS': False}, subscribe, handler)
            ctx.execution()
            ctx.check(not only(off, 'delivered'), 'handling-off', 'delivered with HANDLE_PACKETS off: %r' % only(off, 'delivered')[:2])
            same(only(off, 'datagram', 'state'), only(base, 'datagram', 'state'), 'with HANDLE_PACKETS off%s' % ('' if handler else ', no handler'), ctx, 'handling-off-changes')
    # monitoring what is sent
    if [op for op in seq if op[0] in ('fail', 'bad')]:
        return
    out = play(seq, {'HANDLE_OUTGOING_PACKETS': True}, subscribe)
    ctx.execution()
    same(only(out, 'datagram', 'state', 'result', 'raised'), only(base, 'datagram', 'state', 'result', 'raised'), 'with HANDLE_OUTGOING_PACKETS', ctx, 'outgoing-changes')
    # every first transmission of a subscribed message is delivered once more, in order
    extra = [e for e in only(out, 'delivered')]
    for e in only(base, 'delivered'):
        ctx.check(e in extra, 'outgoing-loses', '%r is not delivered with HANDLE_OUTGOING_PACKETS' % (e,))
        extra.remove(e)
    sent = []
    for e in only(base, 'datagram'):
        x = udpworld.refcodec.decode(udpworld.DIC, e[1])
        if not x.resent and x.name in subscribe:
            sent.append(x.name)
    ctx.check(sorted([e[1] for e in extra]) == sorted(sent), 'outgoing', 'sent %s, delivered to the subscribers of outgoing messages %s' % (sorted(sent), sorted([e[1] for e in extra])))


def eq_combos():
    for v in itertools.product((False, True), repeat=len(EQ_LOGS)):
        yield dict(zip(EQ_LOGS, v))
    for v in itertools.product((False, True), repeat=3):
        yield dict([(k, v[0]) for k in LOGS] + [(k, v[1]) for k in OTHER_LOGS] + [('HANDLE_PACKETS', v[2]), ('HANDLE_OUTGOING_PACKETS', v[1]), ('ENABLE_DEFERRED_PACKET_PARSING', v[0])])


def with_settings(over):
    s = Settings()
    for k in over:
        setattr(s, k, over[k])
    return s


SILENT = dict.fromkeys(LOGS + OTHER_LOGS, False)


# what a REST client may answer
def answers():
    for v in PAYLOADS + [None, u'\xe9', 0, False]:
        yield lambda v=v: response(llsd.format_xml(v), 'application/llsd+xml')
    yield lambda: response(' \n' + llsd.format_xml(u'\xe9').decode('utf-8').encode('utf-8') + '\n', 'application/llsd+xml; charset=utf-8')
    yield lambda: response('\xe9\xff', 'application/llsd+xml')
    yield lambda: response('', 'application/llsd+xml')
    yield lambda: response('\xe9\xff', 'text/plain')
    for code in (404, 500, 200):
        yield http_error(code, 'caf\xe9', '\xe9\xff %s')
    yield raising(ValueError('caf\xe9'))
    yield lambda: raising(HTTPError(503, u'\xe9', Body('x')))()


ANSWERS = list(answers())
CALLS = [('GET', ()), ('GET', ({'X-H': u'v'},))] + [('POST', (p,)) for p in PAYLOADS + BAD_PAYLOADS] + [('POST', ([1], {'X-H': 'caf\xc3\xa9'}))] + [
    ('POST_CUSTOM', ({'Content-type': 'x/y'}, d)) for d in ('', 'text', '\xff\xe9', u'\xe9')] + [('seed', (['A', u'\xe9'],)), ('seed', ([],))]


def call(name, args, url, answer, over):
    """what calling a capability does: the requests and what comes out"""
    rest = Rest(lambda n: answer())
    out = None
    try:
        if name == 'seed':
            r = SeedCapability('Seed', url, rest, with_settings(over)).get(*args)
            out = ('result', [(k, v.name, v.public_url) for k, v in sorted(r.items())])
        else:
            out = ('result', getattr(Capability('Cap', url, rest, with_settings(over)), name)(*args))
    except Exception, e:
        out = ('raised', e.__class__.__name__, [repr(getattr(e, k, None)) for k in ('url', 'code', 'msg', 'body', 'method')])
    return rest.calls, out


def caps(case, ctx):
    url = URLS[case['url']]
    for j, (name, args) in enumerate(CALLS):
        if name == 'seed':
            table = [lambda v=v: response(llsd.format_xml(v), 'application/llsd+xml') for v in (
                {'capabilities': {'A': 'http://a', u'\xe9': u'http://\xe9'}}, {'capabilities': {}}, {}, [])] + ANSWERS[-4:]
        else:
            table = ANSWERS
        for a, answer in enumerate(table):
            base = call(name, args, url, answer, SILENT)
            for over in eq_combos():
                got = call(name, args, url, answer, over)
                ctx.execution()
                ctx.step()
                ctx.state((j, case['url'], a, repr(over)))
                ctx.outcome(repr(base[1]))
                ok = same_value(list(base[0]), list(got[0])) and base[1][0] == got[1][0] and same_value(list(base[1]), list(got[1]))
                ctx.check(ok, 'caps', '%s%r of %r answered by %d: with %s %r instead of %r without logging' % (name, args, url, a, over, got, base))


class Unserved(BaseException):
    pass


def event_queue(script, over, url, sub, own):
    """what an event queue posts, delivers and becomes"""
    server = checks_c17.Server()
    log = []

    def answer(n, request):
        log.append(('post', repr(request)))
        if n < len(script):
            if n == len(script) - 1:
                eq.stop()
            return checks_c17.MORE[script[n]][1](server)
        if n > len(script) + 5:
            raise Unserved()
        return reply_llsd({'id': 12345, 'events': []})
    s = with_settings(over)
    rest = FakeRest(answer)
    mh = MessageHandler(s) if own else None
    eq = EventQueueClient(Capability('EventQueueGet', url, rest, s), s, mh, Host(('10.0.0.1', 1000)) if len(script) % 2 else None)

    def deliver(m):
        log.append(('delivered', m.name, repr(sorted(m.to_dict()['body'])), m.event_queue_id, repr(m.host)))
        if m.name in ('Raising', 'TestMessage'):
            raise ValueError(u'\xe9')
    for n in SUBS['all'] + ('OtherEvent', 'Raising') if sub else ():
        eq.message_handler.register(n).subscribe(deliver)
    if not script:
        eq.stop()
    try:
        log.append(('start', eq.start()))
    except Unserved:
        log.append('not ended')
    log.append((eq.last_id, eq._running, eq.stopped, [u for u, r in rest.log]))
    return log


def event_queues(case, ctx):
    for last in range(len(checks_c17.MORE)):
        script = case['script'] + [last]
        for k, url in enumerate(URLS[:2]):
            own = bool((last + k) % 3)
            base = event_queue(script, SILENT, url, True, own)
            for over in eq_combos() if k == 0 or ctx.thorough else [dict.fromkeys(LOGS + OTHER_LOGS, True), {}]:
                same(event_queue(script, over, url, True, own), base, 'event queue with outcomes %s, with %s' % ([checks_c17.MORE[i][0] for i in script], over), ctx, 'event-queue')
                ctx.execution()
                ctx.step(len(base))
                ctx.state((tuple(script), k, repr(over)))
            ctx.outcome(repr(base))
            for interval in (0, 60):
                same(event_queue(script, {'REGION_EVENT_QUEUE_POLL_INTERVAL': interval}, url, True, own), base, 'event queue with outcomes %s, interval %d' % (script, interval), ctx, 'event-queue')


def cases(tier):
    q = tier == 'quick'
    n = len(OPS)
    for url in range(len(URLS)):
        yield {'caps': True, 'url': url}
    for script in itertools.product(range(len(checks_c17.MORE)), repeat=1 if q else 2):
        yield {'eq': True, 'script': list(script)}
    yield {'eq': True, 'script': []}
    for sub in ('some', 'all'):
        # every combination, after every operation and after all operations
        for a in range(n):
            yield {'full': True, 'ops': [a], 'sub': sub}
        yield {'full': True, 'ops': range(n), 'sub': sub}
        yield {'full': True, 'ops': range(n) + range(n - 1, -1, -1), 'sub': sub}
    for sub in ('some', 'all', 'none'):
        for ops in itertools.product(range(n), repeat=2 if q else 3):
            yield {'full': False, 'ops': list(ops), 'sub': sub}
    if not q:
        for ops in itertools.product(range(n), repeat=2):
            yield {'full': True, 'ops': list(ops), 'sub': 'all'}


def run(case, ctx):
    root = logging.getLogger()
    if not root.handlers:
        root.addHandler(Sink())
        root.setLevel(logging.DEBUG)
    logging.disable(logging.NOTSET)
    try:
        if 'caps' in case:
            caps(case, ctx)
            return
        if 'eq' in case:
            event_queues(case, ctx)
            return
        compare([OPS[i] for i in case['ops']], case['sub'], case['full'], ctx)
    finally:
        logging.disable(logging.CRITICAL)
    if len(ctx.samples) < 2:
        ctx.sample({'ops': [str(OPS[i]) for i in case['ops']]})
