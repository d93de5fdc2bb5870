"""C28: two instances of each kind, all interleavings of their lives against each alone."""
import itertools
from mc import net, isolate
from mc.core import Violation, hexs
from eqworld import *
import udpworld
from udpworld import refcodec
from httpworld import Rest, response, Wire, http
from pyogp.lib.base.caps import SeedCapability
from pyogp.lib.base.events import Event
from pyogp.lib.base.message_manager import MessageManager
from pyogp.lib.base.message.message import Message, Block, Variable
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.circuit import Circuit, CircuitManager
from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder
from pyogp.lib.base.message.template_dict import TemplateDictionary
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion

memoize()
ADDR = ('10.0.0.1', 1000)
AGENT = UUID(bytes='abcdefghijklmnop')


def ping(n):
    return Message('StartPingCheck', Block('PingID', PingID=n, OldestUnacked=n))


def chat(n):
    return Message('ChatFromViewer', Block('AgentData', AgentID=AGENT, SessionID=AGENT), Block('ChatData', Message='m%d' % n, Type=n, Channel=n))


def ping_bytes(pid, flags=0, acks=None):
    return refcodec.encode(DIC.by_name['StartPingCheck'], {'PingID': [{'PingID': 1, 'OldestUnacked': pid}]}, flags, pid, acks)


def chat_bytes(pid, flags=0, acks=None):
    return refcodec.encode(DIC.by_name['ChatFromViewer'], {'AgentData': [{'AgentID': 'a' * 16, 'SessionID': 's' * 16}],
                                                           'ChatData': [{'Message': 'x', 'Type': 1, 'Channel': pid}]}, flags, pid, acks)


def shown(m):
    """everything a message holds"""
    return m and (m.name, repr(sorted([(b, [sorted([(v.name, repr(v.data)) for v in i.vars.values()]) for i in l]) for b, l in m.blocks.items()])),
                  m.packet_id, m.acks, m.num_acks, m.reliable, m.resent, m.send_flags, m.retries, m.event_queue_id)


class Dispatcher(object):
    ops = ['subscribe', 'send', 'reliable', 'receive', 'acked', 'process', 'settings', 'outgoing']
    depth = (2, 2)
    other = (1, 2)           # how long the other's life is
    switches = (2, 9)

    def __init__(self):
        self.env = net.new_env()
        self.make()
        self.got = []
        self.n = 0

    def make(self):
        self.d = UDPDispatcher()
        self.mh = self.d.message_handler

    def deliver(self, m):
        self.got.append(shown(m))

    def receive(self, data):
        self.env.inbox.append((data, ADDR))
        buf, size = self.d.udp_client.receive_packet(self.d.socket)
        return shown(self.d.receive_check(self.d.udp_client.get_sender(), buf, size))

    def do(self, op):
        self.n += 1
        r = None
        if op == 'subscribe':
            self.mh.register('StartPingCheck').subscribe(self.deliver)
        elif op == 'send':
            r = self.d.send_message(ping(self.n), Host(ADDR))
        elif op == 'reliable':
            r = self.d.send_reliable(chat(self.n), Host(ADDR), 1)
        elif op == 'receive':
            r = self.receive(ping_bytes(50 + self.n, 0x40))
        elif op == 'acked':
            r = self.receive(chat_bytes(50 + self.n, 0, [1, 2]))
        elif op == 'process':
            r = self.d.process_acks()
        elif op == 'settings':
            self.d.settings.ENABLE_DEFERRED_PACKET_PARSING = False
            self.d.settings.UDP_SPAMMERS.append('Mine%d' % self.n)
        elif op == 'outgoing':
            self.d.settings.HANDLE_OUTGOING_PACKETS = True
        return r

    def look(self):
        c = self.d.circuit_manager.get_circuit(Host(ADDR))
        got, self.got = self.got, []
        return ([(hexs(a[0]), a[1]) for a in self.env.take_attempts()], got, bool(self.d.has_unacked()), self.d.packets_in, self.d.packets_out,
                sorted(self.mh.handlers), self.d.settings.UDP_SPAMMERS[:], self.d.settings.HANDLE_OUTGOING_PACKETS, self.d.settings.ENABLE_DEFERRED_PACKET_PARSING,
                len(self.env.sockets), c and (c.last_packet_out_id, c.last_packet_in_id, c.acks[:], sorted(c.unacked_packets), sorted(c.final_retry_packets),
                                              c.unack_packet_count, c.final_packet_count, c.is_alive, repr(c.host)))


class Manager(Dispatcher):
    ops = ['subscribe', 'queue', 'queue now', 'send', 'receive', 'capability', 'event queue']

    def make(self):
        self.m = MessageManager(Host(ADDR))
        self.d = self.m.udp_dispatcher
        self.mh = self.m.message_handler

    def do(self, op):
        if op == 'queue':
            self.n += 1
            self.m.enqueue_message(ping(self.n))
        elif op == 'queue now':
            self.n += 1
            self.m.enqueue_message(ping(self.n), True, True)
        elif op == 'send':
            self.n += 1
            return self.m.send_udp_message(ping(self.n), True)
        elif op == 'capability':
            self.n += 1
            self.m.capabilities['Cap%d' % self.n] = Capability('Cap', 'http://x/')
        elif op == 'event queue':
            self.m.capabilities['EventQueueGet'] = Capability('EventQueueGet', 'http://x/')
        else:
            return Dispatcher.do(self, op)

    def look(self):
        return Dispatcher.look(self) + (sorted(self.m.capabilities), self.m.event_queue is None, [shown(x[0] if type(x) is tuple else x) for x in self.m.outgoing_queue],
                                        len(self.m.incoming_queue), self.m._is_running, repr(self.m.host), self.m.settings.ENABLE_DEFERRED_PACKET_PARSING)


class Handler(object):
    ops = ['register P', 'subscribe P', 'subscribe Q', 'handle P', 'handle Q', 'unsubscribe P', 'settings']
    depth = (2, 3)
    switches = (3, 2)

    def __init__(self):
        self.mh = MessageHandler()
        self.got = []

    def called(self, m, *a):
        self.got.append((shown(m), a))

    def do(self, op):
        op, _, name = op.partition(' ')
        name = {'P': 'StartPingCheck', 'Q': 'ChatFromViewer'}.get(name)
        if op == 'register':
            return len(self.mh.register(name))
        if op == 'subscribe':
            self.mh.register(name).subscribe(self.called, 'x')
        elif op == 'unsubscribe':
            try:
                self.mh.register(name).unsubscribe(self.called, 'x')
            except ValueError:
                return 'ValueError'
        elif op == 'handle':
            self.mh.handle(ping(1) if name == 'StartPingCheck' else chat(2))
        else:
            self.mh.settings.UDP_SPAMMERS[:] = []
            self.mh.settings.DISABLE_SPAMMERS = False

    def look(self):
        got, self.got = self.got, []
        return (got, sorted(self.mh.handlers), [bool(self.mh.is_message_handled(n)) for n in ('StartPingCheck', 'ChatFromViewer', 'Other')],
                self.mh.settings.UDP_SPAMMERS[:], self.mh.settings.DISABLE_SPAMMERS)


class Events(object):
    ops = ['subscribe', 'other', 'notify', 'unsubscribe', 'clear']
    depth = (2, 3)
    switches = (9, 9)

    def __init__(self):
        self.e = Event()
        self.got = []

    def first(self, *a, **k):
        self.got.append(('first', a, k))

    def second(self, *a, **k):
        self.got.append(('second', a, k))

    def do(self, op):
        if op == 'subscribe':
            self.e.subscribe(self.first, 1)
        elif op == 'other':
            self.e.subscribe(self.second, k=2)
        elif op == 'notify':
            self.e('news')
        elif op == 'unsubscribe':
            try:
                self.e.unsubscribe(self.first, 1)
            except ValueError:
                return 'ValueError'
        else:
            self.e.clearSubscribers() if hasattr(self.e, 'clearSubscribers') else None

    def look(self):
        got, self.got = self.got, []
        return got, len(self.e)


class Set(object):
    ops = ['attribute', 'list', 'replace', 'new', 'interval']
    depth = (2, 3)
    switches = (9, 9)

    def __init__(self):
        self.s = [Settings(), Settings(quiet_logging=True), Settings(spammy_logging=True, log_tests=False)]

    def do(self, op):
        for i, s in enumerate(self.s):
            if op == 'attribute':
                s.ENABLE_UDP_LOGGING = 'mine %d' % i
            elif op == 'list':
                s.UDP_SPAMMERS.append('Mine%d' % i)
            elif op == 'replace':
                s.UDP_SPAMMERS = ['Replaced']
            elif op == 'new':
                s.SOMETHING_NEW = i
            else:
                s.REGION_EVENT_QUEUE_POLL_INTERVAL += 5

    def look(self):
        r = []
        for s in self.s:
            names = sorted([n for n in dir(s) if not n.startswith('_')])
            r.append([(n, repr(getattr(s, n))) for n in names])
        return r


class Messages(object):
    ops = ['block', 'variable', 'ack', 'flags', 'copy', 'dict']
    depth = (2, 3)
    switches = (9, 2)

    def __init__(self):
        self.m = [Message('Same', Block('B', A=1)), Message('Same')]
        self.n = 0

    def do(self, op):
        self.n += 1
        m = self.m[0]
        if op == 'block':
            m.add_block(Block('B', N=self.n))
            self.m[1].add_block(Block('C'))
        elif op == 'variable':
            m['B'][-1].add_variable(Variable('V%d' % self.n, self.n))
        elif op == 'ack':
            m.add_ack(self.n)
        elif op == 'flags':
            m.reliable = True
            m.retries += 1
            m.host = Host(ADDR)
        elif op == 'copy':
            self.m.append(Message(m.name, *[i for l in m.blocks.values() for i in l]))
        else:
            m.to_dict()['body']['Extra'] = 1

    def look(self):
        return [(shown(m), repr(sorted(m.to_dict()['body'])), repr(m.host)) for m in self.m]


class Builder(object):
    ops = ['new', 'block', 'data', 'build']
    depth = (3, 4)
    switches = (2, 2)

    def __init__(self):
        self.b = LLSDMessageBuilder()
        self.n = 0
        self.built = []

    def do(self, op):
        self.n += 1
        try:
            if op == 'new':
                self.b.new_message('M')
            elif op == 'block':
                self.b.next_block('B')
            elif op == 'data':
                self.b.add_data('V%d' % self.n, self.n, None)
            else:
                self.built.append(self.b.build_message())
        except AttributeError:
            return 'AttributeError'

    def look(self):
        return repr(self.built), self.b.is_built()


class Caps(object):
    ops = ['GET', 'GET headers', 'POST', 'POST headers', 'fail', 'url', 'settings', 'seed']
    depth = (2, 3)
    switches = (2, 2)

    def __init__(self):
        self.rest = Rest(self.answer)
        self.c = Capability('Cap', 'http://x/cap', self.rest)
        self.seed = SeedCapability('Seed', 'http://x/seed', self.rest)
        self.n = 0
        self.fail = False
        self.granted = {}

    def answer(self, n):
        if self.fail:
            raise HTTPError(500, 'no', Body('body'))
        return response(llsd.format_xml({'n': n, 'capabilities': {'A': 'http://a/%d' % n}}), 'application/llsd+xml')

    def do(self, op):
        self.n += 1
        try:
            if op == 'GET':
                return self.c.GET()
            if op == 'GET headers':
                return self.c.GET({'X-G': str(self.n)})
            if op == 'POST':
                return self.c.POST({'n': self.n})
            if op == 'POST headers':
                return self.c.POST([self.n], {'X-P': str(self.n), 'Content-type': 'x/y'})
            if op == 'seed':
                self.granted = self.seed.get(['A'])
                return [(k, v.public_url, v.name) for k, v in self.granted.items()]
            if op == 'fail':
                self.fail = not self.fail
            elif op == 'url':
                self.c.public_url = 'http://y/%d' % self.n
            else:
                self.c.settings.ENABLE_CAPS_LOGGING = False
        except exc.ResourceError, e:
            return e.url, e.code, e.body, e.method

    def look(self):
        calls = [(c[0], c[1], c[2] and repr(llsd.parse(c[2])), sorted(c[3].items())) for c in self.rest.calls]
        del self.rest.calls[:]
        return calls, self.c.public_url, self.c.name, self.c.settings.ENABLE_CAPS_LOGGING, self.seed.public_url, self.c.restclient is self.rest


class Codec(object):
    """serializer and deserializer: decoding is in two steps"""
    ops = ['encode', 'encode bad', 'decode', 'begin', 'finish', 'decode bad']
    depth = (2, 3)
    switches = (2, 2)

    def __init__(self):
        self.xml = MessageDotXML()
        self.ser = UDPMessageSerializer(message_xml=self.xml)
        self.settings = Settings()
        self.des = UDPMessageDeserializer(None, self.settings, message_xml=self.xml)
        self.n = 0
        self.pending = None

    def do(self, op):
        self.n += 1
        try:
            if op == 'encode':
                m = chat(self.n)
                m.packet_id = self.n
                return hexs(self.ser.serialize(m))
            if op == 'encode bad':
                return hexs(self.ser.serialize(Message('ChatFromViewer', Block('ChatData', Message='x', Type=1, Channel=1))))
            if op == 'decode':
                return shown(self.des.deserialize(ping_bytes(self.n, 0x40, [3])))
            if op == 'decode bad':
                return shown(self.des.deserialize(chat_bytes(self.n)[:-3]))
            if op == 'begin':
                self.settings.ENABLE_DEFERRED_PACKET_PARSING = not self.settings.ENABLE_DEFERRED_PACKET_PARSING
        except Exception, e:
            return e.__class__.__name__

    def look(self):
        return self.settings.ENABLE_DEFERRED_PACKET_PARSING


class Dictionaries(object):
    """templates and message.xml"""
    ops = ['get', 'by number', 'change', 'missing', 'validate']
    depth = (2, 3)
    switches = (2, 3)

    def __init__(self):
        self.t = TemplateDictionary()
        self.x = MessageDotXML()

    def do(self, op):
        if op == 'get':
            t = self.t.get_template('ChatFromViewer')
            return t.name, [(b.name, [v.name for v in b.get_variables()]) for b in t.get_blocks()]
        if op == 'by number':
            t = self.t.get_template_by_pair('High', 1)
            return t and (t.name, t.msg_num_hex)
        if op == 'missing':
            return self.t.get_template('NoSuchMessage')
        if op == 'change':
            # replaces entries of its own dictionaries
            self.t.message_templates['ChatFromViewer'] = self.t.get_template('StartPingCheck')
            self.t.message_dict['High', 1] = None
            self.t.template_list[:] = []
        else:
            return [self.x.validate_udp_msg(n) for n in ('EnableSimulator', 'ChatFromViewer')]

    def look(self):
        return len(self.t.get_template_list()), len(self.t.message_templates)


class Circuits(object):
    ops = ['add', 'id', 'prepare', 'collect', 'acked', 'kill']
    depth = (2, 3)
    switches = (9, 2)

    def __init__(self):
        self.cm = CircuitManager()
        self.c = Circuit(Host(ADDR), 1)
        self.n = 0

    def do(self, op):
        self.n += 1
        if op == 'add':
            return repr(self.cm.add_circuit(Host(ADDR), 5).host)
        if op == 'id':
            return self.c.next_packet_id()
        if op == 'prepare':
            m = ping(self.n)
            self.c.prepare_packet(m, 0x40, 1)
            return shown(m)
        if op == 'collect':
            self.c.collect_ack(self.n)
        elif op == 'acked':
            self.c.ack_reliable_packet(1)
        else:
            self.c.is_alive = False

    def look(self):
        c = self.c
        o = self.cm.get_circuit(Host(ADDR))
        return (c.last_packet_out_id, c.acks[:], sorted(c.unacked_packets), sorted(c.final_retry_packets), c.unack_packet_count, c.is_alive,
                o and (o.last_packet_out_id, o.last_packet_in_id, o.acks[:], o.is_alive))


class Values(object):
    """UUIDs, vectors, hosts made with default arguments"""
    ops = ['random', 'read', 'set', 'host']
    depth = (3, 4)
    switches = (2, 2)

    def __init__(self):
        self.u, self.v, self.q, self.h = UUID(), Vector3(), Quaternion(), Host(ADDR)

    def do(self, op):
        if op == 'random':
            self.u.random()
        elif op == 'read':
            self.v.unpack_from_bytes('\x00\x00\x80\x3f' * 3, 0)
        elif op == 'set':
            self.v.X = self.q.W = 7.0
        else:
            self.h.port += 1

    def look(self):
        return str(self.u) == '0' * 8 + '-0000-0000-0000-' + '0' * 12, self.v.data(), self.q.data(), self.h.ip, self.h.port


KINDS = dict([(c.__name__, c) for c in (Dispatcher, Manager, Handler, Events, Set, Messages, Builder, Caps, Codec, Dictionaries, Circuits, Values)])
SNAP = [None]


def fresh():
    if SNAP[0] is None:
        for c in KINDS.values():
            c()              # lazy imports
        SNAP[0] = isolate.Snapshot()
    SNAP[0].restore()


def trace_step(inst, op):
    r = inst.do(op)
    return repr((op, r, inst.look()))


def alone(cls, seq, memo={}):
    k = (cls, seq)
    if k not in memo:
        if len(memo) > 20000:
            memo.clear()
        fresh()
        i = cls()
        memo[k] = [repr(i.look())] + [trace_step(i, op) for op in seq] + [repr(i.look())]
    return memo[k]


def merges(n, m):
    """all interleavings of n and m steps, as lists of 0 and 1; creation is the first step"""
    for ones in itertools.combinations(range(n + m), m):
        r = [0] * (n + m)
        for i in ones:
            r[i] = 1
        yield r


def cases(tier):
    q = tier == 'quick'
    for name in sorted(KINDS):
        cls = KINDS[name]
        d = cls.depth[0 if q else 1]
        for i in range(len(cls.ops)):
            for j in range(len(cls.ops)):
                yield {'kind': name, 'first': [i, j], 'd': d, 'o': getattr(cls, 'other', cls.depth)[0 if q else 1]}
    for i in range(len(SCRIPTS)):
        for j in range(len(SCRIPTS)):
            yield {'kind': 'eq', 'a': i, 'b': j}


def run(case, ctx):
    if case['kind'] == 'eq':
        event_queues(case, ctx)
        return
    cls = KINDS[case['kind']]
    if 'merge' in case:
        pair(cls, [tuple(s) for s in case['seqs']], case['merge'], ctx)
        return
    n = len(cls.ops)
    for a in itertools.product(range(n), repeat=case['d'] - 1):
        s = tuple([cls.ops[k] for k in (case['first'][0],) + a])
        for b in itertools.product(range(n), repeat=case['o'] - 1):
            t = tuple([cls.ops[k] for k in (case['first'][1],) + b])
            if len(s) == len(t) and s > t:
                continue          # the other order is another case
            for m in merges(len(s) + 1, len(t) + 1):
                if s == t and m[0] == 1 or blocks(m) > 1 + cls.switches[ctx.thorough]:
                    continue
                pair(cls, (s, t), m, ctx)
    if not ctx.samples:
        ctx.sample({'kind': case['kind'], 'operations': cls.ops})


def blocks(m):
    return 1 + len([1 for x, y in zip(m, m[1:]) if x != y])


def pair(cls, seqs, merge, ctx):
    want = [alone(cls, s) for s in seqs]
    fresh()
    inst = [None, None]
    pos = [0, 0]
    for n, x in enumerate(merge):
        if inst[x] is None:
            inst[x] = cls()
            got = repr(inst[x].look())
        else:
            got = trace_step(inst[x], seqs[x][pos[x]])
            pos[x] += 1
        ctx.step()
        if got != want[x][pos[x]]:
            ctx.case = {'kind': cls.__name__, 'seqs': [list(s) for s in seqs], 'merge': merge}
            raise Violation('shared', '%s: %r, interleaved %r with another that does %r, gives %s instead of %s as when alone' % (
                cls.__name__, list(seqs[x]), merge[:n + 1], list(seqs[1 - x]), got[:600], want[x][pos[x]][:600]))
    for x in (0, 1):
        got = repr(inst[x].look())
        if got != want[x][-1]:
            ctx.case = {'kind': cls.__name__, 'seqs': [list(q) for q in seqs], 'merge': merge}
            raise Violation('shared', '%s: %r, interleaved %r with another that does %r, is %s in the end instead of %s as when alone' % (
                cls.__name__, list(seqs[x]), merge, list(seqs[1 - x]), got[:600], want[x][-1][:600]))
    ctx.execution()
    ctx.state((cls.__name__, seqs, tuple(merge)))
    ctx.outcome(want[0][-1][:200])


# ---------------------------------------------------------------- event queues: one lives inside a poll of the other

def ok(id, *names):
    return ('ok', id, names)


SCRIPTS = [[ok(1, 'Other')], [ok(5, 'StartPingCheck', 'Other'), ok(6)], [('http', 502)], [ok(7, 'Other'), ('http', 404), ok(9, 'StartPingCheck')], [],
           [ok(0), ok(3, 'Raising', 'Other')]]


class Queue(object):
    def __init__(self, script, hook):
        self.script, self.hook = script, hook
        self.log = []
        self.eq = None

    def answer(self, n, request):
        self.log.append(('post', request))
        self.hook(n)
        if n >= len(self.script) - 1:
            self.eq.stopped = True
        if n >= len(self.script):
            return reply_llsd({'id': 99, 'events': []})
        s = self.script[n]
        if s[0] == 'http':
            return http_error(s[1])
        return reply_llsd({'id': s[1], 'events': [{'message': e, 'body': {'PingID': [{'PingID': n, 'OldestUnacked': s[1]}]}} for e in s[2]]})

    def deliver(self, m, *a):
        self.log.append(('event', shown(m)[:2], m.event_queue_id, a, repr(m.host)))
        if m.name == 'Raising':
            raise ValueError('subscriber')

    def run(self):
        self.rest = FakeRest(self.answer)
        self.eq = EventQueueClient(Capability('EventQueueGet', URL, self.rest), host=Host(ADDR))
        self.log.append(('handles', sorted(self.eq.message_handler.handlers), self.eq.last_id, self.eq.stopped))
        for n in ('Other', 'StartPingCheck', 'Raising'):
            self.eq.message_handler.register(n).subscribe(self.deliver, n)
        self.hook(-1)
        if not self.script:
            self.eq.stopped = True
        self.log.append(('start', self.eq.start()))
        self.log.append(('end', self.eq.last_id, self.eq._running, self.eq.stopped, repr(self.eq.data), len(self.rest.log)))
        return self.log


def event_queues(case, ctx):
    a, b = SCRIPTS[case['a']], SCRIPTS[case['b']]

    def life(script, hook=lambda n: None):
        return Queue(script, hook).run()
    fresh()
    wa = life(a)
    fresh()
    wb = life(b)
    ctx.check(len(wa) > 2, 'model', 'nothing happened')
    for at in range(-2, len(a) + 2):
        fresh()
        logs = []

        def hook(n):
            if n == at:
                logs.append(life(b))
        if at == -2:
            logs.append(life(b))
        got = life(a, hook)
        if at == len(a) + 1:
            logs.append(life(b))
        ctx.execution()
        ctx.step(len(got))
        ctx.state((case['a'], case['b'], at))
        ctx.check(got == wa, 'shared', 'an event queue with another living in its step %d: %r instead of %r' % (at, got, wa))
        for l in logs:
            ctx.check(l == wb, 'shared', 'an event queue living in step %d of another: %r instead of %r' % (at, l, wb))
