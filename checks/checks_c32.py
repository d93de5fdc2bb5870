"""C32: what is handed in and what is handed out, watched through all short histories."""
import itertools
import datetime
import uuid
from mc import repo, net, isolate
_make_small = repo.small
repo.small = lambda names, *a, **k: _make_small(names + ['AgentUpdate'], *a, **k)
from mc.core import Violation, hexs
from eqworld import *
import udpworld
from udpworld import refcodec
from httpworld import Rest, response, Wire, http
from pyogp.lib.base.caps import SeedCapability
from pyogp.lib.base.events import Event
from pyogp.lib.base.message_manager import MessageManager
from pyogp.lib.base.message.message import Message, Block, Variable
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder
from pyogp.lib.base.network.stdlib_client import StdLibClient
from pyogp.lib.base.helpers import LLSDDeserializer, ListLLSDSerializer, DictLLSDSerializer
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion

memoize()
A, B = ('10.0.0.1', 1000), ('10.0.0.2', 2000)


# ---------------------------------------------------------------- what something holds

def blocks(m):
    return sorted([(b, [[(n, frozen(i.get_variable(n).data)) for n in sorted(i.vars)] + [('order', sorted(i.var_list)), ('name', i.name)]
                        for i in l]) for b, l in m.blocks.items()])


def contents(m):
    """what the caller gave: sending keeps its books in the message as well"""
    return m.name, blocks(m)


def everything(m):
    return contents(m) + (m.packet_id, m.acks[:], m.num_acks, m.reliable, m.resent, m.trusted, m.send_flags, m.retries, m.event_queue_id, frozen(m.host))


def frozen(x):
    if isinstance(x, Message):
        return 'message', everything(x)
    if isinstance(x, UUID):
        # not asked itself: asking must not change it either
        return 'UUID', str(x.uuid)
    if isinstance(x, (Vector3, Quaternion)):
        return x.__class__.__name__, [repr(getattr(x, n)) for n in 'XYZW' if hasattr(x, n)]
    if isinstance(x, dict):
        return 'map', sorted([(repr(k), frozen(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [frozen(v) for v in x]
    if isinstance(x, Capability):
        return 'capability', x.__class__.__name__, x.name, x.public_url, x.restclient.__class__.__name__
    if isinstance(x, Response):
        return 'response', x.status, sorted(x.headers.items()), hexs(x.body)
    if isinstance(x, Host):
        return 'host', x.ip, x.port
    if isinstance(x, Settings):
        return 'settings', sorted([(n, frozen(getattr(x, n))) for n in dir(x) if not n.startswith('_')])
    if isinstance(x, exc.ResourceError):
        return 'error', x.__class__.__name__, frozen([x.url, x.code, x.message, x.body, x.method])
    return type(x).__name__, repr(x)


# ---------------------------------------------------------------- what is handed in

def ping(n):
    return Message('StartPingCheck', Block('PingID', PingID=n, OldestUnacked=n))


def chat(n):
    return Message('ChatFromViewer', Block('AgentData', AgentID=UUID(bytes='abcdefghijklmnop'), SessionID=UUID()),
                   Block('ChatData', Message='m%d' % n, Type=n % 250, Channel=n))


def update(n):
    return Message('AgentUpdate', Block('AgentData', AgentID=UUID(), SessionID=UUID(bytes='0123456789abcdef'), BodyRotation=Quaternion(X=0.5, Y=0.5, Z=-0.5, W=-0.5),
                                        HeadRotation=Quaternion(X=0, Y=0, Z=0, W=2), State=n % 250, CameraCenter=Vector3(X=0.1, Y=n, Z=-0.0), CameraAtAxis=Vector3(),
                                        CameraLeftAxis=Vector3(X=1e9), CameraUpAxis=Vector3(Z=1), Far=0.1, ControlFlags=n, Flags=0))


def test(n):
    return Message('TestMessage', [Block('TestBlock1', Test1=n)], [Block('NeighborBlock', Test0=i, Test1=n, Test2=i * n) for i in range(4)])


def bad(n):
    """lacks a block that comes last, and has one too many"""
    return Message('ChatFromViewer', Block('AgentData', AgentID=UUID(), SessionID=UUID()), Block('Extra', Z=[1, {}]))


MAKERS = [('ping', ping), ('chat', chat), ('update', update), ('test', test), ('bad', bad)]
UUIDS = ['\x00' * 16, 'abcdefghijklmnop']
DATA = {
    'StartPingCheck': {'PingID': [{'PingID': 7, 'OldestUnacked': 70}]},
    'ChatFromViewer': {'AgentData': [{'AgentID': '\x00' * 16, 'SessionID': 's' * 16}], 'ChatData': [{'Message': 'hello', 'Type': 1, 'Channel': 5}]},
    'TestMessage': {'TestBlock1': [{'Test1': 9}], 'NeighborBlock': [{'Test0': i, 'Test1': 2, 'Test2': 3} for i in range(4)]},
    'AgentUpdate': {'AgentData': [{'AgentID': '\x00' * 16, 'SessionID': 't' * 16, 'BodyRotation': (0.5, 0.5, 0.5, 0.5), 'HeadRotation': (0.0, 0.0, 0.0, 1.0), 'State': 1,
                                   'CameraCenter': (1.0, 2.0, 3.0), 'CameraAtAxis': (0.0, 0.0, 0.0), 'CameraLeftAxis': (0.0, 0.0, 0.0), 'CameraUpAxis': (0.0, 0.0, 1.0),
                                   'Far': 2.5, 'ControlFlags': 3, 'Flags': 4}]},
}
VALUE = {'list': [1, {'a': [None, True, 2.5]}, 'text', llsd.binary('\x00\xff')], 'map': {'': uuid.UUID(int=5), 'u': u'\xe9'}, 'when': datetime.datetime(2009, 1, 2, 3, 4, 5), 'zero': 0}
NAMES = ['EventQueueGet', 'Other', 'Absent', u'Unicode', 'Other2']
EVENTS = [{'message': 'ChatFromViewer', 'body': {'AgentData': [{'AgentID': uuid.UUID(int=0), 'SessionID': uuid.UUID(int=9)}], 'ChatData': [{'Message': 'a', 'Type': 1, 'Channel': 2}]}},
          {'message': 'Unknown', 'body': {'deep': [{'x': [1, 2, {'y': {}}]}], 'name': 'n', 'list': []}},
          {'message': 'StartPingCheck', 'body': {'PingID': [{'PingID': 1, 'OldestUnacked': 2}]}}]


class World(object):
    def __init__(self, ctx, options):
        self.ctx, self.options = ctx, options
        self.env = net.new_env()
        self.watched = []             # (what, object, how to look, what it held)
        self.out = []                 # handed out, newest last: (op, object)
        self.trace = []
        self.results = []
        self.n = 0
        self.seen = []
        self.next_in = 1
        self.settings = Settings()
        if 'outgoing' in options:
            self.settings.HANDLE_OUTGOING_PACKETS = True
        if 'log' in options:
            self.settings.ENABLE_UDP_LOGGING = self.settings.ENABLE_CAPS_LOGGING = self.settings.ENABLE_HOST_LOGGING = True
        self.mh = MessageHandler(self.settings)
        self.args = [['list'], {'k': ['v']}]
        for n in DATA:
            self.mh.register(n).subscribe(self.deliver, self.args, keyword=self.args[1])
        self.mh.register('Unknown').subscribe(self.deliver, self.args, keyword=self.args[1])
        self.d = UDPDispatcher(settings=self.settings, message_handler=self.mh, message_xml=udpworld.shared_xml())
        self.host = dict(A=Host(A), B=Host(B))
        self.rest = Rest(self.answer)
        self.cap = Capability('Cap', 'http://x/cap', self.rest, self.settings)
        self.seed = SeedCapability('Seed', 'http://x/seed', self.rest, self.settings)
        self.client = StdLibClient()
        self.builder = LLSDMessageBuilder()
        self.failing = None
        for what, o in [('the settings', self.settings), ('the arguments of a subscriber', self.args), ('a host', self.host['A']), ('a host', self.host['B']),
                        ('a capability', self.cap), ('a seed capability', self.seed)]:
            self.keep(what, o)

    # -- watching
    def keep(self, what, o, how=frozen):
        self.watched.append((what, o, how, how(o)))
        return o

    def drop(self, o):
        self.watched = [w for w in self.watched if w[1] is not o]

    def hand_out(self, what, o, how=frozen):
        self.results.append(how(o))
        if not [1 for w in self.watched if w[1] is o]:
            self.keep(what, o, how)
        self.out.append((what, o))
        del self.out[:-12]

    def look(self, op):
        for what, o, how, held in self.watched:
            now = how(o)
            self.ctx.check(now == held, 'changed', 'after %r: %s was changed by %s: %s became %s' % (self.trace, what, op, repr(held)[:700], repr(now)[:700]))

    def deliver(self, m, args, keyword):
        self.ctx.check(args is self.args and keyword is self.args[1], 'arguments', 'after %r: a subscriber got copies' % (self.trace,))
        if not [1 for w in self.watched if w[1] is m]:
            self.hand_out('a delivered message', m, frozen)
        self.seen.append(contents(m))

    # -- the network
    def receive(self, name, pid, flags=0, acks=None):
        data = refcodec.encode(DIC.by_name[name], DATA[name], flags, pid, acks)
        self.env.inbox.append((data, A))
        buf, size = self.d.udp_client.receive_packet(self.d.socket)
        h = self.d.udp_client.get_sender()
        m = self.d.receive_check(h, buf, size)
        if m is not None and not [1 for w in self.watched if w[1] is m]:
            self.hand_out('a received message', m)
        self.seen.append(m and contents(m))

    def answer(self, n):
        if self.failing:
            raise self.failing
        return response(llsd.format_xml(self.reply), 'application/llsd+xml')

    # -- the operations
    def send(self, k, host='A', reliable=None, fail=False):
        name, make = MAKERS[k]
        m = make(self.n)
        self.keep('a message (%s) that was sent' % name, m, contents)
        for l in m.blocks.values():
            for i in l:
                for v in i.vars.values():
                    if not isinstance(v.data, (int, long, float, str)):
                        self.keep('a value sent', v.data)
        if fail:
            self.env.fail_sends = 1
        if self.options and 'outgoing' in self.options:
            self.drop(m)
            self.keep('a message sent and monitored', m, contents)
        if reliable is None:
            self.d.send_message(m, self.host[host])
        else:
            self.d.send_reliable(m, self.host[host], reliable)
        self.env.fail_sends = 0
        self.last = m

    def op_ping(self):
        self.send(0)

    def op_chat_reliable(self):
        self.send(1, 'A', 1)

    def op_update(self):
        self.send(2, 'B')

    def op_update_reliable(self):
        self.send(2, 'A', 2)

    def op_test_fails(self):
        self.send(3, 'A', 1, True)

    def op_managed(self):
        """through a manager of its own"""
        caps = {'Other': self.cap}
        host = Host(B)
        self.keep('a host', host)
        self.keep('the capabilities of a manager', caps)
        m = MessageManager(host, self.mh, caps, self.settings)
        for i, make in enumerate((ping, update, bad)):
            p = make(self.n)
            self.keep('a message queued or sent by a manager', p, contents)
            m.send_udp_message(p, i == 1)
            m.enqueue_message(p, True, i == 2)

    def op_bad(self):
        self.send(4, 'A', 1)

    def op_built(self):
        """a message built from lists, and what is made of it"""
        b = [Block('NeighborBlock', Test0=i, Test1=self.n, Test2=[i]) for i in range(4)]
        self.keep('a list of blocks', b, lambda l: [(x.name, sorted(x.vars), frozen(x.vars.values()[0].data)) for x in l])
        one = Block('TestBlock1', Test1=self.n)
        m = Message('TestMessage', one, b)
        d = m.to_dict()
        self.keep('the dictionary form of a message', d)
        m.add_block(Block('NeighborBlock', Test0=9, Test1=9, Test2=9))
        m2 = Message('TestMessage', one, b)
        self.keep('a message built from the same blocks', m2, contents)
        m.add_block(Block('TestBlock1', Test1=1))
        m.data(), repr(m), m.to_dict()

    def op_builder(self):
        self.builder.new_message('Built')
        values = {'a': [1, {}]}
        self.builder.next_block('B')
        self.builder.add_data('V', values, None)
        self.builder.next_block('B')
        self.builder.add_data('W', self.n, None)
        self.keep('a value given to a builder', values)
        self.hand_out('a message built as LLSD', self.builder.build_message())

    def op_recv_ping(self):
        self.receive('StartPingCheck', self.next(), 0x40)

    def op_recv_chat(self):
        self.receive('ChatFromViewer', self.next(), 0x40, [1, 2, 3])

    def op_recv_update(self):
        self.receive('AgentUpdate', self.next())

    def op_recv_resent(self):
        self.receive('TestMessage', max(1, self.next_in - 1), 0x60)

    def op_recv_bad(self):
        data = refcodec.encode(DIC.by_name['AgentUpdate'], DATA['AgentUpdate'], 0x40, self.next(), None)[:-9]
        self.d.receive_check(self.host['A'], data, len(data))

    def next(self):
        self.next_in += 1
        return self.next_in - 1

    def op_process(self):
        self.d.process_acks()

    def op_forward(self):
        """as a proxy does"""
        for what, o in self.out[::-1]:
            if isinstance(o, Message) and o.name in DATA:
                # its books are kept anew
                self.drop(o)
                self.keep('a received message that was sent on', o, contents)
                self.d.send_reliable(o, self.host['B'], 1)
                break

    def call(self, fn, *args, **opts):
        how = opts.get('how', frozen)
        for i, a in enumerate(args):
            self.keep('argument %d of a call' % (i + 1), a)
        before = len(self.rest.calls)
        try:
            r = fn(*args)
        except exc.ResourceError, e:
            self.hand_out('an error', e)
        else:
            self.hand_out('what a call returned', r, how)
        for c in self.rest.calls[before:]:
            self.results.append((c[0], c[1], c[2] and frozen(llsd.parse(c[2])), sorted(c[3].items())))

    def op_get(self):
        self.reply = VALUE
        self.call(self.cap.GET, {'X-G': 'mine'})

    def op_get_plain(self):
        self.reply = VALUE
        self.call(self.cap.GET)

    def op_post(self):
        self.reply = [VALUE, {}]
        self.call(self.cap.POST, {'payload': [VALUE, u'\xe9'], 'n': 1}, {})

    def op_post_headers(self):
        self.reply = {}
        self.call(self.cap.POST, [VALUE, [[]]], {'X-P': 'mine', 'content-type': 'application/llsd+xml'})

    def op_post_fails(self):
        self.failing = HTTPError(500, 'no', Body('the body'))
        self.call(self.cap.POST, {'payload': [1]}, {'X-P': 'mine'})
        self.failing = None

    def op_post_refused(self):
        payload = (1, [2])
        try:
            self.call(self.cap.POST, payload, {'X-R': 'mine'})
        except exc.DeserializerNotFound:
            pass
        except Exception, e:
            self.results.append(e.__class__.__name__)

    def op_seed(self):
        self.reply = {'capabilities': {'EventQueueGet': 'http://x/eq', 'Other': 'http://x/o', 'Unicode': 'http://x/u', 'Other2': u'http://x/2', 'Extra': 'http://x/e'}}
        names = [n for n in NAMES if n != 'Absent']
        mine = []
        # the capabilities in it are watched each by itself
        self.call(self.seed.get, names, how=lambda d: sorted([(repr(k), d[k] in mine) for k in d]))
        for c in self.out[-1][1].values():
            mine.append(c)
        self.results = self.results[1:]
        self.watched[-1] = self.watched[-1][:3] + (self.watched[-1][2](self.out[-1][1]),)
        for n, c in sorted(self.out[-1][1].items()):
            self.hand_out('a granted capability', c)

    def op_rest_get(self):
        self.wire(lambda h: self.client.GET('http://10.0.0.9/a', h), {'X-A': 'b', 'Accept': 'x'})

    def op_rest_post(self):
        self.wire(lambda h: self.client.POST('http://10.0.0.9/b', 'data', h), {u'X-U': u'v', 'Content-type': 'a/b'})

    def wire(self, fn, headers):
        self.keep('the headers of a request', headers)
        w = Wire(lambda n, r: http(200, 'OK', [('Content-Type', 'a/b'), ('X-Z', 'z')], 'answer'))
        r = fn(headers)
        self.hand_out('a response', r)
        self.results.append([(q.line, sorted(q.headers), q.body) for q in w.requests])

    def op_events(self):
        """an event queue of its own, with the same subscribers, in two polls"""
        polls = []

        def answer(n, request):
            polls.append(n)
            if n:
                eq.stopped = True
            if n < 2:
                return reply_llsd({'id': n, 'events': EVENTS[n:]})
            return reply_llsd({'id': 1, 'events': []})
        s = Settings()
        s.REGION_EVENT_QUEUE_POLL_INTERVAL = 0
        self.keep('the settings of an event queue', s)
        cap = self.keep('the capability of an event queue', Capability('EventQueueGet', URL, FakeRest(answer), s))
        eq = EventQueueClient(cap, s, self.mh, self.host['B'])
        eq.start()

    def op_convert(self):
        u, v, q = UUID(bytes=UUIDS[1]), Vector3(X=1, Y=0.1, Z=3), Quaternion(X=0.5, Y=0.5, Z=0.5, W=-0.5)
        for x in (u, v, q, Quaternion(X=1, W=2), Vector3(), UUID()):
            self.keep('a value converted', x)
            self.results.append((hexs(x.get_bytes()), repr(x), repr(x()), repr(x.data())))
            c = x.copy() if hasattr(x, 'copy') else None
            if c is not None:
                self.hand_out('a copy', c)
        w = UUID(bytes='ponmlkjihgfedcba')
        self.keep('a value converted', w)
        self.hand_out('an xor', u ^ w) if hasattr(u, '__xor__') else None
        self.hand_out('an xor', u.xor(w)) if hasattr(u, 'xor') else None
        u == w, hash(u), str(u), repr(v), v(), v.data()
        Vector3.dist_squared(v, v)
        for p in ([1, [2]], {'a': {'b': []}}):
            self.keep('a payload', p)
            s = (ListLLSDSerializer if type(p) is list else DictLLSDSerializer)(p)
            self.hand_out('a decoded payload', LLSDDeserializer().deserialize(s.serialize()))
            self.results.append(s.content_type)

    # the application changes what it was given; nothing else may change with it
    def op_spoil(self):
        if not self.out:
            return
        what, o = self.out.pop()
        self.drop(o)
        spoil(o)

    def op_spoil_older(self):
        if len(self.out) < 2:
            return
        what, o = self.out.pop(-2)
        self.drop(o)
        spoil(o)

    def do(self, op):
        self.n += 1
        self.trace.append(op)
        self.results, self.seen = [], []
        getattr(self, 'op_' + op)()
        self.look(op)
        self.ctx.step()
        return self.seen if op in RECEIVED else self.results


def spoil(o):
    if isinstance(o, Message):
        for l in o.blocks.values():
            for i in l:
                for v in i.vars.values():
                    if isinstance(v.data, UUID) or isinstance(v.data, (list, dict)) or isinstance(v.data, (Vector3, Quaternion)):
                        spoil(v.data)
                    v.data = 'spoilt'
            del l[1:]
        o.add_block(Block('Spoilt', A=1))
        o.acks.append(99)
        o.name = 'Spoilt'
        o.host = None
    elif isinstance(o, UUID):
        o.random()
    elif isinstance(o, (Vector3, Quaternion)):
        o.X = 77.0
    elif isinstance(o, dict):
        for v in o.values():
            if isinstance(v, (dict, list)):
                spoil(v)
        for k in o.keys()[:1]:
            o[k] = 'spoilt'
        o['spoilt'] = 'spoilt'
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                spoil(v)
        o[:] = ['spoilt']
    elif isinstance(o, Capability):
        o.public_url = 'http://spoilt/'
        o.name = 'Spoilt'
    elif isinstance(o, Response):
        o.body = 'spoilt'
        o.headers['X-Spoilt'] = 'x'
    elif isinstance(o, exc.ResourceError):
        o.url = o.body = 'spoilt'


OPS = sorted([n[3:] for n in dir(World) if n.startswith('op_')])
OPTIONS = [(), ('outgoing',), ('log',)]
SAME = ['get', 'get_plain', 'post', 'post_headers', 'post_fails', 'post_refused', 'seed', 'rest_get', 'rest_post', 'convert', 'builder']
RECEIVED = ['recv_ping', 'recv_chat', 'recv_update', 'recv_resent', 'events']
_alone = {}
_snapshot = []


def alone(op, ctx):
    """what an operation hands out when nothing came before"""
    if op not in _alone:
        _snapshot[0].restore()
        _alone[op] = sifted(World(ctx, ()).do(op), op)
    return _alone[op]


def sifted(results, op):
    if op == 'builder':
        return repr(results).replace("'int'", '').split("W")[0]
    return repr(results)


def run_sequence(ops, options, ctx):
    _snapshot[0].restore()
    ctx.case = {'kind': 'one', 'ops': list(ops), 'options': list(options)}
    w = World(ctx, options)
    for op in ops:
        r = w.do(op)
        if op in SAME or op in RECEIVED:
            got, want = sifted(r, op), _alone[op]
            ctx.check(got == want, 'history', 'after %r: %s hands out %s instead of %s as in the beginning' % (w.trace, op, got[:900], want[:900]))
    ctx.execution()
    ctx.state((tuple(ops), options))
    ctx.outcome(repr(w.results)[:120])


def cases(tier):
    for o in range(len(OPTIONS)):
        for op in OPS:
            yield {'kind': 'all', 'first': op, 'o': o, 'd': 3 if (o == 0 or tier != 'quick') else 2}
            yield {'kind': 'long', 'first': op, 'o': o, 'n': 40 if tier == 'quick' else 300}


def run(case, ctx):
    if not _snapshot:
        _snapshot.append(isolate.Snapshot())
        for op in SAME + RECEIVED:
            alone(op, ctx)
    if case['kind'] == 'one':
        return run_sequence(case['ops'], tuple(case['options']), ctx)
    options = OPTIONS[case['o']]
    if case['kind'] == 'all':
        for rest in itertools.product(OPS, repeat=case['d'] - 1):
            run_sequence((case['first'],) + rest, options, ctx)
    else:
        # the same many times over, all others one after the other, and the same again
        run_sequence([case['first']] * case['n'] + OPS + [case['first']] + OPS[::-1] + [case['first']], options, ctx)
        for other in OPS:
            run_sequence([case['first'], other] * 6, options, ctx)
