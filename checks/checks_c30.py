"""C30: showing messages, fields, errors, hosts and capabilities."""
import itertools
import struct
from mc import repo, refcodec, net
from mc.core import Violation, hexs
import codec
from llbase import llsd
from pyogp.lib.base import exc
from pyogp.lib.base.caps import Capability, SeedCapability
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.helpers import Helpers
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.message.message import Message, Block, Variable
from pyogp.lib.base.message.msgtypes import MsgType
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.network.net import NetUDPClient
from pyogp.lib.base.settings import Settings
import logging


class Thing(object):
    def __str__(self):
        return 'thing'


VALUES = [0, -1, 2 ** 40, 1.5, None, True, '', 'text', 'two\nlines', '\0\xff\x80', u'', u'text', u'caf\xe9', u'\u20ac\U0001f600', (1, 'x'), (), [u'\xe9', '\xff'], {u'\xe9': '\xff'},
          UUID(bytes='abcdefghijklmnop'), Vector3(X=1, Y=2, Z=3), Quaternion(X=0, Y=0, Z=0, W=1), Thing()]
NAMES = ['Name', 'caf\xc3\xa9', u'Name2', u'caf\xe9']


def text(v):
    if isinstance(v, unicode):
        return v.encode('utf-8')
    return str(v)


def shown_as(v, mvt):
    """what a value must look like"""
    if mvt == MsgType.MVT_FIXED and type(v) is str:
        n = len(v) / 2
        return None if len(v) % 2 else str(struct.unpack('h' * n, v))
    return text(v)


def snapshot(m):
    return (m.name, sorted(m.blocks), [[(i.name, i.var_list[:], [(n, repr(type(i.vars[n].data)), id(i.vars[n].data), i.vars[n].var_type) for n in i.var_list]) for i in m.blocks[b]] for b in sorted(m.blocks)],
            sorted(m.__dict__), m.packet_id, m.acks[:], m.reliable, m.send_flags, repr(m.host))


def show(m, ctx, label):
    """every way of showing a message"""
    before = snapshot(m)
    shown = []
    for how, f in (('data()', m.data), ('repr', lambda: repr(m)), ('str', lambda: str(m)), ('%s', lambda: '%s' % m), ('again', m.data)):
        try:
            s = f()
        except Exception, e:
            raise Violation('raised', '%s of %s raised %s: %r' % (how, label, e.__class__.__name__, e))
        ctx.check(type(s) is str, 'type', '%s of %s is a %s' % (how, label, type(s)))
        shown.append(s)
    ctx.check(shown.count(shown[0]) == len(shown), 'differs', '%s shown in several ways: %r' % (label, shown))
    ctx.check(snapshot(m) == before, 'changed', 'showing %s changed it: %r, before %r' % (label, snapshot(m), before))
    s = shown[0]
    ctx.check(text(m.name) in s, 'name', '%s is shown without its name: %r' % (label, s))
    # the fields, instance by instance
    parts = []
    for b in m.blocks:
        at = s.find('Block Name:    %s\n' % text(b))
        if at < 0:
            at = s.find(text(b))
        ctx.check(at >= 0, 'block', '%s is shown without its block %r: %r' % (label, b, s))
        parts.append((at, b))
    for at, b in parts:
        pos = at + len(text(b))
        for n, inst in enumerate(m.blocks[b]):
            for name in inst.var_list:
                v = inst.vars[name]
                pos = after(s, pos, text(name), ctx, '%s: field %s of instance %d of %s is not shown after those before it' % (label, text(name), n, text(b)))
                want = shown_as(v.data, v.var_type)
                if want is not None:
                    pos = after(s, pos, want, ctx, '%s: value %r of field %s of instance %d of %s is not shown' % (label, v.data, text(name), n, text(b)))
                for f in (lambda: str(v), lambda: repr(v), v.get_data_as_string):
                    try:
                        t = f()
                    except Exception, e:
                        raise Violation('raised', 'showing %r of type %r raised %r' % (v.data, v.var_type, e))
                    ctx.check(type(t) is str and (want is None or t == want), 'value', '%r of type %r is shown as %r' % (v.data, v.var_type, t))
    try:
        Helpers.log_packet(m, ctx)
        Helpers.log_event_queue_data(m, ctx)
    except Exception, e:
        raise Violation('raised', 'logging %s raised %r' % (label, e))
    ctx.execution()
    ctx.step(len(shown))
    return s


def after(s, pos, want, ctx, msg):
    i = s.find(want, pos)
    ctx.check(i >= 0, 'field', msg)
    return i + len(want)


class Formatting(logging.Handler):
    """formats every record, as a real one would"""

    def emit(self, record):
        s = self.format(record)
        if isinstance(s, unicode):
            s.encode('utf-8')

    def handle(self, record):
        self.emit(record)


def cases(tier):
    q = tier == 'quick'
    full = repo.full().templates
    for i in range(0, len(full), 12):
        yield {'k': 'template', 'i': i, 'n': min(len(full), i + 12), 'th': not q}
    for i in range(len(VALUES)):
        yield {'k': 'values', 'i': i, 'th': not q}
    for i in range(len(NAMES)):
        yield {'k': 'names', 'i': i}
    for n in range(0, 300, 50):
        yield {'k': 'fixed', 'lo': n, 'hi': n + 50}
    for n in [1, 2, 9, 17, 33, 65, 129, 257, 600, 1500, 4000] + ([] if q else [9000, 20000]):
        yield {'k': 'long', 'n': n}
    yield {'k': 'shapes', 'd': 3 if q else 4}
    for c in sorted(ERRORS):
        yield {'k': 'errors', 'c': c, 'th': not q}
    yield {'k': 'others'}
    for i in range(len(VALUES)):
        yield {'k': 'events', 'i': i}


# arguments of the errors: attribute names, which of them the text names
ERRORS = {
    'LoginError': (['error'], ['error']), 'ParseStartLocError': (['error'], []), 'HTTPError': (['code', 'msg', 'fp', 'details'], ['code', 'msg']),
    'ResourceNotFound': (['url'], ['url']), 'ResourceError': (['url', 'code', 'message', 'body', 'method'], ['url', 'code', 'message', 'method']),
    'DeserializerNotFound': (['content_type'], ['content_type']), 'CredentialDeserializerNotFound': (['payload'], ['payload']),
    'DeserializationFailed': (['payload', 'reason'], ['payload', 'reason']), 'MessageTemplateNotFound': (['context', 'template'], ['context']),
    'MessageTemplateParsingError': (['context', 'template'], ['context']), 'CircuitNotFound': (['host', 'reason'], ['host', 'reason']),
    'MessageBuildingError': (['label', 'reason'], ['label', 'reason']), 'MessageSerializationError': (['label', 'reason'], ['label', 'reason']),
    'MessageDeserializationError': (['label', 'reason'], ['label', 'reason']), 'DataUnpackingError': (['data', 'reason'], ['data', 'reason']),
    'RegionSeedCapNotAvailable': (['reason'], ['reason']), 'RegionMessageError': (['region'], ['region']), 'DataParsingError': (['error'], ['error']),
    'NotImplemented': (['error'], ['error']), 'Deprecated': (['thing'], ['thing']), 'UserNotFound': (['credentials'], []), 'UserNotAuthorized': (['credentials'], []),
    'UserRezFailed': (['region'], []), 'RegionCapNotAvailable': (['cap'], []),
}


def error(case, ctx):
    names, texts = ERRORS[case['c']]
    cls = getattr(exc, case['c'])
    values = VALUES + [ValueError('inner'), ValueError(u'caf\xe9'), Host(('10.0.0.1', 5))]
    n = len(names)
    for args in itertools.product(range(len(values)), repeat=n) if n < 3 else itertools.chain(
            itertools.product(range(0, len(values), 1 if case['th'] else 2), repeat=2), [(i,) * n for i in range(len(values))]):
        if len(args) < n and n > 2:
            args = tuple([args[i % 2] for i in range(n)])
        a = [values[i] for i in args]
        e = cls(*a)
        label = '%s(%s)' % (case['c'], ', '.join([repr(v) for v in a]))
        for name, v in zip(names, a):
            ctx.check(getattr(e, name) is v, 'attribute', '%s has %s %r' % (label, name, getattr(e, name)))
        for how, f in (('str', lambda: str(e)), ('%s', lambda: '%s' % e), ('repr', lambda: repr(e)), ('with others', lambda: '%s \xff %s' % (e, e))):
            try:
                s = f()
            except Exception, x:
                raise Violation('raised', '%s of %s raised %s' % (how, label, x.__class__.__name__))
            ctx.check(type(s) is str, 'type', '%s of %s is a %s' % (how, label, type(s)))
            if how != 'repr' and texts:
                for name in texts:
                    v = getattr(e, name)
                    t = 'inner' if isinstance(v, ValueError) and v.args == ('inner',) else '' if isinstance(v, ValueError) else text(v)
                    ctx.check(t in s, 'text', '%s of %s is %r, without its %s' % (how, label, s, name))
        ctx.check(isinstance(e, exc.Error), 'class', '%s is no Error' % label)
        ctx.execution()
        ctx.step(4)
    ctx.state(case['c'])
    ctx.outcome(case['c'])


def run(case, ctx):
    k = case['k']
    root = logging.getLogger()
    logging.disable(logging.NOTSET)
    handler = Formatting()
    root.addHandler(handler)
    root.setLevel(logging.DEBUG)
    raising, logging.raiseExceptions = logging.raiseExceptions, True
    try:
        KINDS[k](case, ctx)
    finally:
        root.removeHandler(handler)
        logging.disable(logging.CRITICAL)


_codec = []


def codecs():
    if not _codec:
        s = Settings()
        s.ENABLE_DEFERRED_PACKET_PARSING = False
        _codec.append((UDPMessageSerializer(), UDPMessageDeserializer(settings=s)))
    return _codec[0]


def template(case, ctx):
    """every message, as made by the application and as received"""
    ser, des = codecs()
    for t in repo.full().templates[case['i']:case['n']]:
        for count in (1, 3):
            blocks = codec.fill(t, dict([(b.name, count) for b in t.blocks if b.kind == 'Variable']))
            m = codec.to_message(t, blocks)
            show(m, ctx, t.name)
            m.packet_id = 7
            data = ser.serialize(m)
            show(m, ctx, t.name + ' once sent')
            ctx.check(ser.serialize(m) == data, 'changed', '%s serializes differently after it was shown' % t.name)
            if data is None or codec.empty(t, blocks):
                continue
            p = des.deserialize(data)
            if p is None:
                continue
            show(p, ctx, t.name + ' received')
            p.packet_id = 7
            ctx.state((t.name, count))
            for i in range(0, len(data), 1 if case['th'] else 5):
                if i < 10:
                    continue
                # other contents
                try:
                    p = des.deserialize(data[:i] + '\xe9' + data[i + 1:])
                except exc.Error:
                    p = None
                if p is not None:
                    show(p, ctx, t.name + ' received')
            ctx.outcome((t.name, len(data)))


def values(case, ctx):
    types = [None, -1] + range(len(MsgType.MVT_String_List))
    v = VALUES[case['i']]
    for ty in types:
        if ty in (MsgType.MVT_FIXED, MsgType.MVT_VARIABLE) and not isinstance(v, basestring):
            continue
        if ty == MsgType.MVT_FIXED and v == '':
            continue  # no field is fixed at 0 bytes, and Jython cannot unpack them
        for w in VALUES:
            b = Block('B')
            b.add_variable(Variable('First', v, ty))
            b.add_variable(Variable('Second', w))
            show(Message('M', b), ctx, 'a message holding %r and %r' % (v, w))
            ctx.state((case['i'], ty, repr(w)))
    ctx.outcome(repr(v))


def names(case, ctx):
    first = NAMES[case['i']]
    for bname in NAMES:
        for vname in NAMES:
            for v in VALUES:
                b = Block(bname)
                b.add_variable(Variable(vname, v))
                b.add_variable(Variable('Last', 'caf\xe9'))
                show(Message(first, b, Block(bname)), ctx, 'message %r, block %r, field %r, value %r' % (first, bname, vname, v))
                ctx.state((first, bname, vname, repr(v)))
    ctx.outcome(repr(first))


def fixed(case, ctx):
    for n in range(case['lo'], case['hi']):
        for fill in ('\0', '\xff', 'a', '\x80'):
            for ty in (MsgType.MVT_FIXED, MsgType.MVT_VARIABLE, None):
                if n == 0 and ty == MsgType.MVT_FIXED:
                    continue
                b = Block('B')
                b.add_variable(Variable('Data', fill * n, ty))
                b.add_variable(Variable('Next', 5))
                s = show(Message('M', b), ctx, '%d bytes' % n)
                ctx.state((n, fill, ty))
                if ty == MsgType.MVT_FIXED:
                    other = Block('B')
                    other.add_variable(Variable('Data', fill * n + '\1', ty))
                    other.add_variable(Variable('Next', 5))
                    ctx.check(show(Message('M', other), ctx, 'bytes') != s, 'same', '%d bytes are shown like one more' % n)
    ctx.outcome(case['lo'])


def shapes(case, ctx):
    """blocks in any number and order"""
    for n in range(case['d'] + 1):
        for bs in itertools.product([('A', 0), ('A', 1), ('A', 2), ('B', 1), ('B', 3), ('AB', 2)], repeat=n):
            m = Message('Shape')
            serial = 100
            for name, fields in bs:
                b = Block(name)
                for i in range(fields):
                    serial += 1
                    b.add_variable(Variable('F%d' % (9 - i), serial))
                m.add_block(b)
            s = show(m, ctx, repr(bs))
            for i in range(101, serial + 1):
                ctx.check(s.count(str(i)) == 1, 'twice', '%r: value %d is shown %d times in %r' % (bs, i, s.count(str(i)), s))
            ctx.state(bs)
            ctx.outcome(len(s))


def long_ones(case, ctx):
    """long values, many fields, many instances"""
    n = case['n']
    for ty in (None, MsgType.MVT_FIXED, MsgType.MVT_VARIABLE, MsgType.MVT_U8):
        b = Block('B')
        b.add_variable(Variable('Long', 'a\xe9' * n, ty))
        b.add_variable(Variable('Next', 5))
        last = Block('C')
        last.add_variable(Variable('Last', 'last'))
        show(Message('M', b, last), ctx, 'a message with %d bytes' % (2 * n))
    for names in (['F%d' % i for i in range(n)], ['N' * n, 'O' * (n - 1)]):
        b = Block('B')
        for i, name in enumerate(names):
            b.add_variable(Variable(name, VALUES[i % len(VALUES)]))
        b.add_variable(Variable('Last', 'last'))
        show(Message('M', b, Block('C')), ctx, 'a message with %d fields' % len(names))
    bs = []
    for i in range(n):
        b = Block('B')
        b.add_variable(Variable('Value', 1000 + i))
        b.add_variable(Variable('Data', '\xff' * (i % 7)))
        bs.append(b)
    show(Message('M', *bs), ctx, 'a message with %d instances' % n)
    bs = []
    for i in range(n):
        b = Block('B%d_' % i)
        b.add_variable(Variable('Value', 1000 + i))
        bs.append(b)
    show(Message('M', *bs), ctx, 'a message with %d blocks' % n)
    ctx.state(n)
    ctx.outcome(n)


def others(case, ctx):
    urls = ['http://x/', u'http://x/', u'http://caf\xe9/', 'http://caf\xc3\xa9/', '', None]
    for name in NAMES + [None]:
        for url in urls:
            for c, shown in ((Capability(name, url), (name, url)), (SeedCapability(name, url), (url,))):
                for f in (repr, str, lambda x: '%s' % x, lambda x: '%s %s' % (x, '\xff')):
                    try:
                        s = f(c)
                    except Exception, e:
                        raise Violation('raised', 'showing a capability %r of %r raised %r' % (name, url, e))
                    for v in shown:
                        ctx.check(type(s) is str and text(v) in s, 'text', 'capability %r of %r is shown as %r' % (name, url, s))
                    ctx.step()
                ctx.check(c.name is name and c.public_url is url, 'changed', 'showing a capability changed it')
                ctx.execution()
    ips = ['10.0.0.1', u'10.0.0.1', '', None, 'sim1.example.com']
    ports = [0, 1, 65535, None, '9000', 12043L]
    for ip in ips:
        for port in ports:
            h = Host((ip, port))
            n = NetUDPClient()
            n.sender = h
            for x in (h, n):
                for f in (repr, str, lambda x: '%s' % x):
                    try:
                        s = f(x)
                    except Exception, e:
                        raise Violation('raised', 'showing host %r:%r raised %r' % (ip, port, e))
                    ctx.check(type(s) is str and ('%s:%s' % (ip, port)) in s, 'host', 'host %r:%r is shown as %r' % (ip, port, s))
                    ctx.step()
                ctx.execution()
            ctx.check((h.ip, h.port) == (ip, port), 'changed', 'showing a host changed it')
    ctx.check(type(repr(NetUDPClient())) is str, 'host', 'a new client')
    ctx.outcome('others')


_eq = []


def events(case, ctx):
    """messages of event queues"""
    if not _eq:
        _eq.append(EventQueueClient(Capability('EventQueueGet', 'http://x/'), host=Host(('10.0.0.1', 5))))
    eq = _eq[0]
    v = VALUES[case['i']]
    for name in NAMES + ['ChatFromViewer']:
        for key in NAMES:
            for w in VALUES:
                body = {key: v, 'other': w} if name != 'ChatFromViewer' else {'ChatData': [{key: v, 'other': w}, {key: w}], u'caf\xe9': []}
                got = []
                eq.message_handler.handlers.clear()
                eq.message_handler.register(name).subscribe(got.append)
                eq.last_id = 5
                for m in eq._decode_eq_result({'id': 5, 'events': [{'message': name, 'body': body}]}):
                    show(m, ctx, 'event %r %r' % (name, body))
                    got.append(m)
                ctx.check(len(got) == 1, 'model', 'no message')
                ctx.state((name, key, case['i'], repr(w)))
    ctx.outcome(case['i'])


KINDS = {'template': template, 'values': values, 'names': names, 'fixed': fixed, 'shapes': shapes, 'long': long_ones, 'errors': error, 'others': others, 'events': events}
