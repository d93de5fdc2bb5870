"""C06: message.xml against what is sent and delivered."""
import itertools
from mc import repo, refcodec, net
from mc.core import Violation, hexs
import codec
from pyogp.lib.base import exc
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.message_manager import MessageManager
from pyogp.lib.base.settings import Settings

HOST = Host(('10.0.0.1', 1000))
CHUNK = 40


class World(object):
    """a dispatcher under some message.xml; allowed(name) is the reference"""

    def __init__(self, allowed, via, xml=None, parse_all=False):
        self.env = net.new_env()
        self.allowed = allowed
        self.dic = repo.full()
        s = Settings()
        s.ENABLE_DEFERRED_PACKET_PARSING = not parse_all
        self.mh = MessageHandler(s)
        self.log = []
        if via == 'embedded':
            self.d = UDPDispatcher(settings=s, message_handler=self.mh)
        elif via == 'embedded-manager':
            self.d = MessageManager(HOST, settings=s, message_handler=self.mh).udp_dispatcher
        elif via == 'dispatcher':
            self.d = UDPDispatcher(settings=s, message_handler=self.mh, message_xml=MessageDotXML(xml))
        elif via == 'manager':
            self.d = MessageManager(HOST, settings=s, message_handler=self.mh, message_xml=open(repo.template_file(xml, 'm.xml'))).udp_dispatcher
        self.pid = 0
        self.subs = set()

    def circuit(self):
        return self.d.circuit_manager.get_circuit(HOST)

    def pending(self):
        c = self.circuit()
        if c is None:
            return 0
        return len(c.unacked_packets) + len(c.final_retry_packets)

    def send(self, name, reliable, ctx):
        t = self.dic.by_name[name]
        blocks = codec.fill(t)
        m = codec.to_message(t, blocks)
        self.env.take()
        before = self.pending()
        if reliable:
            r = self.d.send_reliable(m, HOST, 2)
        else:
            r = self.d.send_message(m, HOST)
        out = self.env.take()
        ok = self.allowed(name)
        what = '%s, sent %s, listed so that UDP is %s' % (name, 'reliably' if reliable else 'plainly', 'allowed' if ok else 'refused')
        if ok:
            ctx.check(len(out) == 1, 'not-sent', '%s: %d datagrams' % (what, len(out)))
            x = refcodec.decode(self.dic, out[0][0])
            ctx.check(x.name == name and x.blocks is not None and out[0][1] == ('10.0.0.1', 1000), 'sent', '%s: %s was sent' % (what, x.name))
            ctx.check(x.reliable == reliable, 'reliable', '%s: reliable flag' % what)
        else:
            ctx.check(not out, 'sent-refused', '%s: a datagram was sent: %s' % (what, [hexs(o[0])[:60] for o in out]))
        ctx.check(self.pending() == before + (1 if ok and reliable else 0), 'outstanding', '%s: %d outstanding before, %d after' % (what, before, self.pending()))
        c = self.circuit()
        ctx.check(c.unack_packet_count == len(c.unacked_packets), 'count', '%s: count %d of %d outstanding' % (what, c.unack_packet_count, len(c.unacked_packets)))
        # nothing of it comes later
        self.d.process_acks()
        for data, addr in self.env.take():
            x = refcodec.decode(self.dic, data)
            ctx.check(x.name == 'PacketAck' or self.allowed(x.name), 'sent-refused', '%s: sent later: %s' % (what, x.name))
        if ok and reliable:
            self.ack(out, ctx)
        ctx.step()

    def ack(self, out, ctx):
        pid = refcodec.decode(self.dic, out[0][0]).pid
        t = self.dic.by_name['PacketAck']
        self.pid += 1
        data = refcodec.encode(t, {'Packets': [{'ID': pid}]}, 0, self.pid)
        self.d.receive_check(HOST, data, len(data))
        ctx.check(self.pending() == 0, 'ack', 'still outstanding after its ack')

    def receive(self, name, reliable, subscribed, ctx, zero=False):
        t = self.dic.by_name[name]
        blocks = codec.plain_blocks(t, codec.fill(t))
        self.pid += 1
        if subscribed and not self.mh.is_message_handled(name):
            self.mh.register(name).subscribe(self.log.append)
        subscribed = subscribed or name in self.subs
        if subscribed:
            self.subs.add(name)
        del self.log[:]
        data = refcodec.encode(t, blocks, 0x40 if reliable else 0, self.pid, zerocoded=zero)
        p = self.d.receive_check(HOST, data, len(data))
        ok = self.allowed(name)
        what = '%s received, UDP %s' % (name, 'allowed' if ok else 'refused')
        if ok and subscribed:
            ctx.check(len(self.log) == 1 and self.log[0].name == name, 'not-delivered', '%s: delivered %s' % (what, [m.name for m in self.log]))
            codec.compare(t, blocks, self.log[0], what, ctx)
        else:
            ctx.check(not self.log, 'delivered-refused', '%s: delivered %s' % (what, [m.name for m in self.log]))
        if not ok:
            ctx.check(p is None, 'delivered-refused', '%s: returned to the caller' % what)
        self.d.process_acks()
        acks = []
        for data, addr in self.env.take():
            x = refcodec.decode(self.dic, data)
            ctx.check(x.name == 'PacketAck', 'sent', 'unexpected %s' % x.name)
            acks += [b['ID'] for b in x.blocks['Packets']]
        ctx.check(acks == ([self.pid] if reliable else []), 'acked', '%s (reliable: %s): acked %s' % (what, reliable, acks))
        ctx.step()

    def exercise(self, name, ctx):
        self.receive(name, True, False, ctx)
        for reliable in (False, True):
            self.send(name, reliable, ctx)
        for reliable in (False, True):
            self.receive(name, reliable, True, ctx, zero=reliable)
        # other traffic
        if self.allowed('StartPingCheck'):
            self.send('StartPingCheck', True, ctx)
            self.receive('StartPingCheck', True, True, ctx)
        for reliable in (True, False):
            self.send(name, reliable, ctx)
        ctx.execution()
        ctx.state((name, self.allowed(name)))
        ctx.outcome((name, self.allowed(name)))
        if ctx.executions % 101 == 1:
            ctx.sample('%s: %s' % (name, 'allowed' if self.allowed(name) else 'refused'))


FLAVORS = [None, 'template', 'llsd', 'other']
TRIO = ['StartPingCheck', 'ChatFromViewer', 'EnableSimulator']


def cases(tier):
    names = [t.name for t in repo.full().templates if t.blocks]
    for via in ('embedded', 'embedded-manager'):
        for parse_all in (False, True):
            for i in range(0, len(names), CHUNK):
                yield {'k': 'all', 'via': via, 'names': names[i:i + CHUNK], 'parse_all': parse_all}
    for via in ('dispatcher', 'manager'):
        for fs in itertools.product(FLAVORS, repeat=3):
            yield {'k': 'trio', 'via': via, 'fs': list(fs)}
        # everything listed / nothing but one listed
        for fl in ('template', 'llsd'):
            for i in range(0, len(names), 120):
                yield {'k': 'bulk', 'via': via, 'fl': fl, 'names': names[i:i + 120]}
    for fs in itertools.product(FLAVORS, repeat=2):
        yield {'k': 'codec', 'fs': list(fs)}


def run(case, ctx):
    k = case['k']
    if k == 'all':
        w = World(codec.udp_allowed, case['via'], parse_all=case['parse_all'])
        for n in case['names']:
            w.exercise(n, ctx)
        return
    if k in ('trio', 'bulk'):
        if k == 'trio':
            listed = dict([(n, f) for n, f in zip(TRIO, case['fs']) if f is not None])
        else:
            listed = dict([(n, case['fl']) for n in case['names'] if n != 'PacketAck'])
            listed['ChatFromViewer'] = 'llsd'
        w = World(lambda n: listed.get(n, 'template') == 'template', case['via'], repo.xml_of(listed))
        for n in TRIO + ['UseCircuitCode', 'TestMessage'] + (case['names'][:20] if k == 'bulk' else []):
            w.exercise(n, ctx)
        return
    listed = dict([(n, f) for n, f in zip(TRIO, case['fs']) if f is not None])
    xml = repo.xml_of(listed)
    s = Settings()
    s.ENABLE_DEFERRED_PACKET_PARSING = False
    ser = UDPMessageSerializer(message_xml=MessageDotXML(xml))
    des = UDPMessageDeserializer(settings=s, message_xml=MessageDotXML(xml))
    for rnd in range(2):
        for n in TRIO + ['UseCircuitCode', 'EventQueueX']:
            ok = listed.get(n, 'template') == 'template'
            ctx.check(bool(MessageDotXML(xml).validate_udp_msg(n)) == ok, 'validate', 'validate_udp_msg(%s) with %r' % (n, listed))
            t = repo.full().by_name.get(n)
            if t is None:
                continue
            blocks = codec.fill(t)
            plain = codec.plain_blocks(t, blocks)
            m = codec.to_message(t, blocks)
            m.packet_id = 4
            got = ser.serialize(m)
            want = refcodec.encode(t, plain, 0, 4) if ok else None
            ctx.check(got == want, 'serializer', '%s with %r serialized to %r' % (n, listed, got))
            p = des.deserialize(refcodec.encode(t, plain, 0, 4))
            ctx.check((p is not None) == ok, 'deserializer', '%s with %r: decoded %r' % (n, listed, p is not None))
            ctx.step(2)
            ctx.state((n, ok))
    ctx.execution()
