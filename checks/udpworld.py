"""The UDP side of the library (UDPDispatcher, circuits, NetUDPClient) driven by
operations, in lockstep with a reference model of what each host is owed.

Every monitor carries the property it belongs to; a check activates its own."""
from mc import repo, refcodec, net, clock
from mc.core import Violation, hexs

SMALL = ['PacketAck', 'StartPingCheck', 'ChatFromViewer', 'EnableSimulator', 'TestMessage']
DIC = repo.small(SMALL, {'EnableSimulator': 'llsd'})

from pyogp.lib.base import exc
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.datatypes import UUID
from pyogp.lib.base.settings import Settings

# A and B have the ip in common, A and C the port, A and D what ip and port look like one after the other
class Addresses(dict):
    def __missing__(self, name):
        # many hosts: H0, H1, ...; some share the ip, some the port
        n = int(name[1:])
        return '10.1.%d.%d' % (n // 7 // 250, n // 7 % 250), 1000 + (n * 3) % 11


ADDR = Addresses({'A': ('10.0.0.1', 11000), 'B': ('10.0.0.1', 2000), 'C': ('10.0.0.2', 11000), 'D': ('10.0.0.11', 1000)})
_xml = []


class Boom(Exception):
    """raised by a subscriber"""


BOOM = 66


# how many hosts there are at once
CROWDS = [12, 33, 70, 140, 300, 530, 1050]


def crowd_ops(n):
    """traffic with n hosts at once; all is looked at at None"""
    hosts = ['H%d' % i for i in range(n)]
    # half of them owe and are owed nothing while the others come
    ops = []
    for i, h in enumerate(hosts[:n // 2]):
        ops += [[('send', h)], [('recv', h, 'handled')], [('send', h, 2), ('pa', h, ['all'])]][i % 3]
    ops += [('process',), None]
    ops += [('send', h, 2) for h in hosts[n // 2:]]
    ops += [('process',), None]
    ops += [('send', h, 2) for h in hosts]
    ops += [('recv', h, 'handled') for h in hosts[::2]]
    for h in hosts[1::3]:
        ops += [('send', h, 0), ('recv', h, 'unhandled', True, ['oldest'])]
    ops += [('process',), None]
    ops += [('pa', h, ['newest'], True) for h in hosts[::-1]]
    for h in hosts[::5]:
        ops += [('recv', h, 'unknown'), ('send', h)]
    ops += [('process',), None]
    for h in hosts[:9] + hosts[-9:]:
        ops += [('recv', h, 'unhandled', False, ['all']), ('send', h, 1)]
    ops += [('process',), ('process',), None]
    for h in hosts:
        ops += [('pa', h, ['all']), ('send', h)]
    return hosts, ops + [('process',), None]


def crowd(tag, n, ctx):
    """each of many hosts monitored as ever"""
    hosts, ops = crowd_ops(n)
    w = World([tag], hosts=hosts)
    w.quiet = True
    for op in ops:
        if op is not None:
            w.do(op, ctx)
            ctx.step()
        else:
            w.settle_all()
            ctx.state(w.key())
    ctx.check(not [h for h in hosts if w.hosts[h].out], 'model', 'harness: all acked')
    ctx.execution()
    ctx.outcome(w.key())


def shared_xml():
    if not _xml:
        _xml.append(MessageDotXML())
    return _xml[0]


class HostModel(object):
    def __init__(self, name):
        self.name = name
        self.last_id = 0
        self.gap = 0               # ids that a message that could not be encoded may have taken
        self.used = set()
        self.received = set()      # ids it ever sent us reliably
        self.owed = set()          # must still be acked
        self.optional = set()      # acked on another packet; may be acked once more
        self.out = {}              # id -> [decoded first transmission, retries left]
        self.settled = []          # ids that were outstanding and got acked
        self.next_in = 1 if name != 'C' else 100
        self.jumped = False
        self.last_reliable = None

    def key(self):
        return (self.name, self.last_id, tuple(sorted(self.owed)), tuple(sorted(self.optional)),
                tuple([(i, self.out[i][1]) for i in sorted(self.out)]), self.next_in)


class World(object):
    def __init__(self, active, settings=None, subscribe=('StartPingCheck',), handler=True, xml=None, hosts='ABC', base=None):
        self.active = active
        self.env = net.new_env()
        self.settings = settings or Settings()
        self.deliveries = []
        self.mh = MessageHandler(self.settings) if handler else None
        self.d = UDPDispatcher(settings=self.settings, message_handler=self.mh, message_xml=xml or shared_xml())
        if handler:
            for n in subscribe:
                self.mh.register(n).subscribe(self.deliver)
        self.hosts = dict([(n, HostModel(n)) for n in hosts])
        if base is not None:
            # ids of what arrives, when much arrived before
            for h in self.hosts.values():
                h.next_in += base
        self.by_addr = dict([(ADDR[n], self.hosts[n]) for n in hosts])
        self.n = 0
        self.shared = None
        self.shared_content = None
        self.failing = set()
        self.trace = []
        self.errors = []

    def deliver(self, m):
        self.deliveries.append((m.name, m.packet_id, m))
        if m.name == 'StartPingCheck' and m.blocks['PingID'][0]['PingID'] == BOOM:
            raise Boom()

    def expect(self, tag, cond, key, msg):
        if not cond and tag in self.active:
            raise Violation(key, msg)

    # ------------------------------------------------------------- inputs

    def host(self, n):
        return Host(ADDR[n])

    def content(self):
        """a message nobody sent before: (name, blocks for the reference)"""
        self.n += 1
        n = self.n
        if n % 3 == 1:
            return 'StartPingCheck', {'PingID': [{'PingID': n % 61, 'OldestUnacked': n}]}
        if n % 3 == 2:
            return 'ChatFromViewer', {'AgentData': [{'AgentID': chr(n % 256) * 16, 'SessionID': '\0' * 16}],
                                      'ChatData': [{'Message': 'chat %d' % n, 'Type': n % 256, 'Channel': -n}]}
        return 'TestMessage', {'TestBlock1': [{'Test1': n}],
                               'NeighborBlock': [{'Test0': n + i, 'Test1': n * 256, 'Test2': i} for i in range(4)]}

    def message(self, name, blocks):
        args = []
        for b in sorted(blocks):
            for inst in blocks[b]:
                kw = {}
                for k, v in inst.items():
                    kw[k] = UUID(bytes=v) if k in ('AgentID', 'SessionID') else v
                args.append(Block(b, **kw))
        return Message(name, *args)

    def same_content(self, x, name, blocks):
        if x.name != name:
            return False
        want = dict([(b, [dict([(k, v + '\0' if k == 'Message' else v) for k, v in i.items()]) for i in l]) for b, l in blocks.items()])
        return x.blocks == want

    def fails(self, data, addr):
        return [n for n in self.failing if ADDR[n] == addr] != []

    # ------------------------------------------------------------- operations

    def do(self, op, ctx=None):
        # much time passes before some operations, none before others
        if len(self.trace) % 3 == 1:
            clock.advance(clock.HOUR)
        self.trace.append(op)
        f = getattr(self, 'op_' + op[0])
        f(*op[1:])
        self.common()

    def op_send(self, h, reliable=None):
        name, blocks = self.content()
        self.send(h, self.message(name, blocks), name, blocks, reliable)

    def op_jump(self, h, base):
        """many ids later: only where the id to come can be set without sending that many packets"""
        self.op_send(h)
        hm = self.hosts[h]
        c = self.d.circuit_manager.get_circuit(self.host(h))
        if getattr(c, 'last_packet_out_id', None) != hm.last_id:
            return
        old = hm.last_id
        c.last_packet_out_id = base - 1
        self.env.take_attempts()
        self.d.send_message(self.message(*self.content()), self.host(h))
        att = self.env.take_attempts()
        self.expect('C07', len(att) == 1, 'not-one-datagram', 'sending one message to %s: %d datagrams' % (h, len(att)))
        if not att:
            return
        pid = refcodec.decode(DIC, att[0][0]).pid
        if pid != old + 1:
            self.expect('C07', pid == base, 'id-order', 'the id after %d is %d' % (base - 1, pid))
            hm.jumped = True
        hm.last_id = pid
        hm.used.add(pid)
        for i in list(self.by_addr[att[0][1]].owed):
            x = refcodec.decode(DIC, att[0][0])
            if att[0][2] and i in (x.acks or []):
                hm.owed.discard(i)
                hm.optional.add(i)

    def op_shared(self, h, reliable=None):
        """the same message object every time"""
        if self.shared is None:
            self.shared_content = self.content()
            self.shared = self.message(*self.shared_content)
        self.send(h, self.shared, self.shared_content[0], self.shared_content[1], reliable)

    def op_mutate(self):
        """the application changes its message object after sending it"""
        if self.shared is None:
            return
        name, blocks = self.shared_content
        new = self.content()
        while new[0] != name:
            new = self.content()
        m = self.message(*new)
        self.shared.blocks = m.blocks
        self.shared_content = new

    def send(self, h, m, name, blocks, reliable):
        host = self.host(h)
        self.env.take_attempts()
        if reliable is None:
            self.d.send_message(m, host)
        else:
            self.d.send_reliable(m, host, reliable)
        att = self.env.take_attempts()
        hm = self.hosts[h]
        self.expect('C11', len(att) == 1, 'not-one-datagram', 'sending one message to %s: %d datagrams' % (h, len(att)))
        for data, addr, ok in att:
            x = self.datagram(data, addr, ok, 'a message sent to %s' % h)
            if x is None:
                continue
            self.expect('C12', addr == ADDR[h], 'address', 'message for %s went to %r' % (h, addr))
            self.expect('C11', addr == ADDR[h], 'address', 'message for %s went to %r' % (h, addr))
            self.expect('C11', self.same_content(x, name, blocks), 'content', 'sent %s %r, on the wire %s %r' % (name, blocks, x.name, x.blocks))
            self.expect('C11', x.reliable == (reliable is not None), 'reliable-flag', 'reliable flag %s of a message sent %s' % (x.reliable, 'reliably' if reliable is not None else 'plainly'))
            self.expect('C11', not x.resent, 'resent-flag', 'resent flag on a first transmission')
            if reliable is not None:
                if ok or x.pid in self.real_out(h):
                    hm.out[x.pid] = [x, reliable]

    def op_bad(self, h, kind, reliable=None):
        host = self.host(h)
        if kind == 'unknown':
            m = Message('NoSuchMessage', Block('B', X=1))
        elif kind == 'block':
            m = Message('ChatFromViewer', Block('ChatData', Message='x', Type=1, Channel=1))
        elif kind == 'field':
            m = Message('StartPingCheck', Block('PingID', PingID=1))
        elif kind == 'single':
            m = Message('StartPingCheck', Block('PingID', PingID=1, OldestUnacked=2), Block('PingID', PingID=3, OldestUnacked=4))
        elif kind == 'multiple':
            m = Message('TestMessage', Block('TestBlock1', Test1=1), Block('NeighborBlock', Test0=1, Test1=2, Test2=3))
        elif kind == 'multiple5':
            m = Message('TestMessage', Block('TestBlock1', Test1=1), [Block('NeighborBlock', Test0=1, Test1=2, Test2=3) for i in range(5)])
        elif kind == 'refused':
            m = Message('EnableSimulator', Block('SimulatorInfo', Handle=1, IP='\1\2\3\4', Port=5))
        elif kind == 'unicode':
            m = Message('ChatFromViewer', Block('ChatData', Message=u'caf\xe9', Type=1, Channel=1), Block(u'caf\xe9', **{'\xe9': '\xff'}))
        elif kind == 'type':
            m = Message('StartPingCheck', Block('PingID', PingID='text', OldestUnacked=2))
        elif kind == 'nothing':
            m = Message('ChatFromViewer')
        self.env.take_attempts()
        before = sorted(self.real_out(h))
        try:
            if reliable is None:
                self.d.send_message(m, host)
            else:
                self.d.send_reliable(m, host, reliable)
        except Exception, e:
            self.errors.append(e.__class__.__name__)
        att = self.env.take_attempts()
        self.expect('C11', not att, 'bad-sent', 'a message that cannot be encoded (%s) put %s on the wire' % (kind, [hexs(a[0]) for a in att]))
        self.hosts[h].gap += 1
        after = sorted(self.real_out(h))
        for tag in ('C09', 'C11'):
            self.expect(tag, after == before, 'bad-outstanding', 'a message that cannot be encoded (%s) is waited for: %r, before %r' % (kind, after, before))
        for data, addr, ok in att:
            self.datagram(data, addr, ok, 'bad')

    def op_nohost(self, kind, reliable=None):
        """a message for a host without ip or port"""
        a = ADDR['A']
        host = Host([(None, a[1]), (a[0], None), (0, a[1]), (a[0], 0), (None, None)][kind])
        m = self.message(*self.content())
        self.env.take_attempts()
        try:
            if reliable is None:
                r = self.d.send_message(m, host)
            else:
                r = self.d.send_reliable(m, host, reliable)
        except Exception, e:
            self.errors.append(e.__class__.__name__)
            r = None
        att = self.env.take_attempts()
        self.expect('C11', not att and r is None, 'nowhere', 'a message for %s: returned %r, put %s on the wire' % (host, r, [(hexs(x[0]), x[1]) for x in att]))

    def select(self, h, sel):
        hm = self.hosts[h]
        ids = sorted(hm.out)
        r = []
        for s in sel:
            if s == 'oldest':
                r += ids[:1]
            elif s == 'newest':
                r += ids[-1:]
            elif s == 'all':
                r += ids
            elif s == 'foreign':
                # outstanding towards another host, not towards this one
                f = set()
                for o in self.hosts.values():
                    if o is not hm:
                        f.update(o.out)
                r += sorted(f - set(ids))[:1]
            elif s == 'done':
                r += hm.settled[-1:]
            elif s == 'next':
                r.append(hm.last_id + 1)
            elif s == 'bogus':
                r += [0, 0x7fffffff, 0xffffffff]
            else:
                r.append(s)
        return r

    def op_recv(self, h, kind, reliable=True, acks=None, resent=False):
        hm = self.hosts[h]
        pid = hm.next_in
        hm.next_in += 1
        self.receive(h, kind, pid, reliable, None if acks is None else self.select(h, acks), resent)

    def op_dup(self, h):
        """the last reliable packet comes again"""
        hm = self.hosts[h]
        if hm.last_reliable is not None:
            pid, kind, packet_acks = hm.last_reliable
            self.receive(h, kind, pid, True, None, True, packet_acks)

    def op_late(self, h, kind='unhandled', acks=None):
        """two packets arrive in the other order"""
        hm = self.hosts[h]
        pid = hm.next_in
        hm.next_in += 2
        self.receive(h, kind, pid + 1, True, None, False)
        self.receive(h, kind, pid, True, None if acks is None else self.select(h, acks), False)

    def op_burst(self, h, n, kind='unhandled'):
        for i in range(n):
            self.op_recv(h, kind)

    def encode_in(self, kind, pid, flags, acks, packet_acks=()):
        zero = kind == 'zero'
        if kind in ('handled', 'zero'):
            return refcodec.encode(DIC.by_name['StartPingCheck'], {'PingID': [{'PingID': 0, 'OldestUnacked': pid}]}, flags, pid, acks, zerocoded=zero)
        if kind == 'raising':
            return refcodec.encode(DIC.by_name['StartPingCheck'], {'PingID': [{'PingID': BOOM, 'OldestUnacked': pid}]}, flags, pid, acks)
        if kind == 'unhandled':
            return refcodec.encode(DIC.by_name['TestMessage'], {'TestBlock1': [{'Test1': pid}], 'NeighborBlock': [{'Test0': 1, 'Test1': 2, 'Test2': 3}] * 4}, flags, pid, acks)
        if kind == 'refused':
            return refcodec.encode(DIC.by_name['EnableSimulator'], {'SimulatorInfo': [{'Handle': 1, 'IP': 'abcd', 'Port': 3}]}, flags, pid, acks)
        if kind == 'packetack':
            return refcodec.encode(DIC.by_name['PacketAck'], {'Packets': [{'ID': i} for i in packet_acks]}, flags, pid, acks)
        if kind == 'packetack-zero':
            return refcodec.encode(DIC.by_name['PacketAck'], {'Packets': [{'ID': i} for i in packet_acks]}, flags, pid, acks, zerocoded=True)
        # unknown to the template
        return refcodec.header(flags | (0x10 if acks is not None else 0), pid) + '\xff\xff\xee\xee\x01\x02\x03' + (refcodec.acks_tail(acks) if acks is not None else '')

    def op_pa(self, h, sel, reliable=False, kind='packetack', acks=None):
        hm = self.hosts[h]
        ids = self.select(h, sel)
        if not ids:
            return
        pid = hm.next_in
        hm.next_in += 1
        self.receive(h, kind, pid, reliable, None if acks is None else self.select(h, acks), False, ids)

    def receive(self, h, kind, pid, reliable, acks, resent, packet_acks=()):
        hm = self.hosts[h]
        flags = (0x40 if reliable else 0) | (0x20 if resent else 0)
        data = self.encode_in(kind, pid, flags, acks, packet_acks)
        self.env.take_attempts()
        n = len(self.deliveries)
        self.env.inbox.append((data, ADDR[h]))
        buf, size = self.d.udp_client.receive_packet(self.d.socket)
        try:
            self.result = self.d.receive_check(self.d.udp_client.get_sender(), buf, size)
        except Boom:
            # what a subscriber does to a message is no business of its sender
            self.result = None
            self.errors.append('Boom')
        self.delivered = self.deliveries[n:]
        for data, addr, ok in self.env.take_attempts():
            self.datagram(data, addr, ok, 'receiving')
        if reliable:
            hm.received.add(pid)
            hm.owed.add(pid)
            hm.last_reliable = (pid, kind, packet_acks)
        for i in list(acks or []) + list(packet_acks):
            if i in hm.out:
                del hm.out[i]
                hm.settled.append(i)

    def op_fail(self, n=1):
        self.env.fail_sends += n

    def op_failhost(self, h):
        if h in self.failing:
            self.failing.discard(h)
        else:
            self.failing.add(h)
        self.env.fail_when = self.fails if self.failing else None

    def op_process(self):
        due = dict([(n, set([i for i in hm.out if hm.out[i][1] > 0])) for n, hm in self.hosts.items()])
        self.env.take_attempts()
        self.d.process_acks()
        att = self.env.take_attempts()
        failed = set()
        seen = set()
        for data, addr, ok in att:
            x = self.datagram(data, addr, ok, 'ack processing', due, seen)
            if not ok:
                failed.add(addr)
        for n, hm in self.hosts.items():
            for i in sorted(due[n]):
                self.expect('C10', (n, i) in seen, 'not-resent', 'packet %d to %s has %d retries left, but was not resent by ack processing' % (i, n, hm.out[i][1]))
                hm.out[i][1] -= 1
            if ADDR[n] not in failed:
                self.expect('C08', not hm.owed, 'not-acked', 'after ack processing, %s has still not been sent acks of %s' % (n, sorted(hm.owed)[:10]))
                hm.optional.clear()
        self.last_failed = failed

    # ------------------------------------------------------------- outputs

    def datagram(self, data, addr, ok, what, due=None, seen=None):
        """one datagram was handed to the socket; returns it decoded"""
        hm = self.by_addr.get(addr)
        if hm is None:
            self.expect('C12', False, 'address', '%s: datagram to %r, which is no host of ours' % (what, addr))
            return None
        try:
            x = refcodec.decode(DIC, data)
        except (refcodec.RefError, TypeError, IndexError), e:
            self.expect('C11', False, 'undecodable', '%s: datagram %s does not decode: %s' % (what, hexs(data) if isinstance(data, str) else data, e))
            return None
        self.expect('C11', x.rest == '', 'rest', '%s: %d bytes left over in %s' % (what, len(x.rest), hexs(data)))
        self.expect('C11', x.acks is None or len(x.acks) > 0, 'ack-flag', '%s: ack flag without acks' % what)
        resend = x.resent
        if resend:
            self.expect('C10', due is not None, 'resent-out-of-turn', '%s: packet %d resent outside ack processing' % (what, x.pid))
            if due is not None:
                self.expect('C10', x.pid in due[hm.name], 'resent-wrongly', '%s: packet %d resent to %s; to be resent: %s' % (what, x.pid, hm.name, sorted(due[hm.name])))
                self.expect('C10', (hm.name, x.pid) not in seen, 'resent-twice', 'packet %d resent twice in one round' % x.pid)
                seen.add((hm.name, x.pid))
                if x.pid in hm.out:
                    first = hm.out[x.pid][0]
                    self.expect('C10', x.name == first.name and x.body == first.body and x.reliable == first.reliable and x.extra == first.extra, 'resent-differs',
                                'packet %d was sent as %s %s and resent as %s %s' % (x.pid, first.name, hexs(first.body), x.name, hexs(x.body)))
            self.expect('C07', x.pid in hm.used and x.pid in hm.out, 'resent-id', '%s: packet %d resent to %s, which is not waited for' % (what, x.pid, hm.name))
        else:
            if due is not None:
                self.expect('C10', x.name == 'PacketAck', 'unexpected', 'ack processing sent %s without the resent flag' % x.name)
                self.expect('C11', x.name == 'PacketAck' and not x.reliable, 'unexpected', 'ack processing sent %s' % x.name)
            else:
                self.expect('C11', x.name != 'PacketAck', 'unexpected', '%s: PacketAck sent' % what)
            self.expect('C07', x.pid not in hm.used, 'id-reused', '%s: id %d to %s was used before' % (what, x.pid, hm.name))
            self.expect('C07', hm.last_id < x.pid <= hm.last_id + 1 + hm.gap, 'id-order', '%s: id %d to %s after %d' % (what, x.pid, hm.name, hm.last_id))
            hm.used.add(x.pid)
            hm.last_id = max(hm.last_id, x.pid)
            hm.gap = 0
        # acks it carries
        ids = list(x.acks or [])
        wrong = [i for i in ids if i not in hm.received]
        self.expect('C08', not wrong, 'false-ack', '%s: %s is told that %s were received' % (what, hm.name, wrong[:5]))
        if x.acks and not resend:
            again = [i for i in ids if i not in hm.owed and i not in hm.optional]
            self.expect('C08', not again, 'acked-again', '%s: %s were acked to %s before' % (what, again[:5], hm.name))
        if x.name == 'PacketAck' and due is not None:
            pids = [b['ID'] for b in x.blocks['Packets']]
            wrong = [i for i in pids if i not in hm.received]
            self.expect('C08', not wrong, 'false-ack', '%s: %s is told that %s were received' % (what, hm.name, wrong[:5]))
            again = [i for i in pids if i not in hm.owed and i not in hm.optional]
            self.expect('C08', not again, 'acked-again', '%s: %s were acked to %s before' % (what, again[:5], hm.name))
            self.expect('C11', len(pids) > 0, 'empty-ack', 'a PacketAck without ids')
            if ok:
                hm.owed.difference_update(pids)
                hm.optional.difference_update(pids)
        if ok:
            for i in ids:
                if i in hm.owed:
                    hm.owed.discard(i)
                    hm.optional.add(i)
        return x

    def real_out(self, h):
        c = self.d.circuit_manager.get_circuit(self.host(h))
        if c is None:
            return {}
        r = dict(c.unacked_packets)
        r.update(c.final_retry_packets)
        return r

    def common(self):
        """holds after every operation"""
        if self.quiet:
            # many hosts: those the operation was about, all of them every now and then
            names = [n for n in self.trace[-1][1:2] if n in self.hosts]
            self.outstanding(names)
            return
        self.outstanding(self.hosts)
        self.owing()

    quiet = False

    def settle_all(self):
        self.outstanding(self.hosts)
        self.owing()

    def outstanding(self, names):
        for n in names:
            hm = self.hosts[n]
            if 'C09' in self.active:
                got = sorted(self.real_out(n))
                want = sorted(hm.out)
                self.expect('C09', got == want, 'outstanding', 'outstanding towards %s: %s instead of %s' % (n, got, want))
                c = self.d.circuit_manager.get_circuit(self.host(n))
                if c is not None:
                    self.expect('C09', c.unack_packet_count == len(c.unacked_packets) and c.final_packet_count == len(c.final_retry_packets), 'count',
                                'counts %d and %d of %d and %d outstanding packets' % (c.unack_packet_count, c.final_packet_count, len(c.unacked_packets), len(c.final_retry_packets)))

    def owing(self):
        owed = [n for n in self.hosts if self.hosts[n].owed]
        maybe = [n for n in self.hosts if self.hosts[n].optional]
        if 'C08' in self.active:
            got = bool(self.d.has_unacked())
            if owed:
                self.expect('C08', got, 'has-unacked', 'acks are owed to %s, but has_unacked() is false' % owed)
            elif not maybe:
                self.expect('C08', not got, 'has-unacked', 'no acks are owed, but has_unacked() is true')

    def check(self, ctx):
        pass

    def key(self):
        return repr((sorted([hm.key() for hm in self.hosts.values()]), self.env.fail_sends, sorted(self.failing), self.shared_content and self.n))

    def finish(self, ctx):
        """whatever happened: sending works again, and everything owed goes out"""
        self.env.fail_sends = 0
        self.failing.clear()
        self.env.fail_when = None
        for op in self.closing or self.default_closing():
            self.do(op, ctx)

    closing = None

    def default_closing(self):
        r = [('process',)] * 5
        for n in sorted(self.hosts):
            r += [('send', n), ('send', n, 1)]
        return r + [('process',)] * 2
