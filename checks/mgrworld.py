"""A MessageManager with its UDP connection and event queue as tasks of the
controlled scheduler; sends and receives are scheduling points."""
import socket
from mc import net, refcodec, sched, clock
from mc.core import Violation, hexs
from eqworld import *
from pyogp.lib.base.message_manager import MessageManager
from pyogp.lib.base.message.message import Message, Block

memoize()
A = Host(('10.0.0.1', 1000))
B = Host(('10.0.0.1', 2000))


class Env(net.Env):
    """what arrives is prepared; failures are choices of the explorer"""

    def __init__(self):
        net.Env.__init__(self)
        self.points = True
        self.choices = False          # may sends and receives fail?
        self.on_send = None
        self.received = []            # items taken from the inbox
        self.sending = False

    def send(self, data, addr):
        self.sending = True
        ok = True
        if self.choices:
            ok = sched.choose('send', 2) == 0
        if self.on_send is not None:
            self.on_send(data, addr, ok)
        self.attempt_log.append((data, addr, ok))
        sched.point(('sendto',))
        self.sending = False
        if not ok:
            raise socket.error(101, 'Network is unreachable')
        return len(data)

    def recv(self):
        self.recv_calls += 1
        sched.point(('recvfrom', self.recv_calls))
        if self.choices:
            c = sched.choose('recv', 3)
            if c == 1:
                clock.advance(clock.HOUR)
                raise socket.timeout('timed out')
            if c == 2:
                raise socket.error(104, 'Connection reset')
        if not self.inbox:
            clock.advance(60)
            raise socket.timeout('timed out')
        item = self.inbox.pop(0)
        self.received.append(item)
        return item[1], item[2]


def datagram(kind, pid, serial):
    """what the network brings: (kind, bytes, address, reliable id or None, delivered serial or None)"""
    addr = (A.ip, A.port)
    if kind == 'other-host':
        addr = (B.ip, B.port)
    ping = lambda flags, acks=None, zero=False: refcodec.encode(DIC.by_name['StartPingCheck'], {'PingID': [{'PingID': 0, 'OldestUnacked': serial}]}, flags, pid, acks, zerocoded=zero)
    if kind.startswith('big'):
        text = ''.join([chr(65 + i % 57) for i in range(int(kind[3:]))])
        return kind, refcodec.encode(DIC.by_name['ChatFromViewer'], {'AgentData': [{'AgentID': 'a' * 16, 'SessionID': 's' * 16}], 'ChatData': [{'Message': text, 'Type': 1, 'Channel': serial}]}, 0x40, pid, [77]), addr, pid, serial
    if kind == 'plain':
        return kind, ping(0), addr, None, serial
    if kind in ('reliable', 'other-host'):
        return kind, ping(0x40, [77]), addr, pid, serial
    if kind == 'zero':
        return kind, ping(0x40, None, True), addr, pid, serial
    if kind == 'raising':
        return kind, refcodec.encode(DIC.by_name['TestMessage'], {'TestBlock1': [{'Test1': serial}], 'NeighborBlock': [{'Test0': 1, 'Test1': 2, 'Test2': 3}] * 4}, 0x40, pid), addr, pid, serial
    if kind == 'malformed':
        return kind, ping(0)[:7], addr, None, None
    if kind == 'cut':
        return kind, ping(0x40)[:-2], addr, pid, None
    if kind == 'short':
        return kind, '\x40\0', addr, None, None
    if kind == 'unknown':
        return kind, refcodec.header(0x40, pid) + '\xff\xff\xee\xee\x01\x02\x03', addr, pid, None
    if kind == 'unhandled':
        return kind, refcodec.encode(DIC.by_name['ChatFromViewer'], {'AgentData': [{'AgentID': 'a' * 16, 'SessionID': 's' * 16}], 'ChatData': [{'Message': 'x', 'Type': 1, 'Channel': 2}]}, 0x40, pid), addr, pid, None
    raise KeyError(kind)


def inbox(kinds):
    return [datagram(k, 100 + i, 1000 + i) for i, k in enumerate(kinds)]


def ping(serial):
    return Message('StartPingCheck', Block('PingID', PingID=1, OldestUnacked=serial))


def no_message(kind, serial):
    """cannot be encoded"""
    if kind == 'bad-block':
        return Message('ChatFromViewer', Block('ChatData', Message='x', Type=1, Channel=1))
    if kind == 'bad-name':
        return Message('NoSuchMessage', Block('X', Y=serial))
    if kind == 'bad-callable':
        def make():
            raise ValueError('cannot make the message')
        return make
    return Message('EnableSimulator', Block('SimulatorInfo', Handle=1, IP='\1\2\3\4', Port=5))


def serial_of(data):
    x = refcodec.decode(DIC, data)
    if x.rest:
        raise Violation('rest', 'bytes left over in %s' % hexs(data))
    return x


class Chooser(sched.Chooser):
    pass
