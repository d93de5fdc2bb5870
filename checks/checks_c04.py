"""C04: damaged and hostile datagrams, each followed by a good one."""
import itertools
from mc import repo, refcodec, net
from mc.core import Violation, hexs
import codec
import checks_c03
from pyogp.lib.base import exc
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings

NAMES = ['PacketAck', 'StartPingCheck', 'ChatFromSimulator', 'UseCircuitCode', 'CoarseLocationUpdate', 'AgentUpdate',
         'ImageData', 'NeighborList', 'CloseCircuit', 'RegionHandshake', 'ObjectUpdate', 'SoundTrigger']
MODES = ['all-subscribed', 'none-subscribed', 'parse-all']
HOST = Host(('10.0.0.1', 1000))
_base = []


def base():
    """small template: some real messages, and one with every type"""
    if not _base:
        ts = [repo.full().by_name[n] for n in NAMES]
        t = refcodec.Template('Everything', 'Medium', 200, 'NotTrusted', 'Unencoded', 'NotDeprecated')
        for kind in ('Single', 'Multiple', 'Variable'):
            b = refcodec.Block('Blk' + kind, kind, 2 if kind == 'Multiple' else 0)
            for ty in refcodec.TYPE_ORDER:
                for sz in ({'Fixed': [3], 'Variable': [1, 2, 4]}.get(ty, [None])):
                    b.vars.append(refcodec.Var('%s%s' % (ty, sz or ''), ty, sz or refcodec.FIXED_SIZES[ty]))
            t.blocks.append(b)
        ts.append(t)
        ts += checks_c03.zero_template()[:6] + checks_c03.zero_template()[-11:]
        # the template has High 1 already used by other messages
        used = {}
        out = []
        for t in ts:
            if t.number_bytes() not in used:
                used[t.number_bytes()] = 1
                out.append(t)
        _base.append(out)
    return _base[0]


class World(object):
    def __init__(self, mode):
        self.mode = mode
        net.new_env()
        s = Settings()
        s.ENABLE_DEFERRED_PACKET_PARSING = mode != 'parse-all'
        self.ts = base()
        self.dic = refcodec.Dictionary(self.ts)
        self.mh = MessageHandler(s)
        self.log = []
        f = open(repo.template_file(codec.template_text(self.ts), 'c04.msg'))
        self.d = UDPDispatcher(settings=s, message_handler=self.mh, message_template=f)
        if mode == 'all-subscribed':
            for t in self.ts:
                self.mh.register(t.name).subscribe(self.log.append)
        else:
            self.mh.register(self.ts[2].name).subscribe(self.log.append)
        self.subscribed = [t.name for t in self.ts] if mode == 'all-subscribed' else [self.ts[2].name]
        self.n = 0

    def receive(self, data, ctx):
        del self.log[:]
        try:
            p = self.d.receive_check(HOST, data, len(data))
            how = 'message' if p is not None else 'ignored'
        except exc.MessageDeserializationError:
            p, how = None, 'rejected'
        ctx.step()
        ctx.execution()
        try:
            ref = refcodec.decode(self.dic, data)
            bad = None
        except refcodec.RefError, e:
            ref, bad = None, str(e)
        if p is not None:
            if bad is not None and bad.startswith('zero run'):
                pass
            else:
                ctx.check(ref is not None, 'made-up', '%s delivered, but the datagram is not valid: %s' % (p.name, bad))
                codec.compare(ref.template, ref.blocks, p, 'datagram', ctx, strip=True)
                ctx.check(p.packet_id == ref.pid, 'packet-id', 'packet id')
                ctx.check(list(p.acks) == (ref.acks or []), 'acks', 'acks %r instead of %r' % (p.acks, ref.acks))
            want = [p] if p.name in self.subscribed else []
        else:
            want = []
        ctx.check(len(self.log) == len(want) and not [1 for a, b in zip(self.log, want) if a is not b], 'delivered',
                  'outcome %s, but %d deliveries: %s' % (how, len(self.log), [m.name for m in self.log]))
        ctx.outcome((how, p is not None and p.name))
        ctx.note(how)
        return p, how

    def attack(self, data, ctx):
        ctx.state(data)
        ctx.case = dict(k='one', mode=self.mode, data=data)
        if len(ctx.samples) < 3 and ctx.executions % 3001 == 2:
            ctx.sample(hexs(data)[:200])
        self.receive(data, ctx)
        self.good(ctx)

    def good(self, ctx):
        self.n += 1
        i = self.n % 3
        t = self.ts[2]
        blocks = codec.plain_blocks(t, codec.fill(t, start=self.n % 50))
        data = refcodec.encode(t, blocks, [0, 0x40, 0][i], 1000 + self.n, [None, [3], None][i], ['', '', 'ab'][i], i == 2)
        del self.log[:]
        p = self.d.receive_check(HOST, data, len(data))
        codec.compare(t, blocks, p, 'good datagram afterwards', ctx)
        ctx.check(len(self.log) == 1 and self.log[0] is p, 'good-delivered', 'the good datagram afterwards was delivered %d times' % len(self.log))
        ctx.check(p.packet_id == 1000 + self.n and bool(p.reliable) == (i == 1) and list(p.acks) == ([3] if i == 1 else []), 'good-header',
                  'the good datagram afterwards has id %r, reliable %r, acks %r' % (p.packet_id, p.reliable, p.acks))
        if self.n % 50 == 0:
            self.d.process_acks()
            net.ENV[0].take()


_w = {}


def world(mode):
    if mode not in _w:
        _w[mode] = World(mode)
    return _w[mode]


ENVELOPES = [(0, None, '', False), (0x40, [1, 2], '', False), (0, None, 'xy', True), (0x60, [0x01020304], '\0\0\0', True)]


def valid(t):
    blocks = codec.plain_blocks(t, codec.fill(t, dict([(b.name, 2) for b in t.blocks if b.kind == 'Variable'])))
    for b in t.blocks:
        for inst in blocks[b.name]:
            for v in b.vars:
                if v.type == 'Fixed' and v.size > 8:
                    inst[v.name] = 'f' * v.size
    return [refcodec.encode(t, blocks, f, 7, a, e, z) for f, a, e, z in ENVELOPES]


def cases(tier):
    for mode in MODES:
        for t in base():
            for i in range(len(ENVELOPES)):
                for what in ('cut', 'extend', 'corrupt'):
                    if tier == 'quick' and (mode, i) in ((MODES[1], 0), (MODES[1], 2), (MODES[2], 1), (MODES[2], 2), (MODES[2], 3)):
                        continue
                    yield {'k': what, 'mode': mode, 'name': t.name, 'e': i}
        for n in range(0, (7 if mode == MODES[0] else 6) if tier == 'quick' else 8):
            yield {'k': 'short', 'mode': mode, 'n': n}
        for flags in SHORT_FLAGS:
            for extra in (0, 1, 2, 3, 255):
                for n in range(0, 6 if tier == 'quick' else 7):
                    if mode == MODES[0] and extra in (0, 2) or n < 4 or tier != 'quick':
                        yield {'k': 'body', 'mode': mode, 'flags': flags, 'extra': extra, 'n': n}
    for t in repo.full().templates:
        yield {'k': 'embedded', 'name': t.name}


SHORT_FLAGS = [0, 0x10, 0x80, 0x90, 0x40, 0x50, 0xff]
_des = []


def embedded(case, ctx):
    """every real message: cut at every length, against the deserializer"""
    if not _des:
        s = Settings()
        s.ENABLE_DEFERRED_PACKET_PARSING = False
        _des.append(UDPMessageDeserializer(settings=s))
    des = _des[0]
    t = repo.full().by_name[case['name']]
    if not codec.udp_allowed(t.name):
        return
    for i, data in enumerate(valid(t)[:2]):
        for n in range(len(data) + 1):
            # (quick: cut after the plain one, cut and extended after the one with acks)
            for d in ((data[:n],), (data[:n], data[:n] + '\x02', data[:n] + '\xff\xff'))[ctx.thorough or (i and n % 2)]:
                ctx.step()
                ctx.execution()
                ctx.state(d)
                try:
                    p = des.deserialize(d)
                except exc.MessageDeserializationError:
                    ctx.note('rejected')
                    continue
                if p is None:
                    ctx.note('ignored')
                    continue
                ctx.note('message')
                try:
                    ref = refcodec.decode(repo.full(), d)
                except refcodec.RefError, e:
                    raise Violation('made-up', '%s delivered, but %s is not valid: %s' % (p.name, hexs(d), e))
                codec.compare(ref.template, ref.blocks, p, 'cut or extended', ctx)


def run(case, ctx):
    k = case['k']
    n0 = ctx.executions
    try:
        run2(case, ctx, k)
    finally:
        ctx.note('by ' + k + ' ' + case.get('mode', ''), ctx.executions - n0)


def run2(case, ctx, k):
    if k == 'embedded':
        embedded(case, ctx)
        return
    if k == 'one':
        World(case['mode']).attack(case['data'], ctx)
        return
    w = world(case['mode'])
    if k in ('cut', 'extend', 'corrupt'):
        data = valid(w.dic.by_name[case['name']])[case['e']]
        if k == 'cut':
            for n in range(len(data)):
                w.attack(data[:n], ctx)
                w.attack(data[n:], ctx)
            for n in range(6, len(data)):
                w.attack(data[:n] + data[n + 1:], ctx)
        elif k == 'extend':
            for x in ('\0', '\x02', '\xff') if ctx.thorough or case['mode'] == MODES[0] else ('\0', '\xff'):
                for n in (1, 2, 3, 4, 5, 9, 100, 255, 256):
                    w.attack(data + x * n, ctx)
                for n in range(len(data)):
                    w.attack(data[:n] + x + data[n:], ctx)
        else:
            everything = ctx.thorough
            for n in range(len(data)):
                if not everything and case['e'] in (0, 2) and 24 <= n < len(data) - 6:
                    continue
                c = ord(data[n])
                if everything or n in (0, 5) or (len(data) < 60 and 6 <= n < 10 and case['mode'] == MODES[0]):
                    vals = range(256)
                elif n < 24:
                    vals = sorted(set([0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, c ^ 1, c ^ 0x80, (c + 1) % 256, (c - 1) % 256, c ^ 0xff]))
                else:
                    vals = sorted(set([0, 0xff, c ^ 1, (c + 1) % 256, c ^ 0x80])) if len(data) < 200 else sorted(set([0, 0xff, c ^ 1]))
                for x in vals:
                    if x != c:
                        w.attack(data[:n] + chr(x) + data[n + 1:], ctx)
    elif k == 'short':
        for s in itertools.product('\0\x10\x80\xff\x05', repeat=case['n']):
            w.attack(''.join(s), ctx)
    elif k == 'body':
        head = chr(case['flags']) + '\0\0\0\x09' + chr(case['extra'])
        chars = '\0\x01\xff\xfb\x02'
        for s in itertools.product(chars, repeat=case['n']):
            w.attack(head + ''.join(s), ctx)
