"""C01: serialize, then deserialize, for every message and field of the template
and of a template with every type x block kind."""
from mc import repo, refcodec
from mc.core import Violation
import codec
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.settings import Settings

IDS = [1, 2, 127, 128, 255, 256, 65535, 65536, 0xffffff, 0x1000000, 0x01020304, 0x7fffffff]
FLAGS = [0, 0x40, 0x20, 0x60]
_w = {}
COUNTED = (('PacketAck', 'Packets'), ('CoarseLocationUpdate', 'Location'), ('ObjectUpdate', 'ObjectData'))


def world(kind):
    if kind not in _w:
        s = Settings()
        s.ENABLE_DEFERRED_PACKET_PARSING = False
        if kind == 'embedded':
            w = (UDPMessageSerializer(), UDPMessageDeserializer(settings=s), repo.full())
        else:
            ts = codec.grid_template()
            p = repo.template_file(codec.template_text(ts), 'grid.msg')
            w = (UDPMessageSerializer(message_template=open(p)), UDPMessageDeserializer(settings=s, message_template=open(p)),
                 refcodec.Dictionary(ts))
        _w[kind] = w
    return _w[kind]


def cases(tier):
    ts = [t for t in repo.full().templates if codec.udp_allowed(t.name)]
    for name, block in COUNTED:
        if block != 'ObjectData' or tier == 'thorough':
            for lo in range(0, 256, 64):
                yield {'kind': 'embedded', 'name': 'all-counts', 'of': name, 'block': block, 'lo': lo}
    yield {'kind': 'envelope'}
    for t in ts:
        yield {'kind': 'embedded', 'name': t.name}
    for t in codec.grid_template():
        yield {'kind': 'grid', 'name': t.name}
    if tier == 'thorough':
        for t in ts + codec.grid_template():
            yield {'kind': 'embedded' if t in ts else 'grid', 'name': t.name, 'pairs': 1}


def round_trip(ser, des, t, blocks, label, ctx, flags=0, pid=1, shape=0):
    m = codec.to_message(t, blocks, shape)
    m.send_flags = flags
    m.packet_id = pid
    data = ser.serialize(m)
    ctx.check(isinstance(data, str), 'not-encoded', '%s (%s): serialize gave %r' % (t.name, label, data))
    ctx.step()
    ctx.state(data)
    p = des.deserialize(data)
    codec.compare(t, codec.plain_blocks(t, blocks), p, 'round trip (%s)' % label, ctx)
    ctx.check(p.packet_id == pid, 'packet-id', '%s: packet id %r instead of %r' % (t.name, p.packet_id, pid))
    ctx.check(bool(p.reliable) == bool(flags & 0x40), 'reliable', '%s with flags %02x: reliable is %r' % (t.name, flags, p.reliable))
    ctx.step()
    ctx.execution()
    ctx.outcome(data)
    if ctx.executions % 5003 == 7:
        ctx.sample('%s %s -> %d bytes' % (t.name, label, len(data)))


def run(case, ctx):
    if case['kind'] == 'envelope':
        ser, des, dic = world('embedded')
        for name in ['PacketAck', 'UseCircuitCode', 'ChatFromViewer', 'StartPingCheck', 'CoarseLocationUpdate', 'CloseCircuit', 'RegionHandshakeReply', 'ImageData']:
            t = dic.by_name[name]
            for pid in IDS:
                for f in FLAGS:
                    for shape in (0, 1, 2):
                        round_trip(ser, des, t, codec.fill(t), 'id %d flags %02x' % (pid, f), ctx, f, pid, shape)
        return
    ser, des, dic = world(case['kind'])
    if case['name'] == 'all-counts':
        t = dic.by_name[case['of']]
        for n in range(max(1, case['lo']), case['lo'] + 64):
            round_trip(ser, des, t, codec.fill(t, {case['block']: n}), '%d blocks' % n, ctx)
        return
    t = dic.by_name[case['name']]
    if case.get('pairs'):
        fields = [(b.name, v) for b in t.blocks for v in b.vars]
        if len(fields) > 12:
            fields = fields[:6] + fields[-6:]
        for i in range(len(fields)):
            for j in range(i + 1, len(fields)):
                for x in codec.values(fields[i][1])[:12]:
                    for y in codec.values(fields[j][1])[:12]:
                        blocks = codec.fill(t)
                        blocks[fields[i][0]][-1][fields[i][1].name] = x
                        blocks[fields[j][0]][-1][fields[j][1].name] = y
                        round_trip(ser, des, t, blocks, 'pair', ctx)
        return
    i = 0
    for label, blocks in codec.variations(t):
        if codec.empty(t, blocks):
            continue
        round_trip(ser, des, t, blocks, label, ctx, FLAGS[i % 4], IDS[i % len(IDS)], i % 3)
        i += 1
    if case['kind'] == 'grid':
        for b in t.blocks:
            for v in b.vars:
                if v.type == 'Variable':
                    for x in codec.values(v, True):
                        blocks = codec.fill(t)
                        blocks[b.name][-1][v.name] = x
                        round_trip(ser, des, t, blocks, 'big', ctx)
                if v.type in ('U8', 'S8', 'BOOL') and t.name.startswith('T'):
                    for x in {'U8': range(256), 'S8': range(-128, 128), 'BOOL': [0, 1]}[v.type]:
                        blocks = codec.fill(t)
                        blocks[b.name][-1][v.name] = x
                        round_trip(ser, des, t, blocks, 'all', ctx)
