"""C02: serialized bytes against the independent encoder, and independently
encoded datagrams against the deserializer."""
from mc import repo, refcodec
from mc.core import Violation, hexs
import codec
import checks_c01
from checks_c01 import world, IDS, FLAGS

DECODE_IDS = IDS + [0, 0x80000000, 0xffffffff, 0xdeadbeef]


def cases(tier):
    for c in checks_c01.cases(tier):
        yield c


def both(ser, des, t, blocks, label, ctx, flags=0, pid=1, shape=0, dpid=None):
    plain = codec.plain_blocks(t, blocks)
    m = codec.to_message(t, blocks, shape)
    m.send_flags = flags
    m.packet_id = pid
    data = ser.serialize(m)
    want = refcodec.encode(t, plain, flags, pid)
    if t.name == 'RegionHandshakeReply':
        want += '\0\0\0\0'
    if data != want:
        i = 0
        while isinstance(data, str) and i < len(data) and i < len(want) and data[i] == want[i]:
            i += 1
        raise Violation('bytes', '%s (%s): differs from byte %d: %s instead of %s' % (
            t.name, label, i, hexs(data[max(0, i - 4):i + 12]) if isinstance(data, str) else repr(data), hexs(want[max(0, i - 4):i + 12])))
    ctx.step()
    ctx.state(data)
    if dpid is None:
        dpid = pid
    foreign = refcodec.encode(t, plain, flags, dpid)
    p = des.deserialize(foreign)
    codec.compare(t, plain, p, 'decoding (%s)' % label, ctx)
    ctx.check(p.packet_id == dpid, 'packet-id', '%s: packet id %r instead of %r' % (t.name, p.packet_id, dpid))
    ctx.check(bool(p.reliable) == bool(flags & 0x40), 'reliable', '%s with flags %02x: reliable is %r' % (t.name, flags, p.reliable))
    ctx.step()
    ctx.execution()
    ctx.outcome(data)
    if ctx.executions % 5003 == 7:
        ctx.sample('%s %s -> %s' % (t.name, label, hexs(data)[:120]))


def decode_only(des, t, blocks, label, ctx):
    """Variable fields without any terminator, or with bytes a sender of strings would not produce"""
    foreign = refcodec.encode(t, blocks, 0, 9, raw=True)
    p = des.deserialize(foreign)
    codec.compare(t, blocks, p, 'decoding (%s)' % label, ctx)
    ctx.step()
    ctx.execution()


def run(case, ctx):
    saved = checks_c01.round_trip
    n = [0]

    def hook(ser, des, t, blocks, label, ctx, flags=0, pid=1, shape=0):
        n[0] += 1
        both(ser, des, t, blocks, label, ctx, flags, pid, shape, DECODE_IDS[n[0] % len(DECODE_IDS)])
    checks_c01.round_trip = hook
    try:
        checks_c01.run(case, ctx)
    finally:
        checks_c01.round_trip = saved
    if 'name' in case and case['name'] != 'all-counts' and not case.get('pairs'):
        ser, des, dic = world(case['kind'])
        t = dic.by_name[case['name']]
        for b in t.blocks:
            for v in b.vars:
                if v.type == 'Variable':
                    for x in ['', 'a', '\0', 'ab', 'a\0', '\0\0\0', 'q' * 255, ''.join([chr(255 - i) for i in range(255)])]:
                        blocks = codec.plain_blocks(t, codec.fill(t))
                        blocks[b.name][-1][v.name] = x
                        decode_only(des, t, blocks, 'raw %r' % x[:20], ctx)
