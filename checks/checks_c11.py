"""C11: every datagram is complete and is the message given."""
from mc import seq, repo, refcodec, net
from mc.core import hexs
import udpworld
from udpworld import World
import codec
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.message.message import Message
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.settings import Settings

BAD = ['unknown', 'block', 'field', 'single', 'multiple', 'multiple5', 'refused', 'type', 'nothing', 'unicode']
OPS = [('send', 'A'), ('send', 'A', 1), ('shared', 'A', 1), ('shared', 'B'), ('recv', 'A', 'handled'), ('recv', 'B', 'unhandled'), ('recv', 'A', 'unknown'),
       ('process',), ('bad', 'A', 'block', 1), ('bad', 'B', 'unknown'), ('fail', 1)]
MORE = OPS + [('bad', 'A', k, r) for k in BAD for r in (None, 2)] + [('mutate',), ('send', 'B', 0), ('failhost', 'A')] + [('nohost', 0, 1), ('nohost', 3)]
BURSTS = MORE + [('burst', 'A', 255), ('burst', 'A', 256), ('burst', 'B', 511)]
CLOSING = [('shared', 'A'), ('send', 'A', 0), ('send', 'B'), ('process',), ('send', 'A'), ('process',)]


def make():
    w = World(['C11'])
    w.closing = CLOSING
    return w


PART = 6
_full = []


def cases(tier):
    for lo in range(0, len(repo.full().templates), PART):
        yield {'messages': lo}
    for n in range(0, 520):
        if n < 3 or 249 < n < 258 or n in (100, 499, 500, 501, 509, 510, 511) or tier != 'quick':
            yield {'owed': n}
    for c in seq.cases(len(OPS), 4, 2, 'q'):
        yield c
    for c in seq.cases(len(MORE), 3, 2, 'm'):
        yield c
    for c in seq.cases(len(BURSTS), 2, 1, 'b'):
        yield c
    if tier != 'quick':
        for c in seq.cases(len(OPS), 5, 3, 'q'):
            yield c
        for c in seq.cases(len(MORE), 4, 2, 'm'):
            yield c
        for c in seq.cases(len(BURSTS), 3, 2, 'b'):
            yield c


def owed(case, ctx):
    """every kind of send while n acks are owed"""
    for op in [('send', 'A'), ('send', 'A', 0), ('send', 'A', 2), ('send', 'B', 1), ('shared', 'A', 1), ('process',)] + [('bad', 'A', k, r) for k in BAD for r in (None, 1)] + [('nohost', k, r) for k in range(5) for r in (None, 1)]:
        for after in (('send', 'A'), ('send', 'A', 1), ('shared', 'B'), ('process',)):
            w = make()
            w.do(('shared', 'A'))
            if case['owed']:
                w.do(('burst', 'A', case['owed']))
            w.do(op)
            ctx.state(w.key())
            w.do(after)
            w.finish(ctx)
            ctx.step(9)
            ctx.execution()
            ctx.outcome(w.key())


def full_dispatcher():
    if not _full:
        s = Settings()
        env = net.new_env()
        p = repo.template_file(repo.full_text(), 'full.msg')
        _full.append((env, UDPDispatcher(settings=s, message_template=open(p), message_xml=udpworld.shared_xml())))
        _full.append(0)
    net.ENV[0] = _full[0][0]
    return _full[0]


def new_host():
    _full[1] += 1
    n = _full[1]
    return Host(('10.%d.%d.%d' % (1 + (n >> 16), n >> 8 & 255, n & 255), 1000 + n % 7))


def spoiled(t, more):
    """(label, blocks): the default message with one thing missing or too many"""
    for b in t.blocks:
        n = {'Single': 1, 'Multiple': b.number, 'Variable': 2}[b.kind]
        for v in b.vars:
            # in the first and the last instance
            for i in sorted(set([0, n - 1])):
                blocks = codec.fill(t, {b.name: 2})
                del blocks[b.name][i][v.name]
                yield 'without %s.%s' % (b.name, v.name), blocks
            if v.type not in ('Variable', 'Fixed', 'LLUUID', 'IPADDR', 'BOOL'):
                blocks = codec.fill(t, {b.name: 2})
                blocks[b.name][n - 1][v.name] = None
                yield '%s.%s is None' % (b.name, v.name), blocks
        for v in b.vars:
            if v.type == 'Variable' and v.size < 4:
                # its length, with the NUL, does not fit what is there for it
                most = 256 ** v.size
                for size in (most - 1, most, most + 44, 2 * most) if more else (most - 1, most + 44)[:3 - v.size]:
                    blocks = codec.fill(t, {b.name: 2})
                    blocks[b.name][n - 1][v.name] = 'x' * size
                    yield '%d bytes of %s.%s' % (size, b.name, v.name), blocks
        if b.kind == 'Variable':
            for c in (256, 257, 300, 512) if more else (256,):
                # more than can be counted
                blocks = codec.fill(t)
                blocks[b.name] = [blocks[b.name][0]] * c
                yield '%d instances of %s' % (c, b.name), blocks
        if b.kind != 'Variable':
            for c in sorted(set([0, n - 1, n + 1, n + 2, 2 * n, 255])):
                if c == n:
                    continue
                blocks = codec.fill(t)
                blocks[b.name] = [dict(blocks[b.name][0]) for i in range(c)]
                yield '%d instances of %s' % (c, b.name), blocks
            blocks = codec.fill(t)
            blocks[b.name] = None
            yield 'without %s' % b.name, blocks


def outstanding(d, host):
    c = d.circuit_manager.get_circuit(host)
    return [] if c is None else sorted(list(c.unacked_packets) + list(c.final_retry_packets))


def spoiled_message(t, blocks):
    m = Message(t.name)
    for b in t.blocks:
        for inst in blocks[b.name] or []:
            m.add_block(udpworld.Block(b.name, **dict([(k, codec.give(x)) for k, x in inst.items()])))
        if blocks[b.name] == []:
            m.blocks[b.name] = []
    return m


def messages(case, ctx):
    """every message of the embedded template, as it should be and with one thing wrong, while acks are owed or not"""
    env, d = full_dispatcher()

    def good(t, blocks, how, host, pid, owed, label):
        env.take_attempts()
        m = codec.to_message(t, blocks, pid % 3)
        if how is None:
            d.send_message(m, host)
        else:
            d.send_reliable(m, host, how)
        att = env.take_attempts()
        want = refcodec.encode(t, codec.plain_blocks(t, blocks), 0x40 if how is not None else 0, pid)
        if t.name == 'RegionHandshakeReply':
            want += '\0\0\0\0'
        got = [(a, b) for a, b, c in att]
        if owed and t.name != 'PacketAck':
            # C08 says what is acked when
            acked = chr(ord(want[0]) | 0x10) + want[1:] + refcodec.acks_tail(owed)
            if got and got[0][0] != want:
                want = acked
        ctx.check(got == [(want, (host.ip, host.port))], 'content', '%s (%s): on the wire %s instead of %s' % (t.name, label, [(hexs(a), b) for a, b in got], hexs(want)))
        ctx.step()
        ctx.state(want)
    for t in repo.full().templates[case['messages']:case['messages'] + PART]:
        if not codec.udp_allowed(t.name) or t.name == 'EnableSimulator':
            continue
        for how in (None, 0, 2):
            for owed in ([], [1], [7, 8, 0x01020304]):
                host = new_host()
                c = d.find_circuit(host)
                for i in owed:
                    env.inbox.append((refcodec.encode(repo.full().by_name['StartPingCheck'], {'PingID': [{'PingID': 0, 'OldestUnacked': 1}]}, 0x40, i), (host.ip, host.port)))
                    buf, size = d.udp_client.receive_packet(d.socket)
                    d.receive_check(d.udp_client.get_sender(), buf, size)
                good(t, codec.fill(t), how, host, 1, owed, 'sent %s, owed %s' % (how, owed))
                ctx.check(outstanding(d, host) == ([1] if how is not None else []), 'outstanding', '%s sent %s: outstanding %s' % (t.name, how, outstanding(d, host)))
                good(t, codec.fill(t, start=5), None, host, 2, owed, 'again')
                ctx.execution()
        for b in t.blocks:
            for v in b.vars:
                if v.type == 'Variable' and v.size < 4:
                    # the longest there may be
                    blocks = codec.fill(t)
                    blocks[b.name][0][v.name] = 'y' * (256 ** v.size - 2)
                    good(t, blocks, None, new_host(), 1, [], '%s.%s as long as can be' % (b.name, v.name))
            if b.kind == 'Variable' and ctx.thorough:
                blocks = codec.fill(t)
                blocks[b.name] = [blocks[b.name][0]] * 255
                good(t, blocks, 1, new_host(), 1, [], 'as many %s as can be' % b.name)
        for label, blocks in spoiled(t, ctx.thorough):
            for how in (None, 1):
                host = new_host()
                env.take_attempts()
                try:
                    if how is None:
                        d.send_message(spoiled_message(t, blocks), host)
                    else:
                        d.send_reliable(spoiled_message(t, blocks), host, how)
                except Exception:
                    pass
                att = env.take_attempts()
                ctx.check(not att, 'bad-sent', '%s %s put %s on the wire' % (t.name, label, [hexs(a[0]) for a in att]))
                ctx.check(not outstanding(d, host), 'bad-outstanding', '%s %s is waited for' % (t.name, label))
                d.process_acks()
                att = [a for a in env.take_attempts() if a[1] == (host.ip, host.port)]
                ctx.check(not att, 'bad-sent', '%s %s: later %s' % (t.name, label, [hexs(a[0]) for a in att]))
                # later sends: the next id, or the one after
                g = repo.full().by_name['StartPingCheck']
                blocks2 = {'PingID': [{'PingID': 3, 'OldestUnacked': 4}]}
                d.send_message(codec.to_message(g, blocks2), host)
                att = env.take_attempts()
                ctx.check([a[0] for a in att] in [[refcodec.encode(g, blocks2, 0, i)] for i in (1, 2)], 'content', 'after %s %s, a ping is sent as %s' % (t.name, label, [hexs(a[0]) for a in att]))
                ctx.step(3)
                ctx.execution()
                ctx.outcome((t.name, label))
                d.circuit_manager.remove_circuit_data(host)


def run(case, ctx):
    if 'messages' in case:
        messages(case, ctx)
        return
    if 'owed' in case:
        owed(case, ctx)
        return
    seq.run(case, ctx, {'q': OPS, 'm': MORE, 'b': BURSTS}[case['t']], make)
