"""C03: the same contents in every envelope."""
import itertools
from mc import repo, refcodec
from mc.core import Violation, hexs
import codec
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.settings import Settings

_w = {}


def zero_template():
    """messages whose body is n free bytes (Fixed), and small ones with every kind of block"""
    ts = []
    for i, n in enumerate([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 254, 255, 256, 257, 509, 510, 511, 512, 765, 766, 1020, 1500]):
        t = refcodec.Template('Free%d' % n, 'Low', 400 + i, 'NotTrusted', 'Zerocoded', 'NotDeprecated')
        b = refcodec.Block('Blk', 'Single', 0)
        b.vars.append(refcodec.Var('Bytes', 'Fixed', n))
        t.blocks.append(b)
        ts.append(t)
    for freq, num in (('High', 1), ('High', 0xfe), ('Medium', 1), ('Medium', 0xfe), ('Low', 1), ('Low', 0x100), ('Low', 0x200), ('Low', 0xff), ('Fixed', 0xfb), ('Fixed', 0), ('Fixed', 1)):
        t = refcodec.Template('N%s%d' % (freq, num), freq, num, 'NotTrusted', 'Zerocoded', 'NotDeprecated')
        b = refcodec.Block('Blk', 'Single', 0)
        b.vars.append(refcodec.Var('A', 'U8', 1))
        b.vars.append(refcodec.Var('B', 'U32', 4))
        t.blocks.append(b)
        b = refcodec.Block('Rep', 'Variable', 0)
        b.vars.append(refcodec.Var('C', 'U16', 2))
        b.vars.append(refcodec.Var('Text', 'Variable', 1))
        t.blocks.append(b)
        ts.append(t)
    return ts


def world(kind):
    if kind not in _w:
        s = Settings()
        s.ENABLE_DEFERRED_PACKET_PARSING = False
        if kind == 'free':
            ts = zero_template()
            p = repo.template_file(codec.template_text(ts), 'free.msg')
            _w[kind] = (UDPMessageDeserializer(settings=s, message_template=open(p)), refcodec.Dictionary(ts))
        else:
            _w[kind] = (UDPMessageDeserializer(settings=s), repo.full())
    return _w[kind]


def ack_ids(n):
    base = [1, 2, 0xff, 0x100, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff, 0, 0xdeadbeef]
    return [(base[i % len(base)] + i // len(base)) % (1 << 32) for i in range(n)]


EXTRAS = [0, 1, 2, 3, 7, 255]
ACKS = [None, 0, 1, 2, 3, 255]


def cases(tier):
    for t in repo.full().templates:
        if codec.udp_allowed(t.name):
            yield {'k': 'combo', 'w': 'embedded', 'name': t.name}
    for t in zero_template():
        yield {'k': 'combo', 'w': 'free', 'name': t.name}
    alphabet = 3 if tier == 'quick' else 4
    top = 8 if tier == 'quick' else 9
    for n in range(1, top + 1):
        firsts = list(itertools.product(range(alphabet), repeat=min(n, 2)))
        for f in firsts:
            yield {'k': 'bodies', 'n': n, 'a': alphabet, 'f': list(f)}
    for n in range(256):
        yield {'k': 'acks', 'n': n}
        yield {'k': 'extra', 'n': n}
    for n in range(257):
        yield {'k': 'run', 'n': n}
    for n in ([254, 255, 256, 257, 509, 510, 511, 512, 765, 766, 1020, 1500] if tier == 'quick' else [254, 255, 256, 257, 509, 510, 511, 512, 765, 766, 1020, 1500]):
        yield {'k': 'long', 'n': n}


def decode(des, t, blocks, ctx, label, flags=0, pid=77, acks=None, extra='', zero=False, body=None):
    if body is None:
        data = refcodec.encode(t, blocks, flags, pid, acks, extra, zero, raw=True)
    else:
        data = refcodec.header(flags | 0x80 | (0x10 if acks is not None else 0), pid, extra) + body
        if acks is not None:
            data += refcodec.acks_tail(acks)
    p = des.deserialize(data)
    codec.compare(t, blocks, p, label, ctx)
    ctx.check(p.packet_id == pid, 'packet-id', '%s: %s has packet id %r instead of %d' % (label, t.name, p.packet_id, pid))
    ctx.check(list(p.acks) == (acks or []), 'acks', '%s: %s: acks %r instead of %r' % (label, t.name, list(p.acks)[:8], (acks or [])[:8]))
    if flags & 0x40:
        ctx.check(p.reliable == True, 'reliable', '%s: not reliable' % label)
    else:
        ctx.check(not p.reliable, 'reliable', '%s: reliable' % label)
    ctx.step()
    ctx.execution()
    ctx.state(data)
    ctx.outcome((t.name, len(data)))
    if ctx.executions % 5003 == 7:
        ctx.sample('%s %s: %s' % (label, t.name, hexs(data)[:100]))


def splits(n, most=3):
    """ways of writing a run of n zeros as runs of 1..255"""
    if n == 0:
        return [[]]
    out = []
    if n <= 255:
        out.append([n])
    if most > 1:
        for first in sorted(set([1, 2, n - 1, n - 2, n // 2, 127, 128, 254, 255])):
            if 1 <= first <= 255 and first < n:
                for rest in splits(n - first, most - 1):
                    out.append([first] + rest)
    return out


def run(case, ctx):
    k = case['k']
    if k == 'combo':
        des, dic = world(case['w'])
        t = dic.by_name[case['name']]
        samples = [codec.plain_blocks(t, codec.fill(t))]
        zeros = codec.plain_blocks(t, codec.fill(t, dict([(b.name, 2) for b in t.blocks if b.kind == 'Variable'])))
        for b in t.blocks:
            for inst in zeros[b.name]:
                for v in b.vars:
                    inst[v.name] = {'LLVector3': (0.0,) * 3, 'LLVector3d': (0.0,) * 3, 'LLVector4': (0.0,) * 4,
                                    'LLQuaternion': (0.0, 0.0, 0.0, 1.0), 'LLUUID': '\0' * 16, 'IPADDR': '\0' * 4,
                                    'Fixed': '\0' * v.size, 'Variable': '\0\0', 'F32': 0.0, 'F64': 0.0}.get(v.type, 0)
        samples.append(zeros)
        for s in range(2):
            blocks = samples[s]
            for zero in (False, True):
                for e in EXTRAS:
                    for extra in ('\0' * e, '\xff' * e, ''.join([chr((i * 7 + 1) % 256) for i in range(e)])) if e else ('',):
                        for a in ACKS:
                            for flags in ((0, 0x40, 0x60) if a in (None, 2) else (0,)):
                                if not t.blocks and not zero and False:
                                    continue
                                decode(des, t, blocks, ctx, 'zero-coded=%s extra=%d acks=%s' % (zero, e, a), flags,
                                       77 + e, None if a is None else ack_ids(a), extra, zero)
        return
    des, dic = world('free')
    if k == 'bodies':
        chars = '\0\x01\xff\x02'[:case['a']]
        n = case['n']
        t = dic.by_name['Free%d' % n]
        for rest in itertools.product(range(len(chars)), repeat=n - len(case['f'])):
            body = ''.join([chars[i] for i in list(case['f']) + list(rest)])
            decode(des, t, {'Blk': [{'Bytes': body}]}, ctx, 'body %s' % hexs(body), zero=True)
            decode(des, t, {'Blk': [{'Bytes': body}]}, ctx, 'body %s' % hexs(body), zero=True, acks=[5, 0x01000000], extra='\0\x03')
            # every zero on its own
            alone = (t.number_bytes() + body).replace('\0', '\0\x01')
            decode(des, t, {'Blk': [{'Bytes': body}]}, ctx, 'body %s, runs of 1' % hexs(body), body=alone)
    elif k == 'acks':
        n = case['n']
        for name in ('Free1', 'Free257', 'NHigh1', 'NLow256', 'NFixed0'):
            t = dic.by_name[name]
            blocks = codec.plain_blocks(t, codec.fill(t))
            for zero in (False, True):
                for ids in (ack_ids(n), [0] * n, [0xffffffff] * n, range(1, n + 1)):
                    decode(des, t, blocks, ctx, '%d acks' % n, acks=list(ids), zero=zero, extra='x' * (n % 5))
    elif k == 'extra':
        n = case['n']
        for name in ('Free1', 'Free257', 'NHigh1', 'NMedium1', 'NLow256', 'NFixed0'):
            t = dic.by_name[name]
            blocks = codec.plain_blocks(t, codec.fill(t))
            for zero in (False, True):
                for extra in ('\0' * n, '\xff' * n, ('\0\x05\xff' * 86)[:n]):
                    for acks in (None, [], [1, 2]):
                        decode(des, t, blocks, ctx, '%d extra' % n, acks=acks, zero=zero, extra=extra)
    elif k == 'run':
        # every run length at the start, the middle and the end of the contents, split in several ways
        n = case['n']
        t = dic.by_name['Free257'] if n else dic.by_name['Free1']
        size = t.blocks[0].vars[0].size
        if n > size:
            return
        num = t.number_bytes()
        for before in sorted(set([0, (size - n) // 2, size - n])):
            after = size - n - before
            body = 'A' * before + '\0' * n + 'B' * after
            for runs in splits(n, 2):
                coded = num.replace('\0', '\0\x01') + 'A' * before + ''.join(['\0' + chr(r) for r in runs]) + 'B' * after
                decode(des, t, {'Blk': [{'Bytes': body}]}, ctx, 'run %s at %d' % (runs, before), body=coded)
    elif k == 'long':
        n = case['n']
        t = dic.by_name['Free%d' % n]
        num = t.number_bytes()
        for pre in ('', 'x', '\xff\xff'):
            body = pre + '\0' * (n - len(pre))
            for runs in splits(n - len(pre), 6 if n > 1000 else 4):
                if sum(runs) == n - len(pre):
                    coded = num.replace('\0', '\0\x01') + pre + ''.join(['\0' + chr(r) for r in runs])
                    decode(des, t, {'Blk': [{'Bytes': body}]}, ctx, 'runs %s' % runs, body=coded)
            decode(des, t, {'Blk': [{'Bytes': body}]}, ctx, 'canonical', zero=True)
