"""Values, messages and comparisons shared by the codec checks."""
import struct
import uuid
from mc import repo, refcodec
from mc.core import Violation, hexs
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion
from llbase import llsd

INF = float('inf')
NAN = INF - INF
F32S = [0.0, -0.0, 1.0, -1.5, 0.1, 1.401298464324817e-45, 3.4028234663852886e+38, -3.4028234663852886e+38, INF, -INF, NAN, 16777217.0]
F64S = [0.0, -0.0, 1.0, -1.5, 0.1, 5e-324, 1.7976931348623157e+308, INF, -INF, NAN, 16777217.0]


def ints(bits, signed):
    if signed:
        h = 1 << (bits - 1)
        r = [0, 1, -1, h - 1, -h, -2]
        if bits > 8:
            r += [127, 128, -128, -129, 255, 256, -256]
    else:
        m = (1 << bits) - 1
        r = [0, 1, m, m - 1, (m >> 1), (m >> 1) + 1, 127]
        if bits > 8:
            r += [255, 256, 0x0102030405060708 & m]
        if bits > 16:
            r += [65535, 65536]
    return r


class Raw(object):
    """a value given to the implementation in another form than the reference's"""

    def __init__(self, want, give):
        self.want, self.give = want, give


def vectors(values, n):
    base = [1.0, 2.0, 3.0, 4.0][:n]
    out = [tuple(base), tuple([0.0] * n)]
    for i in range(n):
        for x in values:
            v = list(base)
            v[i] = x
            out.append(tuple(v))
    return out


QUATS = [(0.0, 0.0, 0.0, 1.0), (1.0, 0.0, 0.0, 0.0), (0.0, 1.0, 0.0, 0.0), (0.0, 0.0, 1.0, 0.0), (0.5, 0.5, 0.5, 0.5),
         (0.5, -0.5, 0.5, -0.5), (-0.5, -0.5, -0.5, -0.5), (0.0, 0.0, 0.0, -1.0), (0.6, 0.0, 0.0, 0.8), (0.0, 0.6, 0.0, -0.8),
         (0.0, 0.0, -0.6, 0.8), (0.36, 0.48, 0.8, 0.0)]


def values(v, big=False):
    t = v.type
    if t in ('U8', 'U16', 'U32', 'U64'):
        return ints(int(t[1:]), False)
    if t in ('S8', 'S16', 'S32', 'S64'):
        return ints(int(t[1:]), True)
    if t == 'F32':
        return F32S
    if t == 'F64':
        return F64S
    if t == 'LLVector3':
        return vectors(F32S, 3) + [Raw(x, Vector3(X=x[0], Y=x[1], Z=x[2])) for x in [(1.0, 2.0, 3.0), (-0.5, 0.25, 1e10)]]
    if t == 'LLVector3d':
        return vectors(F64S, 3)
    if t == 'LLVector4':
        return vectors(F32S, 4)
    if t == 'LLQuaternion':
        return QUATS + [Raw(x, Quaternion(X=x[0], Y=x[1], Z=x[2], W=x[3])) for x in QUATS]
    if t == 'LLUUID':
        r = []
        for b in ['\0' * 16, '\xff' * 16, ''.join(map(chr, range(16))), '\xde\xad' * 8, '\0' * 15 + '\x01', '\x80' + '\0' * 15]:
            r += [Raw(b, UUID(bytes=b)), Raw(b, uuid.UUID(bytes=b))]
        return r
    if t == 'BOOL':
        return [0, 1, Raw(1, True), Raw(0, False)]
    if t == 'IPADDR':
        return ['\0\0\0\0', '\xff\xff\xff\xff', '\x01\x02\x03\x04', '\x7f\0\0\x01', '\x0a\0\0\0']
    if t == 'IPPORT':
        return [0, 1, 255, 256, 13000, 65535, 0x0102]
    if t == 'Fixed':
        n = v.size
        r = ['\0' * n, '\xff' * n, ''.join([chr((7 * i + 1) % 256) for i in range(n)]), '\x01' + '\0' * (n - 1), '\0' * (n - 1) + '\x01',
             '\0' * (n - 1) + '\xff']
        return r
    if t == 'Variable':
        r = ['', 'a', 'ab', 'a\0b', '\0', '\0\0', 'abc\0', '\0x', '\xff\xfe\x80', 'Ren\xc3\xa9', ' \n ', ''.join(map(chr, range(1, 200))),
             'x' * 253, 'y' * 254, Raw('', None), Raw('text', u'text'), Raw('\xe2\x82\xac\xc3\xa9', u'\u20ac\xe9')]
        if v.size > 1:
            r += ['z' * 255, 'z' * 256, 'w' * 1000, ''.join(map(chr, range(256))) + 'q']
            if big:
                r += ['v' * 65534, 'u' * 32767, 't' * 32768]
        if v.size > 2 and big:
            r += ['s' * 65535, 's' * 65536, 's' * 70000]
        return r
    raise Exception(t)


def default(v, k):
    """a value different from its neighbours'"""
    t = v.type
    if t == 'U8':
        return (k * 37 + 11) % 251 + 1
    if t in ('U16', 'IPPORT'):
        return (k * 7919 + 0x1234) % 65000 + 300
    if t == 'U32':
        return (k * 2654435761 + 0x12345678) % (1 << 32)
    if t == 'U64':
        return (k * 11400714819323198485 + 0x123456789abcdef0) % (1 << 64)
    if t == 'S8':
        return (k * 37 + 11) % 251 - 125
    if t == 'S16':
        return (k * 7919 + 77) % 64000 - 32000
    if t == 'S32':
        return (k * 2654435761 + 77) % (1 << 32) - (1 << 31)
    if t == 'S64':
        return (k * 11400714819323198485 + 77) % (1 << 64) - (1 << 63)
    if t == 'F32':
        return k + 0.5
    if t == 'F64':
        return k + 0.1
    if t == 'LLVector3':
        return (k + 0.5, k + 1.25, -k - 0.75)
    if t == 'LLVector3d':
        return (k + 0.1, k + 1.2, -k - 0.7)
    if t == 'LLVector4':
        return (k + 0.5, k + 1.25, -k - 0.75, 2.0 * k)
    if t == 'LLQuaternion':
        return QUATS[k % len(QUATS)]
    if t == 'BOOL':
        return k % 2
    if t == 'LLUUID':
        b = ''.join([chr((k * 31 + i * 17 + 3) % 256) for i in range(16)])
        return Raw(b, UUID(bytes=b))
    if t == 'IPADDR':
        return chr(1 + k % 255) + chr(k * 3 % 256) + chr(k * 5 % 256) + chr(1 + k * 7 % 255)
    if t == 'Fixed':
        return ''.join([chr((k * 13 + i * 29 + 5) % 256) for i in range(v.size)])
    if t == 'Variable':
        return 'v%d%s' % (k, v.name[:20])
    raise Exception(t)


def give(x):
    return x.give if isinstance(x, Raw) else x


def want(x):
    return x.want if isinstance(x, Raw) else x


def fill(t, counts=None, start=0):
    """blocks with default values; counts: {variable block: instances}"""
    k = [start]
    blocks = {}
    for b in t.blocks:
        n = 1
        if b.kind == 'Multiple':
            n = b.number
        elif b.kind == 'Variable':
            n = (counts or {}).get(b.name, 1)
        l = []
        for i in range(n):
            inst = {}
            for v in b.vars:
                inst[v.name] = default(v, k[0])
                k[0] += 1
            l.append(inst)
        blocks[b.name] = l
    return blocks


def to_message(t, blocks, shape=0):
    """shape: how the blocks are passed (lists, single blocks, added later)"""
    args = []
    for b in t.blocks:
        insts = [Block(b.name, **dict([(n, give(x)) for n, x in inst.items()])) for inst in blocks[b.name]]
        if shape == 0:
            args.append(insts)
        else:
            args.extend(insts)
    if shape == 2:
        m = Message(t.name)
        for a in args:
            m.add_block(a)
        return m
    return Message(t.name, *args)


def plain_blocks(t, blocks):
    return dict([(n, [dict([(k, want(x)) for k, x in i.items()]) for i in l]) for n, l in blocks.items()])


def empty(t, blocks):
    """no block instance at all (while the template has blocks)"""
    return t.blocks and not [1 for l in blocks.values() if l]


def compare(t, blocks, packet, what, ctx, strip=True):
    """blocks: reference values; packet: what the implementation decoded"""
    if packet is None:
        raise Violation('not-decoded', '%s: %s was not decoded' % (what, t.name))
    ctx.check(packet.name == t.name, 'name', '%s: %s decoded as %s' % (what, t.name, packet.name))
    got = dict([(n, l) for n, l in packet.blocks.items() if len(l)])
    exp = dict([(n, l) for n, l in blocks.items() if len(l)])
    ctx.check(sorted(got) == sorted(exp), 'blocks', '%s: %s has blocks %s instead of %s' % (what, t.name, sorted(got), sorted(exp)))
    for b in t.blocks:
        g, e = got.get(b.name, []), exp.get(b.name, [])
        ctx.check(len(g) == len(e), 'count', '%s: %s.%s has %d instances instead of %d' % (what, t.name, b.name, len(g), len(e)))
        for i in range(len(e)):
            names = sorted(g[i].vars)
            ctx.check(names == sorted([v.name for v in b.vars]), 'fields', '%s: %s.%s[%d] has fields %s' % (what, t.name, b.name, i, names))
            for v in b.vars:
                if not refcodec.same_value(v, e[i][v.name], g[i][v.name], strip):
                    raise Violation('value:' + v.type, '%s: %s.%s[%d].%s (%s) is %r instead of %r' % (
                        what, t.name, b.name, i, v.name, v.type, g[i][v.name], e[i][v.name]))


_flavors = []


def flavors():
    """name -> flavor, of the embedded message.xml"""
    if not _flavors:
        d = llsd.parse(repo.xml_text())
        _flavors.append(dict([(n, d['messages'][n].get('flavor')) for n in d['messages']]))
    return _flavors[0]


def udp_allowed(name):
    return flavors().get(name, 'template') == 'template'


# ------------------------------------------------------------- variations

COUNTS = [0, 1, 2, 3, 127, 128, 254, 255]


def variations(t, pairs=False, lean=False):
    """(label, blocks): boundary values field by field, and repetition counts. lean:
    fields repeating the type, kind of block and position of one before get only a few values"""
    yield 'default', fill(t)
    yield 'shifted', fill(t, start=1)
    var = [b for b in t.blocks if b.kind == 'Variable']
    if var:
        for n in COUNTS:
            for b in var:
                c = {b.name: n}
                yield 'count %s=%d' % (b.name, n), fill(t, c)
            if n < 4 and len(var) > 1:
                yield 'count all=%d' % n, fill(t, dict([(b.name, n) for b in var]))
        if len(var) > 1:
            for b in var:
                c = dict([(x.name, 0) for x in var])
                c[b.name] = 2
                yield 'only %s' % b.name, fill(t, c)
            for i in range(len(var)):
                for j in range(len(var)):
                    if i != j:
                        yield 'counts', fill(t, {var[i].name: 0, var[j].name: 3})
    seen = set()
    for b in t.blocks:
        for v in b.vars:
            sig = (b.kind, v.type, v.size)
            for x in values(v)[::3] if lean and sig in seen else values(v):
                blocks = fill(t)
                for inst in blocks[b.name][-1:]:
                    inst[v.name] = x
                yield '%s.%s=%s' % (b.name, v.name, repr(want(x))[:40]), blocks
            seen.add(sig)
    # everything at the same extreme
    for k in range(3):
        blocks = fill(t, dict([(b.name, 2) for b in var]))
        for b in t.blocks:
            for inst in blocks[b.name]:
                for v in b.vars:
                    inst[v.name] = values(v)[k]
        yield 'extreme %d' % k, blocks


# --------------------------------------------------------- custom templates

GRID_KINDS = ['Single', 'Multiple', 'Variable']


def grid_template():
    """one message per type x kind, all kinds x kinds x kinds, and all frequencies with boundary numbers"""
    ts = []
    low = [600]

    def new(name, freq='Low', num=None):
        if num is None:
            num = low[0]
            low[0] += 1
        t = refcodec.Template(name, freq, num, 'NotTrusted', 'Unencoded', 'NotDeprecated')
        ts.append(t)
        return t

    def block(t, name, kind, types, number=2):
        b = refcodec.Block(name, kind, number if kind == 'Multiple' else 0)
        for i, (ty, sz) in enumerate(types):
            b.vars.append(refcodec.Var('%s%dV' % (ty, i), ty, sz or refcodec.FIXED_SIZES.get(ty)))
        t.blocks.append(b)

    types = []
    for ty in refcodec.TYPE_ORDER:
        if ty == 'Fixed':
            types += [(ty, 1), (ty, 2), (ty, 32), (ty, 255)]
        elif ty == 'Variable':
            types += [(ty, 1), (ty, 2), (ty, 4)]
        else:
            types.append((ty, None))
    for i, (ty, sz) in enumerate(types):
        for kind in GRID_KINDS:
            t = new('T%s%s%s' % (ty, sz or '', kind))
            block(t, 'Head', 'Single', [('U8', None)])
            block(t, 'Body', kind, [(ty, sz), ('U16', None), (ty, sz)], number=3)
            block(t, 'Tail', 'Single', [('U32', None)])
    for a in GRID_KINDS:
        for b in GRID_KINDS:
            for c in GRID_KINDS:
                t = new('K%s%s%s' % (a, b, c))
                for n, k in zip(('BlkA', 'BlkB', 'BlkC'), (a, b, c)):
                    block(t, n, k, [('Variable', 1), ('U16', None)], number={'BlkA': 1, 'BlkB': 2, 'BlkC': 4}[n])
    t = new('ManyMultiple')
    block(t, 'Many', 'Multiple', [('U8', None)], number=255)
    new('NoBlocks')
    t = new('DataField')
    block(t, 'Blk', 'Single', [('Variable', 2)])
    t.blocks[0].vars[0].name = 'Data'
    for freq, nums in (('High', [1, 2, 0x7f, 0x80, 0xfe]), ('Medium', [1, 2, 0x80, 0xfe]), ('Low', [1, 2, 255, 256, 257, 0xfeff]),
                       ('Fixed', [0xff, 0xfb, 0xfa, 1, 0x80])):
        for n in nums:
            t = new('F%s%d' % (freq, n), freq, n)
            block(t, 'Blk', 'Single', [('U8', None), ('Variable', 1)])
    return ts


def template_text(ts):
    return 'version 2.0\n\n' + '\n'.join([refcodec.source_of(t) for t in ts])
