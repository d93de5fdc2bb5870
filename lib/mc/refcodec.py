"""Reference template parser and wire codec, written from the protocol, sharing
no code with the implementation."""
import re
import struct
import math

FREQ_BYTES = {'High': 1, 'Medium': 2, 'Low': 4, 'Fixed': 4}

FIXED_SIZES = {'U8': 1, 'U16': 2, 'U32': 4, 'U64': 8, 'S8': 1, 'S16': 2, 'S32': 4, 'S64': 8,
               'F32': 4, 'F64': 8, 'LLVector3': 12, 'LLVector3d': 24, 'LLVector4': 16,
               'LLQuaternion': 12, 'LLUUID': 16, 'BOOL': 1, 'IPADDR': 4, 'IPPORT': 2}

STRUCTS = {'U8': '<B', 'U16': '<H', 'U32': '<I', 'U64': '<Q', 'S8': '<b', 'S16': '<h', 'S32': '<i',
           'S64': '<q', 'F32': '<f', 'F64': '<d', 'BOOL': '<B', 'IPPORT': '>H',
           'LLVector3': '<3f', 'LLVector3d': '<3d', 'LLVector4': '<4f'}

TYPE_ORDER = ['Fixed', 'Variable', 'U8', 'U16', 'U32', 'U64', 'S8', 'S16', 'S32', 'S64', 'F32', 'F64',
              'LLVector3', 'LLVector3d', 'LLVector4', 'LLQuaternion', 'LLUUID', 'BOOL', 'IPADDR', 'IPPORT']


class RefError(Exception):
    pass


class Var(object):
    def __init__(self, name, type, size):
        self.name, self.type, self.size = name, type, size     # size: bytes, or length-prefix bytes


class Block(object):
    def __init__(self, name, kind, number):
        self.name, self.kind, self.number, self.vars = name, kind, number, []


class Template(object):
    def __init__(self, name, freq, number, trust, encoding, deprecation):
        self.name, self.freq, self.number = name, freq, number
        self.trust, self.encoding, self.deprecation = trust, encoding, deprecation
        self.blocks = []
        self.source = ''

    def number_bytes(self):
        if self.freq == 'High':
            return struct.pack('>B', self.number)
        if self.freq == 'Medium':
            return '\xff' + struct.pack('>B', self.number)
        if self.freq == 'Low':
            return '\xff\xff' + struct.pack('>H', self.number)
        return '\xff\xff\xff' + struct.pack('>B', self.number)


def tokenize(text):
    toks = []
    for line in text.splitlines():
        i = line.find('//')
        if i >= 0:
            line = line[:i]
        toks.extend(re.findall(r'[{}]|[^\s{}]+', line))
    return toks


def parse_template(text):
    toks = tokenize(text)
    pos = 0
    out = []
    if toks and toks[0] == 'version':
        pos = 2
    while pos < len(toks):
        if toks[pos] != '{':
            raise RefError('expected { at %r' % toks[pos:pos + 5])
        pos += 1
        head = []
        while toks[pos] not in '{}':
            head.append(toks[pos])
            pos += 1
        num = int(head[2], 0)
        if head[1] == 'Fixed':
            num &= 0xff
        t = Template(head[0], head[1], num, head[3], head[4],
                     head[5] if len(head) > 5 else 'NotDeprecated')
        while toks[pos] == '{':
            pos += 1
            bh = []
            while toks[pos] not in '{}':
                bh.append(toks[pos])
                pos += 1
            b = Block(bh[0], bh[1], int(bh[2]) if len(bh) > 2 else 0)
            while toks[pos] == '{':
                pos += 1
                vh = []
                while toks[pos] not in '{}':
                    vh.append(toks[pos])
                    pos += 1
                pos += 1
                if vh[1] in ('Fixed', 'Variable'):
                    size = int(vh[2])
                else:
                    size = FIXED_SIZES[vh[1]]
                b.vars.append(Var(vh[0], vh[1], size))
            if toks[pos] != '}':
                raise RefError('block end')
            pos += 1
            t.blocks.append(b)
        if toks[pos] != '}':
            raise RefError('message end')
        pos += 1
        out.append(t)
    return out


def source_of(t):
    """template text for one message"""
    num = str(t.number)
    if t.freq == 'Fixed':
        num = '0xFFFFFF%02X' % t.number
    s = '{\n\t%s %s %s %s %s%s\n' % (t.name, t.freq, num, t.trust, t.encoding,
                                  '' if t.deprecation == 'NotDeprecated' else ' ' + t.deprecation)
    for b in t.blocks:
        s += '\t{\n\t\t%s\t%s%s\n' % (b.name, b.kind, '\t%d' % b.number if b.kind == 'Multiple' else '')
        for v in b.vars:
            s += '\t\t{\t%s\t%s%s\t}\n' % (v.name, v.type, '\t%d' % v.size if v.type in ('Fixed', 'Variable') else '')
        s += '\t}\n'
    return s + '}\n'


# ------------------------------------------------------------------ values
# reference values: ints, floats, tuples of floats, 16-byte strings for UUIDs,
# byte strings for Fixed, IPADDR and Variable (without the terminating NUL)

def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def enc_value(v, val):
    t = v.type
    if t in STRUCTS:
        fmt = STRUCTS[t]
        if isinstance(val, tuple):
            return struct.pack(fmt, *val)
        return struct.pack(fmt, val)
    if t == 'LLQuaternion':
        x, y, z, w = val
        if w < 0:
            x, y, z = -x, -y, -z
        return struct.pack('<3f', x, y, z)
    if t in ('LLUUID', 'IPADDR', 'Fixed'):
        if len(val) != v.size:
            raise RefError('size of %s' % v.name)
        return val
    if t == 'Variable':
        data = val + '\0'
        return struct.pack({1: '<B', 2: '<H', 4: '<I'}[v.size], len(data)) + data
    raise RefError(t)


def enc_raw_value(v, val):
    """as enc_value, but Variable data is given with whatever terminator it has"""
    if v.type == 'Variable':
        return struct.pack({1: '<B', 2: '<H', 4: '<I'}[v.size], len(val)) + val
    return enc_value(v, val)


def encode_body(t, blocks, raw=False):
    """blocks: {block name: [ {var name: value} ]}"""
    enc = enc_raw_value if raw else enc_value
    out = [t.number_bytes()]
    for b in t.blocks:
        insts = blocks.get(b.name, [])
        if b.kind == 'Variable':
            out.append(chr(len(insts)))
        elif b.kind == 'Single' and len(insts) != 1 or b.kind == 'Multiple' and len(insts) != b.number:
            raise RefError('count of %s' % b.name)
        for inst in insts:
            for v in b.vars:
                out.append(enc(v, inst[v.name]))
    return ''.join(out)


def header(flags, pid, extra=''):
    return chr(flags) + struct.pack('>I', pid) + chr(len(extra)) + extra


def acks_tail(acks):
    return ''.join([struct.pack('>I', a) for a in acks]) + chr(len(acks))


def zerocode(s):
    """canonical zero coding: every run of 1..255 zeros becomes 00 n"""
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] != '\0':
            out.append(s[i])
            i += 1
        else:
            j = i
            while j < n and s[j] == '\0' and j - i < 255:
                j += 1
            out.append('\0' + chr(j - i))
            i = j
    return ''.join(out)


def zero_expand(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] != '\0':
            out.append(s[i])
            i += 1
        elif i + 1 < len(s):
            n = ord(s[i + 1])
            if n == 0:
                raise RefError('zero run of 0')
            out.append('\0' * n)
            i += 2
        else:
            raise RefError('zero run cut off')
    return ''.join(out)


def encode(t, blocks, flags=0, pid=1, acks=None, extra='', zerocoded=False, raw=False):
    body = encode_body(t, blocks, raw)
    if zerocoded:
        flags |= 0x80
        body = zerocode(body)
    if acks is not None:
        flags |= 0x10
    s = header(flags, pid, extra) + body
    if acks is not None:
        s += acks_tail(acks)
    return s


class Decoded(object):
    pass


class Dictionary(object):
    def __init__(self, templates):
        self.templates = templates
        self.by_name = dict((t.name, t) for t in templates)
        self.by_number = dict((t.number_bytes(), t) for t in templates)

    def find(self, body):
        if body[:1] != '\xff':
            return self.by_number.get(body[:1])
        if body[1:2] != '\xff':
            return self.by_number.get(body[:2])
        return self.by_number.get(body[:4])


def decode(dic, data, tolerate_tail=True):
    """strict decoding of a complete datagram; raises RefError"""
    d = Decoded()
    if len(data) < 7:
        raise RefError('short')
    d.flags = ord(data[0])
    d.pid = struct.unpack('>I', data[1:5])[0]
    d.reliable = bool(d.flags & 0x40)
    d.resent = bool(d.flags & 0x20)
    d.acks = None
    end = len(data)
    if d.flags & 0x10:
        n = ord(data[-1])
        start = len(data) - 1 - 4 * n
        if start < 7:
            raise RefError('acks do not fit')
        d.acks = list(struct.unpack('>%dI' % n, data[start:-1])) if n else []
        end = start
    off = ord(data[5])
    if 6 + off >= end:
        raise RefError('extra header does not fit')
    d.extra = data[6:6 + off]
    body = data[6 + off:end]
    if d.flags & 0x80:
        body = zero_expand(body)
    d.body = body
    t = dic.find(body)
    if t is None:
        raise RefError('unknown message')
    d.template = t
    d.name = t.name
    pos = len(t.number_bytes())
    d.blocks = {}
    for b in t.blocks:
        if b.kind == 'Single':
            n = 1
        elif b.kind == 'Multiple':
            n = b.number
        else:
            if pos >= len(body):
                raise RefError('no count')
            n = ord(body[pos])
            pos += 1
        insts = []
        for i in range(n):
            inst = {}
            for v in b.vars:
                size = v.size
                if v.type == 'Variable':
                    if pos + size > len(body):
                        raise RefError('no length')
                    ln = struct.unpack({1: '<B', 2: '<H', 4: '<I'}[size], body[pos:pos + size])[0]
                    pos += size
                    size = ln
                if pos + size > len(body):
                    raise RefError('body too short')
                inst[v.name] = dec_value(v, body[pos:pos + size])
                pos += size
            insts.append(inst)
        d.blocks[b.name] = insts
    d.rest = body[pos:]
    if t.name == 'RegionHandshakeReply' and d.rest == '\0\0\0\0':
        d.rest = ''
    return d


def dec_value(v, raw):
    t = v.type
    if t in STRUCTS:
        r = struct.unpack(STRUCTS[t], raw)
        if len(r) == 1:
            return r[0]
        return r
    if t == 'LLQuaternion':
        x, y, z = struct.unpack('<3f', raw)
        w2 = 1.0 - (x * x + y * y + z * z)
        w = 0.0
        if w2 > 0:
            w = math.sqrt(w2)
        return (x, y, z, w)
    return raw


# -------------------------------------------------- comparison of values

def same_float(a, b, fmt):
    if a != a or b != b:
        return a != a and b != b
    return struct.pack(fmt, a) == struct.pack(fmt, b)


def plain(v, got):
    """implementation value -> reference value of the type of v (raises on nonsense)"""
    t = v.type
    if t in ('LLVector3', 'LLVector3d', 'LLVector4', 'LLQuaternion'):
        if hasattr(got, 'X'):
            if hasattr(got, 'W'):
                return (got.X, got.Y, got.Z, got.W)
            return (got.X, got.Y, got.Z)
        return tuple(got)
    if t == 'LLUUID':
        if hasattr(got, 'get_bytes'):
            return got.get_bytes()
        return str(got.bytes)
    return got


def same_value(v, want, got, strip=True):
    """want: reference value as given to the encoder; got: implementation value"""
    try:
        g = plain(v, got)
        t = v.type
        if t in ('F32', 'F64'):
            return same_float(want, g, '<f' if t == 'F32' else '<d')
        if t in ('LLVector3', 'LLVector3d', 'LLVector4'):
            fmt = '<d' if t == 'LLVector3d' else '<f'
            return len(g) == len(want) and not [1 for a, b in zip(want, g) if not same_float(a, b, fmt)]
        if t == 'LLQuaternion':
            s = 1.0
            if want[3] < 0:
                s = -1.0
            for a, b in zip(want[:3], g[:3]):
                if a == a and not same_float(s * a, b, '<f') and s * a != b:
                    return False
            w2 = 1.0 - (f32(want[0]) ** 2 + f32(want[1]) ** 2 + f32(want[2]) ** 2)
            w = math.sqrt(w2) if w2 > 0 else 0.0
            return len(g) == 4 and (abs(g[3] - w) < 1e-9 or w != w)
        if t == 'Variable':
            if isinstance(g, unicode):
                g = g.encode('utf-8')
            if strip:
                return isinstance(g, str) and g.rstrip('\0') == want.rstrip('\0')
            return g == want
        if t in ('LLUUID', 'IPADDR', 'Fixed'):
            return isinstance(g, str) and g == want
        return g == want
    except (TypeError, AttributeError, ValueError), e:
        return False
