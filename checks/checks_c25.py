"""C25: vectors and quaternions over bit patterns of floats, and texts of tokens."""
import itertools
import math
from java.lang import Float
from mc import repo
from mc.core import Violation
from pyogp.lib.base.datatypes import Vector3, Quaternion
from pyogp.lib.base.helpers import Helpers
from pyogp.lib.base.message.data_packer import DataPacker
from pyogp.lib.base.message.data_unpacker import DataUnpacker
from pyogp.lib.base.message.msgtypes import MsgType

# bit patterns: zeros, ones, denormals, extremes, infinities, a nan, and asymmetric ones
BITS = [0, 0x80000000, 0x3f800000, 0xbf800000, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000,
        0x7fc00000, 0x3dcccccd, 0x40490fdb, 0xc2f6e979, 0x3f000000, 0x3f13cd3a, 0x01020304, 0x4b7fffff]
FEW = [0, 0x80000000, 0x3f800000, 0xbf000000, 1, 0x7f7fffff, 0x7f800000, 0x7fc00000, 0x3f13cd3a, 0x01020304]
UNIT = [0, 0x3f800000, 0xbf800000, 0x3f000000, 0xbf000000, 0x3f13cd3a, 0xbf13cd3a, 0x3dcccccd, 0x3f3504f3, 0xbf3504f4, 1, 0x3f7fffff, 0x40000000]
TOKENS = ['<', '>', ',', ' ', '1', '-', '.5', 'e3', 'x', 'nan']
# a few numbers, for longer texts
TEXTS = ['<', '>', ',', '1.5', '-2', ' ']


def num(b):
    if b >= 0x80000000:
        b -= 0x100000000
    return float(Float.intBitsToFloat(b))


def le(b):
    return ''.join([chr((b >> (8 * i)) & 255) for i in range(4)])


def eq(a, b):
    return a == b and (a != 0 or str(a) == str(b)) or a != a and b != b


def bits(x):
    return Float.floatToIntBits(x) & 0xffffffff


def bytes_of(bs):
    return ''.join([le(0x7fc00000 if (b & 0x7fffffff) > 0x7f800000 else b) for b in bs])


def cases(tier):
    q = tier == 'quick'
    for a in BITS:
        yield {'kind': 'vector', 'a': a}
    for a in FEW:
        for b in FEW:
            yield {'kind': 'quaternion', 'ab': [a, b]}
    for a in UNIT:
        yield {'kind': 'three', 'a': a}
    for i in range(len(TOKENS)):
        for j in range(len(TOKENS)):
            yield {'kind': 'text', 'set': 0, 'p': [i, j], 'd': 5 if q else 6}
    for i in range(len(TEXTS)):
        for j in range(len(TEXTS)):
            yield {'kind': 'text', 'set': 1, 'p': [i, j], 'd': 7 if q else 8}
    yield {'kind': 'text', 'set': 0, 'p': [], 'd': 0}
    for i in range(len(TOKENS)):
        yield {'kind': 'text', 'set': 0, 'p': [i], 'd': 1}
    n = 8
    for i in range(n):
        yield {'kind': 'distance', 'part': [i, n]}
    yield {'kind': 'histories'}
    yield {'kind': 'ints'}


OFFSETS = ((0, 0), (1, 0), (5, 3), (12, 1), (16, 9))


def holds(ctx, v, want, what):
    got = (v.X, v.Y, v.Z) if isinstance(v, Vector3) else (v.X, v.Y, v.Z, v.W)
    ctx.step()
    ctx.check(len(got) == len(want) and not [1 for g, w in zip(got, want) if not eq(g, w)], 'components', '%s holds %r, not %r' % (what, got, want))
    for f, n in ((v.data, 'data()'), (v, 'calling it')):
        d = f()
        ctx.check(type(d) is tuple and len(d) == len(want) and not [1 for g, w in zip(d, want) if not eq(g, w)], 'components',
                  '%s: %s gives %r, not %r' % (what, n, d, want))


def run(case, ctx):
    k = case['kind']
    if k == 'vector':
        for b, c in itertools.product(BITS, repeat=2):
            vector([case['a'], b, c], ctx)
        ctx.sample({'vector': ['%08x' % x for x in (case['a'], b, c)]})
    elif k == 'quaternion':
        for c, d in itertools.product(FEW, repeat=2):
            quaternion(case['ab'] + [c, d], ctx)
    elif k == 'three':
        for b, c in itertools.product(UNIT, repeat=2):
            three([case['a'], b, c], ctx)
    elif k == 'text':
        toks = [TOKENS, TEXTS][case['set']]
        for rest in itertools.product(range(len(toks)), repeat=case['d'] - len(case['p'])):
            ctx.execution()
            seq = case['p'] + list(rest)
            parse(''.join([toks[i] for i in seq]), ctx)
    elif k == 'distance':
        vals = [0.0, -0.0, 1.0, -1.0, num(1), num(0x7f7fffff), -num(0x7f7fffff), 0.5, num(0x3dcccccd), 3.0]
        pts = list(itertools.product(vals, repeat=3))
        few = pts[::7]
        i, n = case['part']
        for a in few[i::n]:
            for b in few:
                distance(a, b, ctx)
    elif k == 'histories':
        histories(ctx)
    else:
        for x, y, z in itertools.product((0, 1, -3, 2 ** 40, 1.5, True), repeat=3):
            v = Vector3(X=x, Y=y, Z=z)
            holds(ctx, v, (float(x), float(y), float(z)), 'Vector3%r' % ((x, y, z),))
            for w in (0, -2, 0.5):
                r = Quaternion(X=x, Y=y, Z=z, W=w)
                holds(ctx, r, (float(x), float(y), float(z), float(w)), 'Quaternion%r' % ((x, y, z, w),))
            ctx.execution()
        holds(ctx, Vector3(), (0.0, 0.0, 0.0), 'Vector3()')
        holds(ctx, Quaternion(), (0.0, 0.0, 0.0, 0.0), 'Quaternion()')


def vector(bs, ctx):
    want = tuple([num(b) for b in bs])
    raw = bytes_of(bs)
    what = 'vector of %s' % ['%08x' % b for b in bs]
    vs = [Vector3(X=want[0], Y=want[1], Z=want[2]), DataUnpacker().unpack_data('ab' + raw + 'c', MsgType.MVT_LLVector3, 2)]
    for before, after in OFFSETS:
        buf = '\xaa' * before + raw + '\xbb' * after
        vs.append(Vector3(buf, before))
        v = Vector3(X=9)
        v.unpack_from_bytes(buf, before)
        vs.append(v)
    vs.append(Vector3(bytes=raw))
    for v in vs:
        holds(ctx, v, want, what)
        ctx.check(v.get_bytes() == raw and type(v.get_bytes()) is str, 'bytes', '%s has bytes %r, not %r' % (what, v.get_bytes(), raw))
    v = vs[0]
    ctx.check(DataPacker().pack_data(v, MsgType.MVT_LLVector3) == raw, 'bytes', '%s is packed as %r' % (what, DataPacker().pack_data(v, MsgType.MVT_LLVector3)))
    c = v.copy()
    holds(ctx, c, want, 'copy of ' + what)
    ctx.check(type(c) is Vector3 and c is not v, 'copy', 'copy gave %r' % (c,))
    c.X = c.Y = c.Z = 7.0
    holds(ctx, v, want, 'original of a changed copy of ' + what)
    for t in (repr(v), str(v), '%s' % (v,), repr(v)[1:-1]):
        p = Vector3.parse(t)
        ctx.check(p.get_bytes() == raw, 'print', '%s printed as %s parses as %r' % (what, t, p.data()))
    ctx.execution()
    ctx.state(tuple(bs))
    ctx.outcome(raw[:4])


def quaternion(bs, ctx):
    want = tuple([num(b) for b in bs])
    raw = bytes_of(bs)
    what = 'quaternion of %s' % ['%08x' % b for b in bs]
    qs = [Quaternion(X=want[0], Y=want[1], Z=want[2], W=want[3])]
    for before, after in OFFSETS:
        buf = '\xaa' * before + raw + '\xbb' * after
        qs.append(Quaternion(buf, before))
        q = Quaternion(X=9, W=8)
        q.unpack_from_bytes(buf, before)
        qs.append(q)
    for q in qs:
        holds(ctx, q, want, what)
        ctx.check(q.get_bytes() == raw, 'bytes', '%s has bytes %r, not %r' % (what, q.get_bytes(), raw))
    q = qs[0]
    c = q.copy()
    holds(ctx, c, want, 'copy of ' + what)
    ctx.check(type(c) is Quaternion and c is not q, 'copy', 'copy gave %r' % (c,))
    c.X = c.Y = c.Z = c.W = 7.0
    holds(ctx, q, want, 'original of a changed copy of ' + what)
    ctx.execution()
    ctx.state(tuple(bs))


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def three(bs, ctx):
    x, y, z = [num(b) for b in bs]
    raw = bytes_of(bs)
    t = 1.0 - (x * x + y * y + z * z)
    w = math.sqrt(t) if t > 0 else 0
    what = 'quaternion of three components %s' % ['%08x' % b for b in bs]
    for before, after in ((0, 0), (1, 0), (7, 0), (16, 0), (0, 1), (3, 3)):
        buf = '\x7f' * before + raw + '\x3f' * after
        old = Quaternion(X=1, Y=2, Z=3, W=4)
        old.unpack_from_bytes(buf, before)
        for q in (Quaternion(buf, before), old):
            ctx.step()
            ctx.check(eq(q.X, x) and eq(q.Y, y) and eq(q.Z, z), 'components', '%s holds %r' % (what, q.data()))
            ctx.check(q.W >= 0 and near(q.W, w), 'fourth', '%s has fourth component %r, not %r' % (what, q.W, w))
            if t > 0:
                ctx.check(near(q.X ** 2 + q.Y ** 2 + q.Z ** 2 + q.W ** 2, 1.0), 'fourth', '%s has norm %r' % (what, q.data()))
            ctx.check(q.get_bytes()[:12] == raw, 'bytes', '%s has bytes %r' % (what, q.get_bytes()))
    ctx.execution()
    ctx.state(tuple(bs))
    if t > 0:
        # the same rotation packed into three components, whichever of its two signs it has
        for sign in (1, -1):
            q = (sign * x, sign * y, sign * z, sign * w)
            p = Helpers.pack_quaternion_to_vector3(q)
            keep = 1 if q[3] >= 0 else -1
            ctx.check(len(p) == 3 and not [1 for g, e in zip(p, q) if not (g == keep * e)], 'packed', '%r packs as %r' % (q, p))
            r = Quaternion(Vector3(X=p[0], Y=p[1], Z=p[2]).get_bytes())
            ctx.check(not [1 for g, e in zip(r.data(), q) if abs(g - keep * e) > 1e-6], 'packed', '%r packs and unpacks as %r' % (q, r.data()))


def number(s):
    try:
        return float(s)
    except ValueError:
        return None


def parse(s, ctx):
    parts = [number(x.strip()) for x in s.replace('<', '').replace('>', '').split(',')]
    good = len(parts) == 3 and None not in parts
    t = s.strip()
    if t.startswith('<') and t.endswith('>'):
        t = t[1:-1]
    # brackets elsewhere than around the numbers may be ignored or refused
    odd = '<' in t or '>' in t
    for text in (s, unicode(s)):
        try:
            got = Vector3.parse(text)
        except ValueError:
            got = None
        ctx.step()
        if not good:
            ctx.check(got is None, 'parse', '%r parses as %r' % (text, got))
        elif got is None:
            ctx.check(odd, 'parse', '%r does not parse' % text)
        else:
            holds(ctx, got, tuple(parts), 'parsed %r' % text)
            ctx.state(s)
    ctx.outcome((good, odd))


def distance(a, b, ctx):
    v, w = Vector3(X=a[0], Y=a[1], Z=a[2]), Vector3(X=b[0], Y=b[1], Z=b[2])
    d, e = Vector3.dist_squared(v, w), Vector3.dist_squared(w, v)
    want = sum([(x - y) * (x - y) for x, y in zip(a, b)])
    ctx.execution()
    ctx.step()
    ctx.state((a, b))
    ctx.check(d == e and d >= 0 and near(d, want), 'distance', 'squared distance of %r and %r is %r and %r, not %r' % (a, b, d, e, want))
    ctx.check((d == 0) == (a == b), 'distance', 'squared distance of %r and %r is %r' % (a, b, d))
    holds(ctx, v, a, 'an operand')
    holds(ctx, w, b, 'an operand')


def histories(ctx):
    """all sequences of operations on two vectors and two quaternions"""
    raw = [bytes_of(BITS[i:i + 4]) for i in (13, 14, 15)]
    vals = [tuple([num(b) for b in BITS[i:i + 4]]) for i in (13, 14, 15)]
    ops = [(o, i) for o in ('read', 'copy', 'write', 'print') for i in (0, 1)] + [('new', 0), ('set', 1)]
    for seq in itertools.product(ops, repeat=4 if not ctx.thorough else 5):
        v, q = [Vector3(), Vector3()], [Quaternion(), Quaternion()]
        m = [(0.0,) * 4] * 2
        n = 0
        for op, i in seq:
            if op == 'read':
                v[i].unpack_from_bytes('z' + raw[n % 3], 1)
                q[i].unpack_from_bytes('zz' + raw[n % 3], 2)
                m[i] = vals[n % 3]
                n += 1
            elif op == 'copy':
                v[i], q[i] = v[1 - i].copy(), q[1 - i].copy()
                m[i] = m[1 - i]
            elif op == 'write':
                v[i].unpack_from_bytes(v[1 - i].get_bytes(), 0)
                q[i].unpack_from_bytes(q[1 - i].get_bytes(), 0)
                m[i] = m[1 - i]
            elif op == 'print':
                repr(v[i]), repr(q[i]), str(v[i]), str(q[i])
            elif op == 'new':
                v[i], q[i] = Vector3(X=1, Z=n), Quaternion(W=1, Y=n)
                m[i] = None
            else:
                v[i].X, q[i].X = 2.5, 2.5
                if m[i] is not None:
                    m[i] = (2.5,) + m[i][1:]
            if m[i] is None:
                v[i].Y, q[i].X, q[i].Z = 0.0, 0.0, 0.0
                v[i].X, v[i].Z, q[i].Y, q[i].W = 1.0, float(n), float(n), 1.0
                v[i] = Vector3(X=1, Z=n)
                q[i] = Quaternion(X=1, Z=n)
                m[i] = (1.0, 0.0, float(n), 0.0)
            for j in (0, 1):
                got = v[j].data() + q[j].data()
                if got != m[j][:3] + m[j]:
                    raise Violation('history', 'after %r: %r instead of %r' % (seq, got, m[j]))
            ctx.step()
        ctx.execution()
