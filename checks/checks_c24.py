"""C24: UUIDs over a basis of bit patterns, and histories of operations on several."""
import itertools
import uuid
from mc import repo
from mc.core import Violation
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion

ONES = 2 ** 128 - 1
BITS = [1 << i for i in range(128)]
SPECIAL = [0, ONES, ONES - 1, 1 << 127, 0x12345678123456789abcdef012345678, 0x00112233445566778899aabbccddeeff,
           int('ff00' * 8, 16), int('00ff' * 8, 16), int('a5' * 16, 16), int('0' * 15 + '1' * 17, 16), (1 << 64) - 1, ONES ^ ((1 << 64) - 1),
           int('00000000000040008000000000000000', 16), int('6ba7b8109dad11d180b400c04fd430c8', 16), 2 ** 32 - 1, (2 ** 32 - 1) << 96]
BYTES = [0xff << (8 * i) for i in range(16)] + [0x80 << (8 * i) for i in range(16)] + [0x0a << (8 * i) for i in range(16)]
ALL = sorted(set(BITS + SPECIAL + BYTES))
OTHERS = [None, 0, 1, '', 'x', '00000000-0000-0000-0000-000000000000', u'', (), [], {}, 1.5, True, object(), UUID, Vector3(), Quaternion(), Exception()]


def text(n):
    h = '%032x' % n
    return '%s-%s-%s-%s-%s' % (h[:8], h[8:12], h[12:16], h[16:20], h[20:])


def raw(n):
    return ''.join([chr((n >> (8 * i)) & 255) for i in range(15, -1, -1)])


def value(u):
    return int(str(u).replace('-', ''), 16)


OPS = [(o, i) for o in ('random', 'copy', 'set', 'text', 'xor') for i in (0, 1)] + [('swap', 0), ('new', 0), ('key', 0)]


def cases(tier):
    q = tier == 'quick'
    n = 16
    for i in range(n):
        yield {'kind': 'one', 'part': [i, n]}
        yield {'kind': 'pairs', 'part': [i, n]}
        yield {'kind': 'triples', 'part': [i, n], 'size': 24 if q else 60}
    yield {'kind': 'sets'}
    for p in itertools.product(range(len(OPS)), repeat=2):
        yield {'kind': 'seq', 'p': list(p), 'd': 4 if q else 5}


def is_(ctx, u, n, what):
    """u is the UUID with the 128 bits n"""
    ctx.step()
    ctx.check(isinstance(u, UUID), 'type', '%s is %r' % (what, u))
    ctx.check(str(u) == text(n) and repr(u) == text(n), 'text', '%s prints as %s, not %s' % (what, u, text(n)))
    ctx.check(u.get_bytes() == raw(n) and type(u.get_bytes()) is str, 'bytes', '%s has bytes %r, not %r' % (what, u.get_bytes(), raw(n)))
    ctx.check(u.data() == uuid.UUID(int=n) and u() == uuid.UUID(int=n), 'data', '%s holds %s, not %s' % (what, u.data(), text(n)))


def related(ctx, a, b, equal, what):
    ctx.step()
    r = (a == b, b == a, a != b, b != a)
    ctx.check(r == (equal, equal, not equal, not equal) and [type(x) for x in r] == [bool] * 4, 'equality',
              '%s: ==, == reversed, !=, != reversed gave %r' % (what, r))
    if equal:
        ctx.check(hash(a) == hash(b), 'hash', '%s: equal with hashes %s and %s' % (what, hash(a), hash(b)))


def run(case, ctx):
    k = case['kind']
    if k == 'one':
        i, m = case['part']
        for n in ALL[i::m]:
            one(n, ctx)
        ctx.sample({'uuid': text(ALL[i])})
    elif k == 'pairs':
        i, m = case['part']
        us = [UUID(bytes=raw(n)) for n in ALL]
        vs = [UUID(text(n)) for n in ALL]
        for x in range(i, len(ALL), m):
            for y in range(len(ALL)):
                related(ctx, us[x], vs[y], x == y, '%s and %s' % (us[x], vs[y]))
                ctx.execution()
                w = us[x] ^ vs[y]
                ctx.check(w.get_bytes() == raw(ALL[x] ^ ALL[y]), 'xor', '%s ^ %s = %s' % (us[x], vs[y], w))
                ctx.check(type(w) is UUID and w is not us[x] and w is not vs[y], 'xor', 'xor gave %r' % (w,))
                if y % 8 == 0:
                    ctx.state((x, y))
            is_(ctx, us[x], ALL[x], 'an operand of xor')
    elif k == 'triples':
        i, m = case['part']
        few = (SPECIAL + BYTES[::5] + BITS[::9])[:case['size']]
        us = [UUID(text(n)) for n in few]
        for x in range(i, len(few), m):
            for y, z in itertools.product(range(len(few)), repeat=2):
                a, b, c = us[x], us[y], us[z]
                ctx.execution()
                ctx.step()
                ctx.state((few[x], few[y], few[z]))
                ctx.check((a ^ b) ^ c == a ^ (b ^ c), 'xor', 'not associative: %s %s %s' % (a, b, c))
                ctx.check(((a ^ b) ^ c).get_bytes() == raw(few[x] ^ few[y] ^ few[z]), 'xor', '%s ^ %s ^ %s' % (a, b, c))
                if z == 0:
                    ctx.check(a ^ b == b ^ a, 'xor', 'not commutative: %s %s' % (a, b))
                    ctx.check((a ^ b) ^ b == a, 'xor', 'not self-inverse: %s %s' % (a, b))
        for x in range(len(few)):
            is_(ctx, us[x], few[x], 'an operand of xor')
    elif k == 'sets':
        us = [UUID(bytes=raw(n)) for n in ALL] + [UUID(text(n)) for n in ALL] + [UUID(text(n)).copy() for n in ALL]
        ctx.check(len(set(us)) == len(ALL), 'sets', 'a set of %d values has %d' % (len(ALL), len(set(us))))
        d = dict([(u, value(u)) for u in us])
        ctx.check(len(d) == len(ALL), 'sets', 'a dictionary with %d keys has %d' % (len(ALL), len(d)))
        for n in ALL:
            u = UUID(text(n).upper())
            ctx.execution()
            ctx.step()
            ctx.check(d.get(u) == n and u in d and u in us and us.index(u) == ALL.index(n) and us.count(u) == 3, 'sets', '%s is not found' % u)
            e = dict(d)
            del e[u]
            ctx.check(len(e) == len(ALL) - 1 and u not in e, 'sets', '%s cannot be removed' % u)
        ctx.check(set(us[:50]) & set(us[len(ALL) + 25:len(ALL) + 80]) == set(us[25:50]), 'sets', 'intersection')
    else:
        for rest in itertools.product(range(len(OPS)), repeat=case['d'] - len(case['p'])):
            sequence(list(case['p']) + list(rest), ctx)


def one(n, ctx):
    t = text(n)
    forms = [t, t.upper(), unicode(t), '{%s}' % t, 'urn:uuid:%s' % t, t.replace('-', '')]
    us = [UUID(f) for f in forms] + [UUID(string=t)]
    for off in range(20):
        for tail in range(0, 20, 3):
            buf = 'p' * off + raw(n) + '\xff' * tail
            us.append(UUID(bytes=buf, offset=off))
            u = UUID(text(ONES ^ n))
            u.unpack_from_bytes(buf, off)
            us.append(u)
            ctx.execution()
            ctx.state((n, off))
    us.append(UUID(bytes=raw(n)))
    first = us[0]
    for u in us:
        is_(ctx, u, n, text(n))
        related(ctx, first, u, True, t)
        v = UUID(bytes='ab' + u.get_bytes() + 'c', offset=2)
        is_(ctx, v, n, 'bytes of %s' % t)
        is_(ctx, UUID(str(u)), n, 'text of %s' % t)
    related(ctx, first, first, True, t)
    for o in OTHERS + [t, uuid.UUID(int=n), raw(n), n]:
        r = (first == o, first != o)
        ctx.step()
        ctx.check(r == (False, True), 'equality', '%s compared with %r gave ==, != %r' % (t, o, r))
        ctx.check(o not in [first] or o is first, 'equality', '%r is in [%s]' % (o, t))
    c = first.copy()
    is_(ctx, c, n, 'a copy of %s' % t)
    ctx.check(c is not first, 'copy', 'copy gave the same object')
    c.unpack_from_bytes(raw(ONES ^ n), 0)
    is_(ctx, first, n, 'the original of a changed copy')
    is_(ctx, c, ONES ^ n, 'a changed copy')
    related(ctx, first, c, False, t)
    first.random()
    if n:
        is_(ctx, first, n, 'a randomised %s' % t)
    else:
        ctx.check(value(first) != 0, 'random', 'randomising a null UUID gave null')


def sequence(seq, ctx):
    """two UUIDs against their 128 bits"""
    u = [UUID(), UUID()]
    m = [0, 0]
    keys = {}
    serial = [0]
    for i, s in enumerate(seq):
        op, x = OPS[s]
        y = 1 - x
        if op == 'random':
            u[x].random()
            if m[x] == 0:
                m[x] = value(u[x])
                if not m[x]:
                    raise Violation('random', 'randomising a null UUID gave null')
        elif op == 'copy':
            u[x] = u[y].copy()
            m[x] = m[y]
        elif op == 'set':
            serial[0] += 1
            u[x].unpack_from_bytes('xy' + raw(SPECIAL[4] + serial[0]) + 'z', 2)
            m[x] = SPECIAL[4] + serial[0]
        elif op == 'text':
            u[x] = UUID(str(u[y]))
            m[x] = m[y]
        elif op == 'xor':
            u[x] = u[x] ^ u[y]
            m[x] = m[x] ^ m[y]
        elif op == 'swap':
            u.reverse()
            m.reverse()
        elif op == 'new':
            u[x] = UUID()
            m[x] = 0
        elif op == 'key':
            keys[u[0].copy()] = m[0]
        if not (u[0].get_bytes() == raw(m[0]) and u[1].get_bytes() == raw(m[1]) and (u[0] == u[1]) == (m[0] == m[1])
                and (u[0] != u[1]) == (m[0] != m[1])):
            ctx.case = {'kind': 'seq', 'p': seq[:i + 1], 'd': i + 1, 'ops': [OPS[j] for j in seq[:i + 1]]}
            raise Violation('history', 'have %s and %s instead of %s and %s' % (u[0], u[1], text(m[0]), text(m[1])))
        ctx.step()
    for j in (0, 1):
        if keys.get(u[j]) != (m[j] if m[j] in keys.values() else None):
            ctx.case = {'kind': 'seq', 'p': seq, 'd': len(seq), 'ops': [OPS[j] for j in seq]}
            raise Violation('history', 'looking up %s gave %r' % (u[j], keys.get(u[j])))
    is_(ctx, UUID(), 0, 'a new UUID')
    ctx.execution()
    ctx.state(tuple(seq))
