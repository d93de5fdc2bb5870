"""C26: every code of quantised numbers over many ranges; byte conversions."""
import binascii
import itertools
from mc import repo
from mc.core import Violation
from pyogp.lib.base.helpers import Helpers
from pyogp.lib.base.exc import DataParsingError

RANGES = [(0.0, 1.0), (-1.0, 1.0), (-256.0, 256.0), (-64, 64), (0, 4096), (-64.0, 320.0), (5.0, 10.0), (-10.0, -5.0), (-0.001, 0.001), (0, 1),
          (-1, 0), (-3.0, 1e6), (-1e-12, 1.0), (0.5, 0.5), (0, 0), (-128, 127), (-1.5, 4.25), (0.0, 255.0), (0.0, 65535.0), (-255, 255), (0, 65535), (-65535.0, 65535.0), (-255, 0)]
OFFSETS = [(0, 0), (1, 0), (3, 2), (17, 0)]
HEX = '0123456789abcdefABCDEF gG-\xff\n'


def cases(tier):
    for r in range(len(RANGES)):
        yield {'kind': 'u8', 'r': r}
        for part in range(8):
            yield {'kind': 'u16', 'r': r, 'part': part}
    for hi in range(0, 256, 16):
        yield {'kind': 'pairs', 'hi': hi}
    for i in range(len(HEX)):
        yield {'kind': 'hex', 'i': i, 'd': 4 if tier == 'quick' else 5}
    yield {'kind': 'lengths'}
    for i in range(4):
        yield {'kind': 'ints', 'i': i}


def near(a, b, scale):
    return abs(a - b) <= 1e-9 * scale


def decode(f, code, size, lower, upper, ctx):
    """all offsets give the value expected"""
    full = 256 ** size - 1
    exact = lower + float(code) / full * (upper - lower)
    step = (upper - lower) / float(full)
    scale = max(abs(lower), abs(upper), 1e-300)
    data = chr(code & 255) + (chr(code >> 8) if size == 2 else '')
    first = None
    for before, after in OFFSETS if size == 1 or code % 16 == 5 or code < 3 else OFFSETS[2:3]:
        got = f('\xa5' * before + data + '\x5a' * after, before, lower, upper)
        ctx.step()
        if first is None:
            first = got
        ctx.check(type(got) is float and got == first, 'offset', 'code %d in %r is %r at offset %d and %r elsewhere' % (code, (lower, upper), got, before, first))
    what = 'code %d of %d in %r decodes to %r' % (code, full, (lower, upper), got)
    if abs(exact) < step * (1 - 1e-6) - 1e-9 * scale:
        ctx.check(got == 0.0, 'zero', what + ', closer to zero than one step')
    elif abs(exact) > step * (1 + 1e-6) + 1e-9 * scale:
        ctx.check(near(got, exact, scale), 'value', what + ', not %r' % exact)
    elif firm(code, full, lower, upper):
        ctx.check(near(got, exact, scale), 'value', what + ', a whole step from zero')
    else:
        ctx.check(got == 0.0 or near(got, exact, scale), 'value', what + ', not %r' % exact)
    if code == 0 and abs(lower) > step * 1.001:
        ctx.check(near(got, lower, scale), 'bound', what)
    if code == full and abs(upper) > step * 1.001:
        ctx.check(near(got, upper, scale), 'bound', what)
    return got


def firm(code, full, lower, upper):
    """a value of exactly one step, however it is calculated"""
    d, m = float(upper) - lower, float(full)
    values = [abs(v + lower) for v in (code * (1 / m) * d, code / m * d, code * d / m, code * (d / m), code * (d * (1 / m)))]
    return min(values) >= max(d / m, d * (1 / m)) > 0


def run(case, ctx):
    k = case['kind']
    if k in ('u8', 'u16'):
        lower, upper = RANGES[case['r']]
        if k == 'u8':
            size, codes, f = 1, range(256), Helpers.packed_u8_to_float
        else:
            size, f = 2, Helpers.packed_u16_to_float
            lo = case['part'] * 8192
            codes = range(max(0, lo - 1), lo + 8192)
        last = None
        for c in codes:
            got = decode(f, c, size, lower, upper, ctx)
            if last is not None:
                ctx.check(got >= last, 'order', 'codes %d and %d in %r decode to %r and %r' % (c - 1, c, (lower, upper), last, got))
            last = got
            ctx.state((size, case['r'], c))
            ctx.execution()
        ctx.outcome((k, case['r']))
        ctx.sample({'range': [lower, upper], 'codes': len(codes)})
    elif k == 'pairs':
        for a in range(case['hi'], case['hi'] + 16):
            convert(chr(a), ctx)
            for b in range(256):
                convert(chr(a) + chr(b), ctx)
    elif k == 'lengths':
        for n in range(0, 200):
            convert('\xff' * n, ctx)
            convert('\x00' * n, ctx)
            convert((''.join(map(chr, range(256))))[:n + 50][::-1], ctx)
    elif k == 'hex':
        for rest in itertools.product(HEX[::2] if not ctx.thorough else HEX, repeat=case['d'] - 2):
            for last in ('', HEX[5], 'x'):
                for mid in ('', 'e'):
                    unhex(HEX[case['i']] + mid + ''.join(rest) + last, ctx)
        unhex('', ctx)
        unhex(HEX[case['i']], ctx)
    else:
        i = case['i']
        values = set()
        for b in range(256):
            values.add(b << (8 * i))
            for c in (0, 1, 127, 128, 255):
                for j in range(4):
                    values.add((b << (8 * i)) | (c << (8 * j)))
                    values.add(0xffffffff ^ (b << (8 * i)) ^ (c << (8 * j)))
        if i == 0:
            values.update(range(65536))
        for v in values:
            ctx.execution()
            ctx.step()
            ctx.state(('int', v))
            got = Helpers.int_to_bytes(v)
            ctx.check(type(got) is str and len(got) == 4, 'int', '%d gives %r' % (v, got))
            back = sum([ord(c) << (8 * j) for j, c in enumerate(got)])
            ctx.check(back == v, 'int', '%d gives %r, which is %d' % (v, got, back))
            if v >= 2 ** 31:
                ctx.check(Helpers.int_to_bytes(v - 2 ** 32) == got, 'int', '%d gives %r' % (v - 2 ** 32, Helpers.int_to_bytes(v - 2 ** 32)))


def convert(s, ctx):
    ctx.execution()
    ctx.step(4)
    ctx.state(s)
    h = Helpers.bytes_to_hex(s)
    ctx.check(h == ' '.join(['%02X' % ord(c) for c in s]), 'hex', '%r in hex is %r' % (s, h))
    for t in (h.replace(' ', ''), h.replace(' ', '').lower()):
        ctx.check(Helpers.hex_to_ascii(t) == s, 'hex', '%r in hex is %r, and back %r' % (s, t, Helpers.hex_to_ascii(t)))
    b = Helpers.bytes_to_base64(s)
    ctx.check(b.endswith('\n') and len(b) == (len(s) + 2) // 3 * 4 + 1, 'base64', '%r in base64 is %r' % (s, b))
    ctx.check(binascii.a2b_base64(b) == s, 'base64', '%r in base64 is %r' % (s, b))
    if len(s) <= 45:
        a = Helpers.bytes_to_ascii(s)
        ctx.check(binascii.a2b_uu(a) == s, 'text', '%r as text is %r' % (s, a))


def unhex(s, ctx):
    ok = len(s) % 2 == 0 and not [c for c in s if c not in '0123456789abcdefABCDEF']
    ctx.execution()
    ctx.step()
    try:
        got = Helpers.hex_to_ascii(s)
    except DataParsingError:
        got = None
    if ok:
        want = ''.join([chr(int(s[i:i + 2], 16)) for i in range(0, len(s), 2)])
        ctx.check(got == want, 'hex', '%r from hex is %r' % (s, got))
    else:
        ctx.check(got is None, 'hex', '%r from hex is %r' % (s, got))
    ctx.outcome((ok, len(s)))
