"""C05: the template dictionary against an independent parser, for the embedded
template and for all small template files of a grammar; custom templates
through every component."""
import itertools
import StringIO
from mc import repo, refcodec, net
from mc.core import Violation, hexs
import codec
from pyogp.lib.base import exc
from pyogp.lib.base.message.template_dict import TemplateDictionary
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.message_manager import MessageManager
from pyogp.lib.base.settings import Settings

TYPE_STRINGS = dict([(t, 'MVT_' + t.upper()) for t in refcodec.TYPE_ORDER])
TYPE_STRINGS.update({'Fixed': 'MVT_FIXED', 'Variable': 'MVT_VARIABLE', 'LLVector3': 'MVT_LLVector3', 'LLVector3d': 'MVT_LLVector3d',
                     'LLVector4': 'MVT_LLVector4', 'LLQuaternion': 'MVT_LLQuaternion', 'LLUUID': 'MVT_LLUUID', 'BOOL': 'MVT_BOOL',
                     'IPADDR': 'MVT_IP_ADDR', 'IPPORT': 'MVT_IP_PORT'})
FREQS = ['High', 'Medium', 'Low', 'Fixed']


def same(td, templates, ctx, label, probe=600):
    def eq(what, got, want):
        if got != want:
            raise Violation(what, '%s: %s is %r instead of %r' % (label, what, got, want))
    last = {}
    for t in templates:
        last[t.name] = t
    for t in templates:
        by_name = td.get_template(t.name)
        by_num = td.get_template_by_pair(t.freq, t.number)
        if by_name is None or by_num is None:
            raise Violation('lookup', '%s: %s is not found by %s' % (label, t.name, 'name' if by_name is None else 'number'))
        ctx.check(by_name is by_num and td[t.name] is by_name, 'lookup', '%s: name and number of %s give different templates' % (label, t.name))
        x = by_name
        eq('name', x.get_name(), t.name)
        eq('frequency of ' + t.name, x.get_frequency_as_string(), t.freq.lower())
        eq('number of ' + t.name, x.get_message_number(), t.number)
        eq('number bytes of ' + t.name, x.get_message_hex_num(), hexs(t.number_bytes()).upper())
        eq('trust of ' + t.name, x.get_message_trust_as_string(), t.trust)
        eq('encoding of ' + t.name, x.get_message_encoding_as_string(), t.encoding)
        eq('deprecation of ' + t.name, x.get_deprecation_as_string(), t.deprecation)
        eq('blocks of ' + t.name, [b.get_name() for b in x.get_blocks()], [b.name for b in t.blocks])
        for g, b in zip(x.get_blocks(), t.blocks):
            where = '%s.%s' % (t.name, b.name)
            ctx.check(x.get_block(b.name) is g, 'get_block', '%s: get_block(%s)' % (label, where))
            eq('kind of ' + where, g.get_block_type_as_string(), b.kind)
            eq('count of ' + where, g.get_block_number(), b.number)
            eq('fields of ' + where, [v.get_name() for v in g.get_variables()], [v.name for v in b.vars])
            for gv, v in zip(g.get_variables(), b.vars):
                eq('type of %s.%s' % (where, v.name), gv.get_type_as_string(), TYPE_STRINGS[v.type])
                eq('size of %s.%s' % (where, v.name), gv.size, v.size)
                ctx.check(g.get_variable(v.name) is gv, 'get_variable', '%s: get_variable(%s.%s)' % (label, where, v.name))
                ctx.step()
        ctx.state(repr((t.name, t.freq, t.number, [(b.name, b.kind, [(v.name, v.type) for v in b.vars]) for b in t.blocks])))
        ctx.step()
    eq('list of messages', td.get_template_list(), [t.name for t in templates])
    known = set([(t.freq, t.number) for t in templates])
    for f in FREQS:
        for n in range(-1, probe):
            if (f, n) not in known and td.get_template_by_pair(f, n) is not None:
                raise Violation('phantom', '%s: %s %d is %s' % (label, f, n, td.get_template_by_pair(f, n).name))
            ctx.step()
    for n in ['', 'NoSuchMessage', templates[0].name.lower(), templates[0].name + 'X', 'comment', 'Single']:
        ctx.check(td.get_template(n) is None, 'phantom', '%s: %r is found' % (label, n))


# ------------------------------------------------------------ small files

def var(name, ty, size=None):
    return refcodec.Var(name, ty, size or refcodec.FIXED_SIZES[ty])


def block(name, kind, vars, number=0):
    b = refcodec.Block(name, kind, number)
    b.vars = vars
    return b


ALL_TYPES = [('Fixed', n) for n in (1, 4, 16, 32, 100, 255, 256, 999, 1000, 1024, 1200, 10000, 65535)] + [('Variable', 1), ('Variable', 2), ('Variable', 4)] + [
    (t, None) for t in refcodec.TYPE_ORDER if t not in ('Fixed', 'Variable')]
KINDS = [('Single', 0), ('Multiple', 1), ('Multiple', 4), ('Multiple', 255), ('Variable', 0)]
NUMBERS = {'High': [1, 29, 254], 'Medium': [1, 18, 254], 'Low': [1, 255, 256, 423, 65000], 'Fixed': [251, 255, 250]}

LAYOUTS = ['plain', 'comments', 'spaces', 'blank', 'crlf', 'noversion', 'nonewline', 'trailing', 'hex']


def layout(text, how, t=None):
    lines = text.split('\n')
    if how == 'comments':
        out = []
        for l in lines:
            out += ['// comment { not a block }', l, '\t// { Name Low 7 Trusted Zerocoded', '  // Single 3', '//{', '// }', '//']
        return '\n'.join(out)
    if how == 'spaces':
        return text.replace('\t', '    ').replace('  ', '  \t')
    if how == 'blank':
        return text.replace('\n', '\n\n  \n\t\n')
    if how == 'crlf':
        return text.replace('\n', '\r\n')
    if how == 'noversion':
        return text.replace('version 2.0', '// no version')
    if how == 'nonewline':
        return text.rstrip('\n')
    if how == 'trailing':
        out = []
        for l in lines:
            if '{' in l and '}' in l or 'Trusted' in l:
                l += ' // trailing Word 12 comment'
            elif '\t' in l and ('Single' in l or 'Multiple' in l or 'Variable' in l):
                l += '\t// comment'
            out.append(l)
        return '\n'.join(out)
    return text


def message(name, freq, num, trust='NotTrusted', enc='Unencoded', dep='NotDeprecated', blocks=None):
    t = refcodec.Template(name, freq, num, trust, enc, dep)
    t.blocks = blocks if blocks is not None else [block('Blk', 'Single', [var('A', 'U8'), var('B', 'Variable', 2)])]
    return t


def families(thorough):
    """lists of (label, templates, layout)"""
    out = []
    for f in FREQS:
        for n in NUMBERS[f]:
            for trust in ('Trusted', 'NotTrusted'):
                for enc in ('Unencoded', 'Zerocoded'):
                    for dep in ('NotDeprecated', 'Deprecated', 'UDPDeprecated', 'UDPBlackListed'):
                        for ly in (LAYOUTS if thorough else LAYOUTS[:2]):
                            out.append(('header', [message('Custom', f, n, trust, enc, dep)], ly))
    for ly in LAYOUTS:
        for f in FREQS:
            out.append(('layout', [message('Custom', f, 5, blocks=[block('BlkA', 'Multiple', [var('A', 'U8')], 2), block('BlkB', 'Variable', [var('V', 'Variable', 1), var('F', 'Fixed', 3)])]),
                                   message('Other', f, 6, 'Trusted', 'Zerocoded', 'Deprecated')], ly))
    for ty, sz in ALL_TYPES:
        for k, num in KINDS:
            if sz > 300 and num > 4:
                continue
            for ly in (LAYOUTS if thorough else ('plain', 'trailing', 'spaces')):
                out.append(('types', [message('Custom', 'Low', 300, blocks=[block('BlkA', k, [var('First', ty, sz), var('Second', 'U8'), var('Third', ty, sz)], num)])], ly))
    for ka in KINDS:
        for kb in KINDS:
            for kc in [None] + (KINDS if thorough else []):
                bs = [block('Zeta', ka[0], [var('Q', 'U16'), var('A', 'U8')], ka[1]), block('Alpha', kb[0], [var('A', 'U8')], kb[1])]
                if kc:
                    bs.append(block('Mid', kc[0], [var('Z', 'Variable', 1)], kc[1]))
                out.append(('kinds', [message('Custom', 'High', 9, blocks=bs)], 'plain'))
    # several messages: orders, numbers shared over frequencies, empty ones
    ms = [message('MsgA', 'High', 7), message('MsgB', 'Medium', 7, blocks=[]), message('MsgC', 'Low', 7, 'Trusted'), message('MsgD', 'Fixed', 7),
          message('MsgE', 'Low', 8, enc='Zerocoded', dep='UDPDeprecated', blocks=[])]
    for n in range(1, 5):
        for p in itertools.permutations(ms, n):
            out.append(('several', list(p), 'comments' if n == 2 else 'plain'))
    out.append(('empty blocks', [message('Custom', 'Low', 3, blocks=[block('BlkA', 'Single', []), block('BlkB', 'Variable', [var('A', 'U8')])])], 'plain'))
    return out


def cases(tier):
    yield {'k': 'embedded'}
    yield {'k': 'embedded-comments'}
    n = len(families(tier == 'thorough'))
    for i in range(0, n, 8):
        yield {'k': 'files', 'i': i, 'n': min(n, i + 8), 'th': tier == 'thorough'}
    for i in range(len(versions())):
        yield {'k': 'rewritten', 'i': i, 'd': 3 if tier == 'quick' else 4}
    for c in ('serializer', 'deserializer', 'dispatcher', 'manager'):
        for i in range(len(CUSTOMS)):
            yield {'k': 'custom', 'c': c, 'i': i}


# templates that contradict the embedded one
def customs():
    redefined = message('PacketAck', 'Fixed', 0xfb, blocks=[block('Packets', 'Variable', [var('ID', 'U32')])])
    return [
        [message('TestMessage', 'Medium', 77, blocks=[block('TestBlock1', 'Variable', [var('Test1', 'U16'), var('Extra', 'Variable', 1)])])],
        [message('ChatFromViewer', 'Low', 80, blocks=[block('ChatData', 'Single', [var('Channel', 'S32'), var('Message', 'Variable', 2)])]), redefined],
        [message('BrandNew', 'High', 1), message('StartPingCheck', 'High', 2, blocks=[block('Ping', 'Multiple', [var('PingID', 'U16')], 2)]), redefined],
        [message('Renumbered', 'Low', 1), message('TestMessage', 'Low', 2), message('UseCircuitCode', 'Fixed', 3, blocks=[])],
    ]


CUSTOMS = range(4)


def run(case, ctx):
    k = case['k']
    if k == 'embedded':
        for i in range(2):
            same(TemplateDictionary(), repo.full().templates, ctx, 'embedded template', 66000)
            ctx.execution()
        ctx.sample('%d messages' % len(repo.full().templates))
    elif k == 'embedded-comments':
        for ly in LAYOUTS:
            if ly in ('spaces', 'hex'):
                continue
            p = repo.template_file(layout(repo.full_text(), ly) if ly != 'trailing' else layout(codec.template_text(repo.full().templates), ly), 'e.msg')
            td = TemplateDictionary(message_template=open(p))
            same(td, repo.full().templates, ctx, 'embedded template, layout ' + ly)
            ctx.execution()
    elif k == 'files':
        fs = families(case['th'])
        for i in range(case['i'], case['n']):
            label, ts, ly = fs[i]
            text = layout(codec.template_text(ts), ly)
            ctx.case = dict(case, i=i, n=i + 1)
            f = open(repo.template_file(text, 'c05.msg'))
            td = TemplateDictionary(message_template=f)
            same(td, ts, ctx, 'file %d (%s, %s)' % (i, label, ly))
            # the same file again, having been read to its end
            same(TemplateDictionary(message_template=f), ts, ctx, 'file %d read again' % i)
            ctx.execution(2)
            ctx.outcome(text)
            usable(ts, f, ctx, label)
            f.close()
            if i % 211 == 3:
                ctx.sample(text[:300])
    elif k == 'rewritten':
        rewritten(case, ctx)
    else:
        custom(case, ctx)


def versions():
    """texts that one file may hold one after the other, most of one length"""
    return [[message('Thing', 'Low', 7)], [message('Thing', 'Low', 8)], [message('Gniht', 'Low', 7)],
            [message('Thing', 'Low', 7, blocks=[block('Blk', 'Single', [var('A', 'S8'), var('B', 'Variable', 2)])])],
            [message('Thing', 'Low', 7, blocks=[block('Lbk', 'Single', [var('A', 'U8'), var('B', 'Variable', 2)])]), message('More', 'High', 7)]]


def rewritten(case, ctx):
    """every sequence of contents of one file, read through one handle or through new ones; what was
    read before is not affected"""
    vs = versions()
    for rest in itertools.product(range(len(vs)), repeat=case['d'] - 1):
        for how in ('same handle', 'new handle', 'StringIO'):
            kept = []
            if how == 'StringIO':
                f = StringIO.StringIO()
            else:
                path = repo.template_file('', 'rw.msg')
                f = open(path, 'r+')
            for v in (case['i'],) + rest:
                text = codec.template_text(vs[v])
                if how == 'new handle':
                    f.close()
                    repo.template_file(text, 'rw.msg')
                    f = open(path, 'r+')
                else:
                    f.seek(0)
                    f.truncate()
                    f.write(text)
                    f.flush()
                kept.append((v, TemplateDictionary(message_template=f)))
                for w, td in kept:
                    same(td, vs[w], ctx, 'file rewritten (%s), version %d' % (how, w), 12)
                usable(vs[v], f, ctx, 'file rewritten (%s), version %d' % (how, v))
            ctx.execution()
            ctx.outcome((case['i'], rest))
            f.close()


def parse_all():
    s = Settings()
    s.ENABLE_DEFERRED_PACKET_PARSING = False
    return s


def usable(ts, f, ctx, label):
    ser = UDPMessageSerializer(message_template=f)
    des = UDPMessageDeserializer(settings=parse_all(), message_template=f)
    for t in ts:
        blocks = codec.fill(t, dict([(b.name, 2) for b in t.blocks if b.kind == 'Variable']))
        m = codec.to_message(t, blocks)
        m.packet_id = 5
        want = refcodec.encode(t, codec.plain_blocks(t, blocks), 0, 5)
        got = ser.serialize(m)
        ctx.check(got == want, 'encoding', '%s: %s encoded as %s instead of %s' % (label, t.name, hexs(got or ''), hexs(want)))
        if codec.empty(t, blocks):
            continue
        if [b for b in t.blocks if not b.vars]:
            continue
        p = des.deserialize(want)
        codec.compare(t, codec.plain_blocks(t, blocks), p, label, ctx)
        ctx.step(2)
        ctx.execution()


def custom(case, ctx):
    ts = customs()[case['i']]
    f = open(repo.template_file('\n// x\n' + codec.template_text(ts), 'cu.msg'))
    env = net.new_env()
    s = parse_all()
    dic = refcodec.Dictionary(ts)
    host = Host(('10.0.0.2', 2000))
    enc = dec = None
    log = []
    if case['c'] == 'serializer':
        ser = UDPMessageSerializer(message_template=f)

        def enc(m):
            m.packet_id = 1
            return ser.serialize(m)
    elif case['c'] == 'deserializer':
        dec = UDPMessageDeserializer(settings=s, message_template=f).deserialize
    elif case['c'] == 'dispatcher':
        d = UDPDispatcher(settings=s, message_template=f)
    else:
        mm = MessageManager(host, settings=s, message_template=f)
        d = mm.udp_dispatcher
    if case['c'] in ('dispatcher', 'manager'):
        def enc(m):
            env.take()
            if case['c'] == 'manager':
                mm.send_udp_message(m)
            else:
                d.send_message(m, host)
            out = env.take()
            return out[-1][0] if out else None

        def dec(data):
            return d.receive_check(host, data, len(data))
        # unknown to the custom template: nothing is sent or delivered
    for rnd in range(2):
        for t in ts:
            blocks = codec.fill(t, dict([(b.name, 2) for b in t.blocks if b.kind == 'Variable']))
            plain = codec.plain_blocks(t, blocks)
            if enc:
                data = enc(codec.to_message(t, blocks))
                ctx.check(data is not None, 'encoding', '%s: %s not encoded' % (case['c'], t.name))
                r = refcodec.decode(dic, data)
                want = refcodec.encode(t, plain, r.flags, r.pid, r.acks)
                ctx.check(data == want, 'encoding', '%s: %s encoded as %s instead of %s' % (case['c'], t.name, hexs(data), hexs(want)))
                ctx.step()
            if dec:
                p = dec(refcodec.encode(t, plain, 0, 9))
                codec.compare(t, plain, p, case['c'], ctx)
                ctx.step()
            ctx.state((case['c'], t.name, case['i']))
        if dec:
            # a message of the embedded template only
            for n in ('AgentPause', 'RegionHandshake'):
                t = repo.full().by_name[n]
                if dic.by_number.get(t.number_bytes()) is None:
                    try:
                        p = dec(refcodec.encode(t, codec.plain_blocks(t, codec.fill(t)), 0, 10))
                    except exc.MessageDeserializationError:
                        p = None
                    ctx.check(p is None, 'phantom', '%s: %s decoded with a template that has no such message' % (case['c'], n))
        ctx.execution()
        ctx.outcome((case['c'], case['i']))
    # an independent component with the embedded template is unaffected
    same(TemplateDictionary(), repo.full().templates, ctx, 'embedded template after a custom one', 10)
