"""C09: what is outstanding, and what ends it."""
from mc import seq
from udpworld import World, CROWDS, crowd

OPS = [('send', 'A', 0), ('send', 'A', 1), ('send', 'B', 2), ('recv', 'A', 'handled', True, ['oldest']), ('recv', 'A', 'unhandled', False, ['newest', 'foreign']),
       ('recv', 'B', 'unknown', True, ['all', 'foreign', 'done']), ('pa', 'A', ['oldest', 'foreign']), ('pa', 'B', ['newest', 'next', 'bogus']), ('process',), ('shared', 'A', 1), ('bad', 'A', 'block', 1)]
MORE = OPS + [('recv', 'A', 'zero', False, ['all', 'all', 'bogus']), ('recv', 'B', 'handled', True, ['foreign']), ('recv', 'A', 'refused', True, ['newest']), ('recv', 'A', 'handled', True, ['done', 'next', 'bogus']),
              ('pa', 'A', ['all'], True), ('pa', 'A', ['done', 'done', 'oldest'], False, 'packetack-zero'), ('pa', 'A', ['oldest', 'oldest'], True, 'packetack', ['newest', 'foreign']), ('pa', 'B', ['foreign']),
              ('fail', 1), ('failhost', 'A'), ('send', 'A'), ('send', 'C', 0), ('shared', 'B', 0), ('mutate',), ('recv', 'C', 'handled', True, ['foreign']), ('bad', 'B', 'refused', 2), ('bad', 'A', 'unknown', 1), ('bad', 'A', 'unicode', 1), ('dup', 'A'), ('recv', 'A', 'raising', True, ['oldest']), ('recv', 'A', 'handled', True, ['oldest'], True), ('recv', 'B', 'unhandled', False, ['all'], True), ('late', 'A', 'handled', ['newest']), ('recv', 'B', 'raising', False, ['all', 'foreign'])]
SUBSCRIPTIONS = {'q': ('StartPingCheck',), 'm': ('StartPingCheck', 'PacketAck'), 'n': (), 'a': ('PacketAck', 'StartPingCheck', 'TestMessage', 'ChatFromViewer')}
CLOSING = [('process',), ('send', 'A', 1), ('pa', 'B', ['foreign', 'oldest']), ('recv', 'A', 'unhandled', True, ['oldest', 'newest']), ('process',), ('pa', 'A', ['all']), ('recv', 'B', 'handled', False, ['all'])]


# ids of both directions after long histories
BASES = [254, 65534, (1 << 24) - 2, (1 << 31) - 99]


def make(t):
    def new():
        i = int(t[1:]) if t[0] == 'i' else None
        w = World(['C09'], subscribe=SUBSCRIPTIONS.get(t, SUBSCRIPTIONS['q']), handler=t != 'x', base=None if i is None else BASES[i])
        w.closing = CLOSING
        if i is not None:
            w.do(('jump', 'A', BASES[i]))
            w.do(('jump', 'B', BASES[(i + 1) % len(BASES)]))
        return w
    return new


SUBSCRIPTIONS['x'] = ()


def cases(tier):
    for n in CROWDS:
        yield {'crowd': n}
    for n in (1, 2, 100, 254, 255, 256, 300):
        for how in ('appended', 'packetack', 'packetack-zero', 'one-by-one', 'reversed'):
            for parse in ('handled', 'unhandled'):
                yield {'many': n, 'how': how, 'parse': parse}
    for n in (600, 1100, 2100):
        for how in ('appended', 'packetack', 'reversed'):
            yield {'many': n, 'how': how, 'parse': 'unhandled'}
    for c in seq.cases(len(OPS), 4, 2, 'q'):
        yield c
    for t in 'mxa':
        for c in seq.cases(len(MORE), 3 if t == 'm' else 2, 1, t):
            yield c
    for i in range(len(BASES)):
        for c in seq.cases(len(OPS), 3 if tier == 'quick' else 4, 1, 'i%d' % i):
            yield c
    if tier != 'quick':
        for c in seq.cases(len(OPS), 5, 3, 'q'):
            yield c
        for t in 'mxa':
            for c in seq.cases(len(MORE), 4 if t == 'm' else 3, 2, t):
                yield c


def many(case, ctx):
    n = case['many']
    w = World(['C09'], subscribe=('StartPingCheck',) if case['parse'] == 'unhandled' else ('StartPingCheck', 'PacketAck'))
    for i in range(n):
        w.do(('send', 'A', i % 3))
        if i % 5 == 0:
            w.do(('send', 'B', 1))
        ctx.step()
        if n < 500:
            ctx.state(w.key())
    ids = sorted(w.hosts['A'].out)
    if case['how'] == 'reversed':
        ids.reverse()
    if case['how'] == 'one-by-one':
        chunks = [[i] for i in ids]
    else:
        chunks = [ids[i:i + 255] for i in range(0, n, 255)]
    for c in chunks:
        if case['how'] in ('packetack', 'packetack-zero'):
            w.do(('pa', 'A', c, False, case['how']))
        else:
            w.do(('recv', 'A', case['parse'], len(c) % 2 == 1, c))
        ctx.step()
        ctx.state(w.key())
    ctx.check(not w.hosts['A'].out, 'model', 'harness: all acked')
    w.finish(ctx)
    ctx.execution()
    ctx.outcome(w.key())


def run(case, ctx):
    if 'crowd' in case:
        crowd('C09', case['crowd'], ctx)
        return
    if 'many' in case:
        many(case, ctx)
        return
    seq.run(case, ctx, OPS if case['t'][0] in 'qi' else MORE, make(case['t']))
