"""C08: reliable packets are acked to their senders."""
from mc import seq
from udpworld import World, CROWDS, crowd

OPS = [('recv', 'A', 'handled'), ('recv', 'B', 'unhandled'), ('recv', 'A', 'unknown'), ('recv', 'B', 'handled', False), ('dup', 'A'), ('process',),
       ('fail', 1), ('send', 'A'), ('send', 'B', 1), ('failhost', 'A'), ('recv', 'A', 'raising'), ('recv', 'A', 'zero'), ('pa', 'A', ['all'], True)]
MORE = OPS + [('recv', 'A', 'refused'), ('recv', 'B', 'refused', False), ('recv', 'C', 'unhandled', True, []), ('dup', 'B'), ('late', 'A', 'unhandled'), ('late', 'B', 'handled', ['all']), ('failhost', 'B'), ('bad', 'A', 'block', 1), ('send', 'A', 2),
              ('recv', 'A', 'unknown', False, ['all']), ('recv', 'B', 'unhandled', True, ['all']), ('recv', 'B', 'raising', True, ['all']), ('recv', 'A', 'unhandled', False), ('fail', 2)]
SIZES = [1, 2, 3, 249, 250, 251, 254, 255, 256, 257, 499, 500, 501, 509, 510, 511, 600, 751, 1000]
CLOSING = [('process',), ('send', 'A'), ('send', 'B', 0), ('process',)]
SUBSCRIPTIONS = {'q': ('StartPingCheck',), 'm': ('StartPingCheck', 'PacketAck'), 'n': ()}


BASES = [253, 65533, (1 << 24) - 3, (1 << 31) - 3, (1 << 32) - 99]


def make(t):
    def new():
        w = World(['C08'], subscribe=SUBSCRIPTIONS.get(t, SUBSCRIPTIONS['q']), base=BASES[int(t[1:])] if t[0] == 'i' else None)
        w.closing = CLOSING
        return w
    return new


def cases(tier):
    for n in CROWDS:
        yield {'crowd': n}
    for n in SIZES:
        for kind in ('unhandled', 'handled', 'unknown'):
            for other in (0, 1, 251):
                yield {'burst': n, 'kind': kind, 'other': other}
    for n in (1025, 2049, 4100):
        yield {'burst': n, 'kind': 'unhandled', 'other': 0}
    for c in seq.cases(len(OPS), 4, 2, 'q'):
        yield c
    for c in seq.cases(len(MORE), 3, 1, 'm'):
        yield c
    for c in seq.cases(len(MORE), 2, 1, 'n'):
        yield c
    for i in range(len(BASES)):
        for c in seq.cases(len(OPS), 3 if tier == 'quick' else 4, 1, 'i%d' % i):
            yield c
    if tier != 'quick':
        for c in seq.cases(len(OPS), 5, 3, 'q'):
            yield c
        for c in seq.cases(len(MORE), 4, 2, 'm'):
            yield c


# what happens between a burst and the moment all must be acked
AFTER = [[], [('send', 'A')], [('send', 'A', 0), ('send', 'A')], [('fail', 1), ('process',)], [('fail', 1), ('send', 'A')], [('fail', 1), ('send', 'A', 2), ('process',)],
         [('failhost', 'A'), ('process',), ('failhost', 'A')], [('failhost', 'A'), ('process',), ('recv', 'A', 'handled'), ('process',), ('failhost', 'A')],
         [('burst', 'A', 7), ('send', 'B')], [('process',), ('burst', 'A', 2), ('dup', 'A')]]


def burst(case, ctx):
    # the k-th send of the ack round fails, for every k
    for after in AFTER + [[('failk', k), ('process',)] for k in range(0, case['burst'] // 250 + 2)]:
        w = World(['C08'])
        w.closing = CLOSING
        w.do(('burst', 'A', case['burst'], case['kind']))
        if case['other']:
            w.do(('burst', 'B', case['other']))
        for op in after:
            if op[0] == 'failk':
                left = [op[1]]

                def when(data, addr):
                    left[0] -= 1
                    return left[0] == -1
                w.env.fail_when = when
            else:
                w.do(op)
            ctx.step()
            ctx.state(w.key())
        w.finish(ctx)
        ctx.step(4)
        ctx.execution()
        ctx.outcome(w.key())


def run(case, ctx):
    if 'crowd' in case:
        crowd('C08', case['crowd'], ctx)
        return
    if 'burst' in case:
        burst(case, ctx)
        return
    seq.run(case, ctx, OPS if case['t'][0] in 'qi' else MORE, make(case['t']))
