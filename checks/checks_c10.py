"""C10: resends."""
from mc import seq
from udpworld import World, CROWDS, crowd

OPS = [('send', 'A', 1), ('send', 'A', 2), ('send', 'B', 1), ('shared', 'A', 1), ('shared', 'B', 2), ('mutate',), ('process',), ('recv', 'A', 'handled', True, ['oldest']),
       ('pa', 'A', ['newest', 'foreign']), ('fail', 1), ('recv', 'A', 'unhandled')]
MORE = OPS + [('send', 'A', 0), ('send', 'B', 3), ('send', 'A'), ('shared', 'A'), ('shared', 'A', 0), ('recv', 'B', 'unknown', True, ['oldest']), ('recv', 'B', 'handled', False, ['foreign', 'next']),
              ('pa', 'B', ['all'], True), ('failhost', 'A'), ('send', 'C', 1), ('bad', 'A', 'block', 2), ('bad', 'A', 'refused', 1), ('dup', 'A'), ('fail', 2), ('recv', 'C', 'zero', True, ['foreign']), ('pa', 'C', ['foreign']), ('recv', 'A', 'raising', False, ['oldest'])]
CLOSING = [('process',), ('recv', 'A', 'handled'), ('process',), ('shared', 'B'), ('process',), ('pa', 'A', ['oldest']), ('process',), ('process',)]


# ids of both directions after long histories
BASES = [254, 65534, (1 << 24) - 2, (1 << 31) - 99]


def make(i=None):
    w = World(['C10'], base=None if i is None else BASES[i])
    w.closing = CLOSING
    if i is not None:
        w.do(('jump', 'A', BASES[i]))
        w.do(('jump', 'B', BASES[(i + 1) % len(BASES)]))
    return w


def cases(tier):
    for n in CROWDS:
        yield {'crowd': n}
    for n in range(0, 12):
        for mix in range(6):
            yield {'retries': n, 'mix': mix}
    for n in (20, 100, 257, 600, 1100):
        for spread in (1, 3):
            yield {'many': n, 'spread': spread}
    for c in seq.cases(len(OPS), 4, 2, 'q'):
        yield c
    for c in seq.cases(len(MORE), 3, 1, 'm'):
        yield c
    for i in range(len(BASES)):
        for c in seq.cases(len(OPS), 3 if tier == 'quick' else 4, 1, 'i%d' % i):
            yield c
    if tier != 'quick':
        for c in seq.cases(len(OPS), 5, 3, 'q'):
            yield c
        for c in seq.cases(len(MORE), 4, 2, 'm'):
            yield c


def many(case, ctx):
    """many packets outstanding at once, some of them acknowledged between the rounds"""
    w = make()
    for i in range(case['many']):
        w.do(('send', 'A', 1 + i % case['spread']))
        if i % 7 == 0:
            w.do(('send', 'B', 2))
        ctx.step()
    for i in range(case['spread'] + 2):
        w.do(('process',))
        ctx.step()
        ctx.state(w.key())
        for j in range(3):
            w.do(('pa', 'A', ['oldest', 'newest']))
    w.finish(ctx)
    ctx.execution()
    ctx.outcome(w.key())


def rounds(case, ctx):
    """n retries, acked after round k by each kind of ack, with other traffic"""
    n = case['retries']
    for k in range(n + 3):
        for ack in (('pa', 'A', ['oldest']), ('recv', 'A', 'handled', True, ['oldest']), ('recv', 'A', 'unknown', False, ['all']), ('pa', 'B', ['foreign']), ('dup', 'A'), ('fail', 1), ('failhost', 'A')):
            w = make()
            w.closing = [('process',)] * (n + 3)
            mix = case['mix']
            if mix & 1:
                w.do(('send', 'B', 2))
                w.do(('recv', 'A', 'unhandled'))
            w.do(('shared', 'A', n))
            if mix & 2:
                w.do(('mutate',))
                w.do(('shared', 'B', 1))
            if mix >= 4:
                w.do(('shared', 'A', 1))
            for i in range(k):
                w.do(('process',))
                ctx.step()
                ctx.state(w.key())
            w.do(ack)
            w.finish(ctx)
            ctx.step(n + 4)
            ctx.execution()
            ctx.outcome(w.key())


def run(case, ctx):
    if 'crowd' in case:
        crowd('C10', case['crowd'], ctx)
        return
    if 'many' in case:
        many(case, ctx)
        return
    if 'retries' in case:
        rounds(case, ctx)
        return
    t = case['t']
    seq.run(case, ctx, OPS if t[0] in 'qi' else MORE, make if t[0] != 'i' else lambda: make(int(t[1:])))
