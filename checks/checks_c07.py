"""C07: packet ids."""
import itertools
from mc import seq
from udpworld import World, CROWDS, crowd

OPS = [('send', 'A'), ('send', 'A', 2), ('send', 'B', 1), ('send', 'C'), ('recv', 'A', 'handled'), ('recv', 'B', 'unhandled'), ('process',), ('fail', 1),
       ('bad', 'A', 'block', 1), ('shared', 'A', 1), ('shared', 'B'), ('pa', 'A', ['oldest'])]
MORE = OPS + [('failhost', 'A'), ('mutate',), ('fail', 2), ('send', 'A', 0), ('send', 'B'), ('recv', 'A', 'raising')]
# ids to come after very long histories, the limits of bytes and words among them
BASES = [(1 << 15) - 1, (1 << 16) - 1, (1 << 23) - 2, (1 << 24) - 3, (1 << 24) - 1, 10 ** 6 - 2, 10 ** 9, (1 << 30) - 1, (1 << 31) - 99]
CLOSING = [('process',), ('process',), ('send', 'A', 1), ('send', 'B'), ('send', 'C', 0), ('send', 'A'), ('process',)]


def make():
    w = World(['C07'])
    w.closing = CLOSING
    return w


def cases(tier):
    for n in CROWDS:
        yield {'crowd': n}
    yield {'long': 70000, 'hosts': 'A'}
    yield {'long': 3000, 'hosts': 'AB'}
    yield {'long': 1500, 'hosts': 'ABC'}
    yield {'mixed': 700}
    for base in BASES:
        for hosts in ('A', 'AB'):
            yield {'jump': base, 'hosts': hosts, 'd': 2 if tier == 'quick' else 3}
    for c in seq.cases(len(OPS), 4, 2, 'q'):
        yield c
    for c in seq.cases(len(MORE), 3, 1, 'm'):
        yield c
    if tier != 'quick':
        for c in seq.cases(len(OPS), 5, 3, 'q'):
            yield c
        for c in seq.cases(len(MORE), 4, 2, 'm'):
            yield c


def run(case, ctx):
    if 'crowd' in case:
        crowd('C07', case['crowd'], ctx)
        return
    if 'long' in case:
        w = World(['C07'])
        for i in range(case['long'] // len(case['hosts'])):
            for h in case['hosts']:
                w.do(('send', h) if i % 7 else ('send', h, 0))
                if i % 7 == 0:
                    w.do(('pa', h, ['oldest']))
                ctx.step()
            if i % 1000 == 0:
                ctx.state(w.key())
                ctx.execution()
                for h in w.hosts:
                    w.hosts[h].settled = []
        ctx.state(w.key())
        ctx.check(w.hosts['A'].last_id >= case['long'] // len(case['hosts']), 'id-order', 'the last id is %d' % w.hosts['A'].last_id)
        ctx.outcome(w.key())
        return
    if 'jump' in case:
        for ops in itertools.product(OPS, repeat=case['d']):
            w = make()
            for h in case['hosts']:
                w.do(('jump', h, case['jump']))
            for op in ops:
                w.do(op)
                ctx.step()
                ctx.state(w.key())
            w.finish(ctx)
            ctx.execution()
            ctx.outcome(w.key())
        return
    if 'mixed' in case:
        w = World(['C07'])
        for i in range(case['mixed']):
            w.do(OPS[(i * i + 3 * i) % len(OPS)])
            w.do(OPS[(7 * i) % len(OPS)])
            ctx.step(2)
            ctx.state(w.key())
        ctx.execution()
        return
    seq.run(case, ctx, OPS if case['t'] == 'q' else MORE, make)
