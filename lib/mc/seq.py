"""All operation sequences over an alphabet up to a depth, each executed on a
fresh world and compared with a reference model after every step.

A check gives: ops (list of operation names), make() -> world with
do(op, ctx), check(ctx), key(). Cases are prefixes, so that they can be
distributed over shards; a violation is recorded with the sequence that led to it."""
import itertools


def cases(nops, depth, split, tag=None):
    for p in itertools.product(range(nops), repeat=split):
        c = {'p': list(p), 'd': depth}
        if tag is not None:
            c['t'] = tag
        yield c


def execute(seq, ops, make, ctx, tag=None):
    w = make()
    try:
        done = []
        for i in seq:
            done.append(i)
            w.do(ops[i], ctx)
            w.check(ctx)
            ctx.step()
            ctx.state(w.key())
        fin = getattr(w, 'finish', None)
        if fin is not None:
            fin(ctx)
        ctx.outcome(w.key())
        return w
    except BaseException:
        ctx.case = {'p': list(done), 'd': len(done), 'ops': [str(ops[i]) for i in done]}
        if tag is not None:
            ctx.case['t'] = tag
        raise


def run(case, ctx, ops, make):
    """ops of an index can be disabled in a state: world.enabled(op)"""
    p, d = case['p'], case['d']
    for rest in itertools.product(range(len(ops)), repeat=max(0, d - len(p))):
        seq = list(p) + list(rest)
        w = execute(seq, ops, make, ctx, case.get('t'))
        ctx.execution()
        if len(ctx.samples) < 2 and ctx.executions % 997 == 5:
            ctx.sample({'ops': [str(ops[i]) for i in seq], 'end': str(w.key())[:300]})
