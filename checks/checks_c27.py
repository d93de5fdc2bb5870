"""C27: histories of building messages, by hand and with the LLSD builder."""
import itertools
from mc import repo
from mc.core import Violation
from llbase import llsd
from pyogp.lib.base.message.message import Message, Block, Variable
from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder
from pyogp.lib.base.datatypes import UUID, Vector3

FULL = repo.full()
VALUES = [0, 1, -5, 'text', u'\xe9', '', '\x00\xff', None, True, False, 1.5, [1, 2], {'k': 'v'}, (1, 2), UUID(), Vector3(X=1)]
PLAIN = [0, -5, 'text', u'\xe9', '', True, False, 1.5, [1, 2], {'k': 'v'}, None]


class Model(object):
    """a message: list of (block object, name, [(variable, value)])"""

    def __init__(self, name):
        self.name = name
        self.blocks = []      # records
        self.instances = []   # block records in order of addition


class Rec(object):
    def __init__(self, block, name, vars):
        self.block, self.name, self.vars = block, name, vars


def expect_dict(name, recs):
    body = {}
    for r in recs:
        d = {}
        for k, v in r.vars:
            d[k] = v
        body.setdefault(r.name, []).append(d)
    return {'message': name, 'body': body}


def same_dict(got, want):
    """equal, with the very values given"""
    if type(got) is not dict or sorted(got) != sorted(want) or got['message'] != want['message']:
        return False
    g, w = got['body'], want['body']
    if sorted(g) != sorted(w):
        return False
    return not [1 for k in w if not same_instances(g[k], w[k])]


def same_instances(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if sorted(x) != sorted(y) or [1 for k in y if x[k] is not y[k]]:
            return False
    return True


def verify(ctx, m, name, recs, what=''):
    want = expect_dict(name, recs)
    ctx.step()
    ctx.check(m.name == name, 'name', '%s: name %r' % (what, m.name))
    ctx.check(sorted(m.blocks) == sorted(want['body']), 'blocks', '%s: blocks %r instead of %r' % (what, sorted(m.blocks), sorted(want['body'])))
    for b in want['body']:
        mine = [r for r in recs if r.name == b]
        for got in (m.blocks[b], m[b], m.get_block(b)):
            ctx.check([id(x) for x in got] == [id(r.block) for r in mine], 'instances', '%s: block %s has %r, not the %d given' % (what, b, got, len(mine)))
        for r in mine:
            check_block(ctx, r, what)
    got = m.to_dict()
    ctx.check(same_dict(got, want), 'to_dict', '%s: to_dict() gives %r, not %r' % (what, got, want))
    return got


def check_block(ctx, r, what):
    d = {}
    for k, v in r.vars:
        d[k] = v
    b = r.block
    ctx.check(b.name == r.name, 'block', '%s: block name %r' % (what, b.name))
    ctx.check(sorted(b.vars) == sorted(d) and sorted(b.var_list) == sorted(d), 'variables', '%s: block %s has %r / %r instead of %r' % (what, r.name, b.vars.keys(), b.var_list, d.keys()))
    names = []
    for k, v in r.vars:
        names.append(k)
        ctx.check(b[k] is v and b.get_variable(k).data is v and b.vars[k].data is v and b.get_variable(k)() is v, 'value', '%s: %s.%s is %r instead of %r' % (what, r.name, k, b[k], v))
        ctx.check(b.get_variable(k).name == k, 'variables', '%s: %s.%s is named %r' % (what, r.name, k, b.get_variable(k).name))
    ctx.check(sorted([x.name for x in b.get_variables()]) == sorted(d), 'variables', '%s: get_variables() of %s' % (what, r.name))


# ---------------------------------------------------------------- operations on two messages

OPS = [(o, m) for o in ('addX', 'addY', 'var', 'again', 'fill') for m in (0, 1)] + [('late', 0), ('dict', 0), ('dict', 1), ('new', 1), ('ack', 0)]
BOPS = [(o, b) for b in (0, 1) for o in ('new', 'X', 'Y', 'data', 'build')]
SHAPES = ['X', 'Y', 'Z', '[X,X]', '[X,Y]', '[]', '[Y]', '[X,X,X]']


def cases(tier):
    q = tier == 'quick'
    for p in itertools.product(range(len(OPS)), repeat=2):
        yield {'kind': 'seq', 'p': list(p), 'd': 4 if q else 5}
    for p in itertools.product(range(len(BOPS)), repeat=2):
        yield {'kind': 'builder', 'p': list(p), 'd': 6 if q else 7}
    for i in range(len(SHAPES)):
        yield {'kind': 'shapes', 'i': i, 'd': 4 if q else 5}
    yield {'kind': 'values'}
    n = 16
    for i in range(n):
        yield {'kind': 'templates', 'part': [i, n]}
    yield {'kind': 'names'}


def run(case, ctx):
    k = case['kind']
    if k == 'seq':
        for rest in itertools.product(range(len(OPS)), repeat=case['d'] - len(case['p'])):
            sequence(list(case['p']) + list(rest), ctx)
    elif k == 'builder':
        for rest in itertools.product(range(len(BOPS)), repeat=case['d'] - len(case['p'])):
            build(list(case['p']) + list(rest), ctx)
    elif k == 'shapes':
        for n in range(0, case['d']):
            for rest in itertools.product(range(len(SHAPES)), repeat=n):
                shapes([case['i']] + list(rest), ctx)
        shapes([], ctx)
    elif k == 'values':
        values(ctx)
    elif k == 'names':
        names(ctx)
    else:
        i, n = case['part']
        for t in FULL.templates[i::n]:
            template(t, ctx)


class Value(object):
    """tells values apart by identity"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'v%d' % self.n


def sequence(seq, ctx):
    m = [Message('First'), Message('Second')]
    names = ['First', 'Second']
    recs = [[], []]
    dicts = []
    olds = []
    acks = []
    loose = []
    n = 0
    for i, s in enumerate(seq):
        op, x = OPS[s]
        n += 1
        if op in ('addX', 'addY'):
            if i % 2:
                b = Block(op[3], A=Value(n), B=Value(-n))
                r = Rec(b, op[3], [('A', b.vars['A'].data), ('B', b.vars['B'].data)])
            else:
                b = Block(op[3])
                r = Rec(b, op[3], [])
            m[x].add_block(b)
            recs[x].append(r)
            loose = [r]
        elif op == 'var' and recs[x]:
            r = recs[x][-1]
            v = Value(n)
            r.block.add_variable(Variable('V%d' % n, v))
            r.vars.append(('V%d' % n, v))
        elif op == 'fill' and recs[x]:
            r = recs[x][0]
            for j in range(2):
                v = Value(n)
                r.block.add_variable(Variable('W%d_%d' % (n, j), v, -1))
                r.vars.append(('W%d_%d' % (n, j), v))
        elif op == 'again' and recs[1 - x]:
            # the last block of the other message becomes part of this one, too
            r = recs[1 - x][-1]
            m[x].add_block(r.block)
            recs[x].append(r)
        elif op == 'late':
            # a message made of all blocks seen so far
            r = recs[0] + recs[1]
            olds.append((Message('Late', [y.block for y in r]), 'Late', r))
        elif op == 'dict':
            dicts.append((m[x].to_dict(), expect_dict(names[x], recs[x])))
        elif op == 'new':
            olds.append((m[1], names[1], recs[1]))
            m[1] = Message('Third', Block('X', N=i))
            names[1] = 'Third'
            b = m[1].blocks['X'][0] if m[1].blocks.get('X') else None
            recs[1] = [Rec(b, 'X', [('N', b.vars['N'].data)])]
        elif op == 'ack':
            m[0].add_ack(n)
            acks.append(n)
        try:
            for j in (0, 1):
                verify(ctx, m[j], names[j], recs[j], 'message %d' % j)
            ctx.check(m[0].acks == acks and m[0].num_acks == len(acks), 'acks', 'acks %r instead of %r' % (m[0].acks, acks))
            ctx.check(m[1].acks == [] and m[1].num_acks == 0, 'acks', 'acks of another message: %r' % (m[1].acks,))
            for o in olds:
                verify(ctx, o[0], o[1], o[2], 'an earlier message')
            for got, want in dicts:
                ctx.check(same_dict(got, want), 'to_dict', 'an earlier result of to_dict() became %r' % (got,))
        except Violation:
            ctx.case = {'kind': 'seq', 'p': seq[:i + 1], 'd': i + 1, 'ops': [OPS[j] for j in seq[:i + 1]]}
            raise
    ctx.state(tuple(seq))
    ctx.execution()


# ---------------------------------------------------------------- builders

def build(seq, ctx):
    bs = [LLSDMessageBuilder(), LLSDMessageBuilder()]
    model = [None, None]          # [name, [(block name, {..})]]
    built = [False, False]
    results = []
    n = 0
    for i, s in enumerate(seq):
        op, x = BOPS[s]
        b = bs[x]
        n += 1
        if op == 'new':
            b.new_message('M%d' % n)
            model[x] = []
            built[x] = False
        elif model[x] is None or op == 'data' and not model[x]:
            return
        elif op in 'XY':
            b.next_block(op)
            model[x].append((op, {}))
            built[x] = False
        elif op == 'data':
            v = Value(n)
            b.add_data('D%d' % n, v, None)
            model[x][-1][1]['D%d' % n] = v
            built[x] = False
        else:
            got = b.build_message()
            body = {}
            for name, d in model[x]:
                body.setdefault(name, []).append(dict(d))
            results.append((got, body))
            built[x] = True
        ctx.step()
        for got, body in results:
            if not (type(got) is tuple and len(got) == 2 and got[1] == len(body) and sorted(got[0]) == sorted(body)
                    and not [1 for k in body if not same_instances(got[0][k], body[k])]):
                ctx.case = {'kind': 'builder', 'p': seq[:i + 1], 'd': i + 1, 'ops': [BOPS[j] for j in seq[:i + 1]]}
                raise Violation('builder', 'build_message() gave %r, not %r' % (got, body))
        for j in (0, 1):
            if bs[j].is_built() != built[j]:
                ctx.case = {'kind': 'builder', 'p': seq[:i + 1], 'd': i + 1, 'ops': [BOPS[k] for k in seq[:i + 1]]}
                raise Violation('is-built', 'is_built() is %r' % bs[j].is_built())
    ctx.execution()
    ctx.state(tuple(seq))


# ---------------------------------------------------------------- shapes of arguments

def shapes(seq, ctx):
    args, recs = [], []
    n = 0

    def one(name):
        v = Value(len(recs))
        b = Block(name, A=v, B=len(recs))
        recs.append(Rec(b, name, [('A', v), ('B', b.vars['B'].data)]))
        return b
    for s in seq:
        t = SHAPES[s]
        if t.startswith('['):
            args.append([one(x) for x in t[1:-1].split(',') if x])
        else:
            args.append(one(t))
    ctx.case = {'kind': 'shapes', 'i': seq[0] if seq else 0, 'd': max(1, len(seq))}
    before = [list(a) if type(a) is list else a for a in args]
    m = Message('Shape', *args)
    verify(ctx, m, 'Shape', recs, 'made of %s' % [SHAPES[s] for s in seq])
    ctx.check(args == before, 'arguments', 'making a message changed the lists it was given')
    for a in args:
        if type(a) is list:
            a.append(None)
    verify(ctx, m, 'Shape', recs, 'made of %s' % [SHAPES[s] for s in seq])
    other = Message('Shape', *before)
    other.add_block(Block('X', Z=1))
    verify(ctx, m, 'Shape', recs, 'made of %s, another one changed' % [SHAPES[s] for s in seq])
    ctx.execution()
    ctx.state(tuple(seq))


def values(ctx):
    for v in VALUES:
        for w in VALUES:
            b, c = Block('B', V=v, W=w), Block('B', W=v)
            m = Message('Values', b, c)
            recs = [Rec(b, 'B', [('V', v), ('W', w)]), Rec(c, 'B', [('W', v)])]
            verify(ctx, m, 'Values', recs, '%r, %r' % (v, w))
            l = LLSDMessageBuilder()
            l.new_message('Values')
            l.next_block('B')
            l.add_data('V', v, None)
            l.add_data('W', w, None)
            l.next_block('C')
            l.next_block('B')
            l.add_data('W', v, None)
            got, count = l.build_message()
            ctx.check(count == 2 and sorted(got) == ['B', 'C'] and same_instances(got['B'], [{'V': v, 'W': w}, {'W': v}]) and got['C'] == [{}], 'builder', 'build_message() gave %r' % (got,))
            ctx.execution()
            ctx.state((repr(v), repr(w)))
    for v, w in itertools.product(PLAIN, repeat=2):
        m = Message('Plain', Block('B', V=v, W=w), Block('C'), Block('B', W=v))
        got = llsd.parse_xml(m.to_llsd())
        want = llsd.parse_xml(llsd.format_xml({'message': 'Plain', 'body': {'B': [{'V': v, 'W': w}, {'W': v}], 'C': [{}]}}))
        ctx.check(got == want and repr(sorted(got.items())) == repr(sorted(want.items())), 'to_llsd', 'to_llsd() gives %r, not %r' % (got, want))
        ctx.execution()


def names(ctx):
    """names of messages, blocks and variables that look like something else"""
    odd = ['message', 'body', 'name', 'blocks', 'vars', 'Message_Data', 'a b', u'\xe9', '', '0', 'size', 'data', 'var_list', 'self']
    for a, b in itertools.product(odd, repeat=2):
        for c in odd:
            if a == b:
                continue
            x, y = Block(a), Block(b)
            v, w = Value(1), Value(2)
            x.add_variable(Variable(c, v))
            y.add_variable(Variable(c, w))
            z = Block(a)
            recs = [Rec(x, a, [(c, v)]), Rec(y, b, [(c, w)]), Rec(z, a, [])]
            m = Message(c or 'M', x, y, z)
            verify(ctx, m, c or 'M', recs, '%r %r %r' % (a, b, c))
            ctx.execution()
            ctx.state((a, b, c))


def template(t, ctx):
    """every message of the template"""
    for count in (0, 1, 2, 5):
        args, recs = [], []
        serial = 0
        for b in t.blocks:
            n = {'Single': 1, 'Multiple': b.number}.get(b.kind, count)
            group = []
            for i in range(n):
                serial += 1
                kw = dict([(f.name, Value(serial * 100 + j)) for j, f in enumerate(b.vars)])
                blk = Block(b.name, **kw)
                recs.append(Rec(blk, b.name, kw.items()))
                group.append(blk)
            if n == 1 and count % 2:
                args += group
            elif n:
                args.append(group)
        m = Message(t.name, *args)
        verify(ctx, m, t.name, recs, t.name)
        l = LLSDMessageBuilder()
        l.new_message(t.name)
        for r in recs:
            l.next_block(r.name)
            for k, v in r.vars:
                l.add_data(k, v, None)
        got, blocks = l.build_message()
        want = expect_dict(t.name, recs)
        ctx.check(same_dict({'message': t.name, 'body': got}, want) and blocks == len(want['body']), 'builder', '%s: build_message() gave %r' % (t.name, got))
        ctx.execution()
        ctx.state((t.name, count))
    ctx.outcome(t.name)
