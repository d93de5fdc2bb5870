"""C19: all shapes of event bodies, over every message of the template and other names."""
import datetime
import itertools
import uuid
from mc import repo
repo.small = lambda *a, **k: repo.full()      # this check is about the whole template
from mc.core import Violation
from eqworld import *
from httpworld import same
from pyogp.lib.base.message.message import Message

memoize()
FULL = repo.full()
HOST = Host(('10.0.0.1', 1000))
VALUES = [None, True, False, 0, 1, -1, 2147483647, -2147483648, 0.0, 1.5, -2.25e300, '', 'text', 'a<&>"\'', u'caf\xe9 \u2603', ' spaced ', 'two\nlines',
          llsd.uri('http://x/?a=b&c=d'), uuid.UUID(int=0), uuid.UUID(int=0x0102030405060708090a0b0c0d0e0f10),
          llsd.binary(''), llsd.binary('\x00\xff\x80abc'), datetime.datetime(2009, 12, 31, 23, 59, 59), [], [1, None, 'x'], {}, {'a': 1, u'\xe9': [{}]}, [[], {}]]
KEYS = ['AgentID', 'key', '', u'\xfc', 'with space', 'name', 'vars', 'data', 'body', 'message', 'events', 'id', '0', 'Message_Data', 'size', 'self', 'block_name']
OTHERS = ['EstablishAgentCommunication', 'ChatterBoxInvitation', 'Unknown', 'x', 'events', u'Caf\xe9', 'chatFromViewer', 'ChatFromViewer2', 'Message_Data', 'AgentData', 'id']


class Queue(object):
    """an event queue that polls a list of prepared responses"""

    def __init__(self, responses, host=HOST):
        self.responses, self.host = responses, host
        self.got = []
        self.rest = FakeRest(self.answer)
        s = Settings()
        s.REGION_EVENT_QUEUE_POLL_INTERVAL = 0
        self.eq = EventQueueClient(Capability('EventQueueGet', URL, self.rest, s), s, MessageHandler(s), host)
        for n in set([e['message'] for r in responses for e in r['events']]):
            self.eq.message_handler.register(n).subscribe(self.receive)

    def receive(self, m):
        self.got.append((len(self.rest.log) - 1, m))

    def answer(self, n, request):
        if n >= len(self.responses) - 1:
            self.eq.stopped = True
        if n >= len(self.responses):
            return reply_llsd({'id': 1, 'events': []})
        return reply(self.text(self.responses[n]))

    def text(self, r):
        return llsd.format_xml(r)

    def run(self):
        self.eq.start()
        return self.got


def contents(m, event, ctx, where, seen):
    """compares a message with the event it was made from"""
    name, body = event['message'], event['body']
    where = '%s: event %r' % (where, event)
    ctx.check(isinstance(m, Message), 'class', '%s became a %r' % (where, m.__class__))
    ctx.check(m.name == name, 'name', '%s became %r' % (where, m.name))
    wanted = body if name in FULL.by_name else {'Message_Data': [body]}
    ctx.check(sorted(m.blocks) == sorted([b for b in wanted if wanted[b]]), 'blocks', '%s: the message has blocks %r' % (where, sorted(m.blocks)))
    for b, insts in m.blocks.items():
        ctx.check(m[b] is insts or m[b] == insts, 'blocks', '%s: message[%r] are not the blocks %r' % (where, b, b))
        ctx.check(len(insts) == len(wanted[b]), 'instances', '%s: %d instances of %s' % (where, len(insts), b))
        for i, x in enumerate(insts):
            fields = wanted[b][i]
            ctx.check(x.name == b, 'block-name', '%s: a block of %s is named %r' % (where, b, x.name))
            ctx.check(id(x) not in seen, 'shared', '%s: instance %d of %s is in two places' % (where, i, b))
            seen[id(x)] = x
            ctx.check(sorted(x.vars) == sorted(fields) and sorted(x.var_list) == sorted(fields), 'fields', '%s: instance %d of %s has fields %r (listed %r)' % (
                where, i, b, sorted(x.vars), x.var_list))
            for f in fields:
                v = x.vars[f]
                ctx.check(v.name == f and same(v.data, fields[f]) and same(x[f], fields[f]), 'value', '%s: %s[%d].%s is %s = %r' % (where, b, i, f, v.name, v.data))
    if name in FULL.by_name:
        want = {'message': name, 'body': dict([(b, l) for b, l in body.items() if l])}
    else:
        want = {'message': name, 'body': {'Message_Data': [body]}}
    for times in (1, 2):
        d = m.to_dict()
        ctx.check(same(d, want), 'dict', '%s: to_dict gives %r' % (where, d))


def poll(responses, ctx, host=HOST, cls=Queue):
    q = cls(responses, host)
    got = q.run()
    ctx.execution(1)
    k = 0
    seen = {}
    for n, r in enumerate(responses):
        for e in r['events']:
            where = 'response %d (id %r)' % (n, r['id'])
            try:
                ctx.check(k < len(got) and got[k][0] == n, 'delivered', '%s: event %r was not delivered (%d were)' % (where, e, len(got)))
                m = got[k][1]
                contents(m, e, ctx, where, seen)
                ctx.check(m.event_queue_id == r['id'], 'id', '%s: event %r has id %r' % (where, e['message'], m.event_queue_id))
                ctx.check(m.host is host, 'host', '%s: event %r is from host %r instead of %r' % (where, e['message'], m.host, host))
            except Violation:
                if cls is Queue:
                    ctx.case = {'responses': [repr(x) for x in responses[n:n + 1]], 'where': '%s' % (where,), 'all': ctx.case}
                raise
            ctx.step()
            ctx.state((e['message'], repr(e['body'])))
            k += 1
    ctx.check(k == len(got), 'delivered', '%d messages for %d events' % (len(got), k))
    ctx.outcome(len(got))


def event(name, body):
    return {'message': name, 'body': body}


class Values(object):
    def __init__(self, start):
        self.n = start

    def next(self):
        self.n += 1
        return VALUES[self.n % len(VALUES)]


def instance(block, values, i):
    d = dict([(v.name, values.next()) for v in block.vars])
    return d


def shapes(name, kinds, most):
    """bodies: every choice of 0 to `kinds` of the message's blocks, 1 to `most` instances of each"""
    t = FULL.by_name[name]
    for n in range(kinds + 1):
        for blocks in itertools.combinations(t.blocks, n):
            for counts in itertools.product(range(1, most + 1), repeat=n):
                yield blocks, counts


def template_events(name, tier, start):
    values = Values(start)
    few = len(FULL.by_name[name].blocks) > 4
    for blocks, counts in shapes(name, 3 if not few or tier == 'thorough' else 2, 3):
        body = {}
        for b, c in zip(blocks, counts):
            body[b.name] = [instance(b, values, i) for i in range(c)]
        yield event(name, body)


# parts of events that are combined in all ways
BODIES = [{}, {'a': 1}, {'PingID': [{'PingID': 1, 'OldestUnacked': 2}]}, {'PingID': [{'PingID': 1}, {'OldestUnacked': 3}]}, {'PingID': [{}]},
          {'Extra': [{'X': 'y'}], 'PingID': [{'PingID': 9, 'New': [1]}]}, {'Message_Data': [{'a': 1}]}, {'Message_Data': [{'a': 1}, {'b': 2}], 'PingID': [{'a': 5}]}]
NAMES = ['StartPingCheck', 'TestMessage', 'Unknown', 'Message_Data']


def possible(name, body):
    """events of template messages hold lists of maps"""
    return name not in FULL.by_name or not [1 for l in body.values() if type(l) is not list or [1 for x in l if type(x) is not dict]]


IDS = [0, 1, 2, 7, 255, 65536, 2147483647, -2]
SMALLEVENTS = [event('StartPingCheck', {'PingID': [{'PingID': 1, 'OldestUnacked': 2}]}), event('Unknown', {'a': 1}), event('Unknown', {'b': [2]}),
               event('TestMessage', {'TestBlock1': [{'Test1': 1}], 'NeighborBlock': [{'Test0': i} for i in range(4)]}), event('StartPingCheck', {})]


def cases(tier):
    names = sorted(FULL.by_name)
    for i in range(0, len(names), 4):
        yield {'kind': 'template', 'names': names[i:i + 4], 'start': i}
    for f in ('value', 'key', 'unknown', 'mixed', 'names'):
        for part in range(8):
            yield {'kind': f, 'part': part}
    for n in ((1, 2) if tier == 'quick' else (1, 2, 3)):
        for ids in itertools.product(range(len(IDS)), repeat=n):
            if n > 1 and ids[0] == ids[1] or n > 2 and ids[1] == ids[2]:
                continue
            if n == 1 or ids[0] % 2 == 0 or tier != 'quick':
                yield {'kind': 'responses', 'ids': list(ids)}


def batches(events, n=40):
    """one response holds many events"""
    r, i = [], 0
    for e in events:
        r.append(e)
        if len(r) == n:
            i += 1
            yield {'id': i, 'events': r}
            r = []
    if r:
        yield {'id': i + 1, 'events': r}


def part(events, case):
    for i, e in enumerate(events):
        if i % 8 == case['part']:
            yield e


def value_events(tier):
    for v in VALUES:
        for w in VALUES:
            yield event('ChatFromViewer', {'ChatData': [{'Message': v, 'Channel': w}]})
            yield event('Unknown', {'first': v, 'second': w})
    for v in VALUES:
        for w in VALUES[::3]:
            for x in VALUES[::5]:
                yield event('AgentUpdate', {'AgentData': [{'AgentID': v}, {'AgentID': w}, {'AgentID': x}]})


def key_events(tier):
    for k in range(4):
        for keys in itertools.combinations(KEYS, k if tier == 'thorough' or k < 3 else 0):
            yield event('Unknown', dict([(x, i) for i, x in enumerate(keys)]))
            yield event('StartPingCheck', {'PingID': [dict([(x, i) for i, x in enumerate(keys)])]})
            yield event('StartPingCheck', dict([(x, [{'v': i}]) for i, x in enumerate(keys)]))


def unknown_events(tier):
    for name in OTHERS:
        for v in VALUES:
            yield event(name, {'k': v})
            yield event(name, {'k': v, 'l': [v], 'm': {'n': v}})
        yield event(name, {})


def name_events(tier):
    for n in sorted(FULL.by_name):
        yield event(n, {'Some': [{'a': n}, {'a': 2}]})
        yield event(n + 'X', {'Some': [{'a': n}, {'a': 2}]})
        yield event(n.lower(), {'Some': n})
        if possible(n[:-1], {'Some': n}):
            yield event(n[:-1], {'Some': n})


def run(case, ctx):
    k = case['kind']
    if k == 'template':
        for i, name in enumerate(case['names']):
            poll(list(batches(template_events(name, ctx.tier, case['start'] + i))), ctx, None if i % 4 == 3 else HOST)
            if i == 0 and case['start'] % 100 == 0:
                ctx.sample({'message': name, 'shapes': len(list(shapes(name, 3, 3)))})
        return
    if k == 'responses':
        for counts in itertools.product(range(3), repeat=len(case['ids'])):
            rs = []
            for j, (i, c) in enumerate(zip(case['ids'], counts)):
                rs.append({'id': IDS[i], 'events': [SMALLEVENTS[(i + j + x) % len(SMALLEVENTS)] for x in range(c)]})
            poll(rs, ctx, (HOST, None, Host(('10.0.0.2', 9)))[sum(counts) % 3])
        return
    if k == 'mixed':
        everything = [event(n, b) for n in NAMES for b in BODIES if possible(n, b)]
        both = itertools.product(everything, repeat=2)
        rs = [{'id': i + 1, 'events': list(p)} for i, p in enumerate(part(both, case))]
        if ctx.thorough:
            rs += [{'id': i + 5000, 'events': list(p)} for i, p in enumerate(part(itertools.product(everything, repeat=3), case))]
        poll(rs, ctx)
        return
    events = {'value': value_events, 'key': key_events, 'unknown': unknown_events, 'names': name_events}[k](ctx.tier)
    poll(list(batches(part(events, case))), ctx)
