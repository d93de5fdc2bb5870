"""C18: stopping an event queue at every point of every short history."""
import itertools
import socket
from mc import sched
from mc.core import Violation
from eqworld import *
import checks_c17
from checks_c17 import Server, HOST, CLOSINGS

KINDS = [
    ('one', lambda s: s.ok(['OtherEvent'])),
    ('raising', lambda s: s.ok(['StartPingCheck', 'Raising', 'OtherEvent'])),
    ('none', lambda s: s.ok([])),
    ('502', lambda s: http_error(502)),
    ('garbage', lambda s: reply('garbage that is not llsd')),
    ('refused', lambda s: raising(socket.error(111, 'refused'))),
    ('no id', lambda s: reply_llsd({'events': []})),
    ('list', lambda s: reply_llsd(['nothing'])),
    ('stopping', lambda s: s.ok(['OtherEvent', 'Stopping', 'OtherEvent'])),
]
CLOSE = CLOSINGS + [reply('garbage'), raising(KeyError('x')), raising(Unprintable())]
POINTS = 3


def cases(tier):
    q = tier == 'quick'
    n = range(len(KINDS))
    for d in range(0, 4 if q else 5):
        for s in itertools.product(n, repeat=d):
            yield {'script': list(s)}


def execute(script, positions, closing, ctx):
    """positions: after how many steps of the event queue each call of stop comes (None: never)"""
    server = Server()
    got, eqs, info = [], [], {'posts': None, 'inflight': False, 'begun': None}
    state = {'inflight': False}

    def answer(n, request):
        if request.get('done'):
            return closing
        if n < len(script):
            return KINDS[script[n]][1](server)
        return KINDS[n % 3][1](server)

    class Rest(FakeRest):
        def POST(self, *args, **kwds):
            state['inflight'] = True
            try:
                return FakeRest.POST(self, *args, **kwds)
            finally:
                state['inflight'] = False
    s = Settings()
    rest = Rest(answer)
    if len(script) == 2 and script[0] == script[1]:
        eq = EventQueueClient(Capability('EventQueueGet', URL, rest))
    else:
        eq = EventQueueClient(Capability('EventQueueGet', URL, rest, s), s, MessageHandler(s), HOST)

    def stop():
        if info['posts'] is None:
            info['posts'] = len(rest.log)
            info['inflight'] = state['inflight']
            info['begun'] = task.state != 'new'
            info['handling'] = bool(got) and state.get('handling')
        eq.stop()

    def receive(m):
        got.append((m.name, m.blocks['PingID'][0]['OldestUnacked'] if m.name == 'StartPingCheck' else m.blocks['Message_Data'][0]['serial'], m.event_queue_id))
        if m.name == 'Stopping':
            state['handling'] = True
            stop()
            state['handling'] = False
        if m.name == 'Raising':
            raise Unprintable()
    for n in ('OtherEvent', 'StartPingCheck', 'Raising', 'Stopping'):
        eq.message_handler.register(n).subscribe(receive)
    calls = {'eq': 0, 'app': 0}

    def app():
        for i in positions:
            stop()
            sched.point(('app',))

    def choose(kind, tids):
        # the application's turn comes after the given number of steps of the event queue
        if 1 in tids and calls['app'] < len(positions) and calls['eq'] >= positions[calls['app']]:
            calls['app'] += 1
            return tids.index(1)
        rest_ = [t for t in tids if t != 1] or tids
        if 0 in tids and (info['posts'] is None or rest_[0] == 0):
            calls['eq'] += 1
            return tids.index(0)
        return tids.index(rest_[0])
    sch = sched.Scheduler(choose, 400)
    task = sch.spawn(eq.start, (), None, 'eq')
    sch.spawn(app, (), None, 'app')
    sch.run()
    ctx.execution()
    ctx.step(sch.steps)
    label = 'outcomes %s, stop after steps %s' % ([KINDS[i][0] for i in script], positions)
    errors = [t.error for t in sch.tasks if t.error is not None]
    ctx.check(not errors, 'raised', '%s: %s' % (label, errors and errors[0]))
    ctx.check(not sch.horizon and not [t for t in sch.tasks if t.state != 'done'], 'not-ended', '%s: still running after %d steps, posts %r' % (label, sch.steps, rest.log[-4:]))
    posts = [r for u, r in rest.log]
    polls = [r for r in posts if not r.get('done')]
    after = [r for r in posts[info['posts']:] if not r.get('done')]
    allowed = 0 if info['inflight'] or not info['begun'] or info['handling'] else 1
    ctx.check(len(after) <= allowed, 'polled-again', '%s: %d polls begun after stop (%s), allowed %d' % (label, len(after), 'poll under way' if info['inflight'] else 'no poll under way', allowed))
    # the closing acknowledgement
    want = [{'ack': server.last, 'done': True}] if server.last is not None else []
    ctx.check(posts[len(polls):] == want and not [r for r in posts[:len(polls)] if r.get('done')], 'closing', '%s: posted %r, the closing post should be %r' % (label, posts, want))
    ctx.check(got == [e for e in server.expected if e[0] != 'Unheard'], 'deliveries', '%s: delivered %r instead of %r' % (label, got, server.expected))
    ctx.state(repr((posts, got, positions)))
    ctx.outcome((len(posts), len(after), len(got)))
    if ctx.executions % 2003 == 7:
        ctx.sample({'case': label, 'posts': [str(p) for p in posts]})
    return calls['eq']


def run(case, ctx):
    script = case['script']
    if 'positions' in case:
        execute(script, case['positions'], CLOSE[case['closing']], ctx)
        return
    last = POINTS * (len(script) + 1) + 1
    for p in range(0, last + 1):
        lean = not ctx.thorough and len(script) > 2
        for q in (None, p + 1) if lean else (None, p, p + 1, p + 2, p + 4, p + 7):
            for c in range(len(CLOSE)):
                if (q is not None or lean) and c not in (0, 1):
                    continue
                try:
                    execute(script, [p] if q is None else [p, q], CLOSE[c], ctx)
                except:
                    ctx.case = {'script': script, 'positions': [p] if q is None else [p, q], 'closing': c, 'outcomes': [KINDS[i][0] for i in script]}
                    raise
