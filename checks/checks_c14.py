"""C14: stopping the manager at every point of its tasks' schedules."""
import itertools
from mgrworld import *
import checks_c17
from checks_c17 import CLOSINGS

TRAFFIC = {
    'quiet': ([], [], 'ok'),
    'busy': (['reliable', 'plain', 'reliable', 'unknown', 'plain', 'reliable'], ['ok', 'ok', 'ok'], 'ok'),
    'trouble': (['raising', 'malformed', 'reliable', 'short', 'cut', 'raising'], ['bad-block', 'ok', 'bad-callable'], 'failing'),
    'mixed': (['reliable', 'raising', 'zero', 'unhandled'], ['ok'], 'mixed'),
}
# event queue: none, enabled, disabled by the settings
EQS = ['none', 'on', 'off']
HOWS = ['stop', 'twice', 'udp-handler', 'eq-handler', 'at-once', 'constructor', 'never-started', 'again']


def cases(tier):
    q = tier == 'quick'
    for traffic in sorted(TRAFFIC):
        for eq in EQS:
            for how in HOWS:
                if how == 'eq-handler' and (eq != 'on' or TRAFFIC[traffic][2] == 'failing') or how == 'udp-handler' and traffic == 'quiet':
                    continue
                many = how in ('stop', 'twice', 'constructor')
                for p in range(0, (22 if q else 40)) if many else [0]:
                    for closing in (0, 1) if how == 'stop' and eq == 'on' else (0,):
                        bound = ((2 if how == 'stop' and p % 7 == 3 else 1) if many else 2) if q else (2 if many else 3)
                        parts = 1 if bound == 1 else 6 if q else 12
                        for i in range(parts):
                            yield {'traffic': traffic, 'eq': eq, 'how': how, 'p': p, 'closing': closing, 'bound': bound, 'part': [i, parts]}


class Run(object):
    def __init__(self, case, chooser):
        self.case = case
        inb, outq, self.polls = TRAFFIC[case['traffic']]
        self.env = Env()
        net.ENV[0] = self.env
        self.env.inbox = inbox(inb)
        self.env.on_send = self.on_send
        # some managers make what they need themselves
        self.by_default = case['eq'] != 'off' and case['how'] != 'constructor' and case['p'] % 5 == 4
        self.s = s = Settings() if not self.by_default else None
        if case['eq'] == 'off':
            self.s.ENABLE_REGION_EVENT_QUEUE = False
        self.mh = MessageHandler(s) if s is not None else None
        caps = {}
        self.rest = None
        self.in_poll = False
        self.last = None
        if case['eq'] != 'none':
            run = self

            class Rest(FakeRest):
                def POST(self, *args, **kwds):
                    run.in_poll = True
                    try:
                        return FakeRest.POST(self, *args, **kwds)
                    finally:
                        run.in_poll = False
            self.rest = Rest(self.answer)
            caps['EventQueueGet'] = Capability('EventQueueGet', URL, self.rest, s)
        self.caps = caps
        self.out = outq
        self.stopped = None
        self.done_at = None
        self.sends = 0
        self.handling = None
        self.sch = sched.Scheduler(chooser, 1200)
        self.delivered = []
        self.events = []

    def answer(self, n, request):
        if request.get('done'):
            return CLOSINGS[self.case['closing']]
        kind = {'ok': 0, 'failing': 1, 'mixed': n % 3}[self.polls]
        if kind == 0:
            self.last = n + 10
            names = ['EqEvent', 'EqEvent']
            if n in (1, 3) and self.case['how'] == 'eq-handler' and self.stopped is None:
                names = ['EqEvent', 'Stopping', 'EqEvent']
            self.events += [(n, x) for x in names]
            return reply_llsd({'id': n + 10, 'events': [{'message': x, 'body': {'n': n}} for x in names]})
        return [None, http_error(502), raising(ValueError('poll'))][kind]

    def on_send(self, data, addr, ok):
        self.sends += 1

    def receive(self, m):
        self.delivered.append(m)
        if m.name == 'TestMessage':
            raise ValueError('subscriber')
        if m.name == 'StartPingCheck' and self.case['how'] == 'udp-handler' and self.stopped is None:
            self.handling = 'udp'
            self.stop()
            self.handling = None

    def receive_eq(self, m):
        self.got.append((m.blocks['Message_Data'][0]['n'], m.name))
        if m.name == 'Stopping':
            self.handling = 'eq'
            self.stop()
            self.handling = None

    def task(self, name):
        for t in self.sch.tasks:
            if t.name == name:
                return t
        return None

    def stop(self):
        """remembers what was going on, then stops"""
        if self.stopped is None:
            udp, eq = self.task('_udp_dispatcher'), self.task('start')
            self.stopped = {
                'recv': self.env.recv_calls, 'sends': self.sends, 'polls': len(self.rest.log) if self.rest else 0,
                'udp': udp and (udp.state, udp.label[0]), 'eq': eq and (eq.state, eq.label[0]), 'in_poll': self.in_poll, 'handling': self.handling}
        self.m.stop_monitors()

    def main(self):
        how = self.case['how']
        self.got = []
        if self.by_default:
            self.m = MessageManager(A, capabilities=self.caps)
            self.s, self.mh = self.m.settings, self.m.message_handler
        else:
            self.m = MessageManager(A, self.mh, self.caps, self.s, start_monitors=how == 'constructor')
        for n in ('StartPingCheck', 'TestMessage'):
            self.mh.register(n).subscribe(self.receive)
        for n in ('EqEvent', 'Stopping'):
            self.mh.register(n).subscribe(self.receive_eq)
        for i, k in enumerate(self.out):
            self.m.enqueue_message(ping(i) if k == 'ok' else no_message(k, i), reliable=i % 2 == 1)
        if how == 'never-started':
            self.stop()
            return
        if how != 'constructor':
            self.m.start_monitors()
        if how in ('udp-handler', 'eq-handler'):
            return
        if how != 'at-once':
            # its turn comes when the others made p steps
            sched.point(('main',), lambda: self.sch.steps > self.case['p'] or not [t for t in self.sch.tasks[1:] if t.state != 'done'])
        self.stop()
        if how in ('twice', 'again'):
            if how == 'again':
                sched.point(('main',), lambda: not [t for t in self.sch.tasks[1:] if t.state != 'done'])
            self.m.stop_monitors()

    def go(self):
        self.sch.spawn(self.main, (), None, 'main')
        self.sch.run()

    def verdict(self, ctx):
        ctx.execution()
        ctx.step(self.sch.steps)
        errors = [(t.name, t.error) for t in self.sch.tasks if t.error is not None]
        ctx.check(not errors, 'task-died', errors and '%s raised %s' % (errors[0][0], errors[0][1][0]))
        ctx.check(self.stopped is not None, 'never-stopped', 'the handler that should stop it was never called (the connection or the queue ended, or made no progress)')
        alive = [t.name for t in self.sch.tasks if t.state != 'done']
        ctx.check(not alive and not self.sch.horizon, 'not-ended', 'stopped, but %s still run after %d steps (state when stopped: %s)' % (alive, self.sch.steps, self.stopped))
        s = self.stopped
        recvs = self.env.recv_calls - s['recv']
        started = self.case['how'] != 'never-started'
        ctx.check((s['udp'] is not None) == started, 'udp-task', 'the UDP connection was %sstarted' % ('' if s['udp'] else 'not '))
        if s['udp'] is not None:
            state, label = s['udp']
            ctx.check(state != 'done', 'udp-ended-early', 'the UDP connection had ended before it was stopped')
            allowed = 1 if state != 'new' and label == 'sleep' and s['handling'] != 'udp' else 0
            ctx.check(recvs <= allowed, 'still-receiving', 'after stop (in state %s) %d more receives' % (s, recvs))
            if state == 'new':
                ctx.check(self.sends == s['sends'], 'still-sending', 'stopped before it began, but sent %d datagrams' % (self.sends - s['sends']))
        expect_eq = started and self.case['eq'] == 'on'
        ctx.check((s['eq'] is not None) == expect_eq, 'eq-task', 'event queue %s: %s polling task' % (self.case['eq'], 'a' if s['eq'] else 'no'))
        log = [r for u, r in self.rest.log] if self.rest else []
        if s['eq'] is not None:
            state, label = s['eq']
            ctx.check(state != 'done', 'eq-ended-early', 'the event queue had ended before it was stopped')
            polls = [r for r in log[s['polls']:] if not r.get('done')]
            allowed = 0 if state == 'new' or s['in_poll'] or s['handling'] == 'eq' else 1
            ctx.check(len(polls) <= allowed, 'still-polling', 'after stop (in state %s) %d more polls' % (s, len(polls)))
            closing = [r for r in log if r.get('done')]
            want = [{'ack': self.last, 'done': True}] if self.last is not None else []
            ctx.check(closing == want and log[len(log) - len(want):] == want, 'closing', 'posted %r, the closing post should be %r' % (log, want))
            ctx.check(self.got == self.events, 'events', 'events delivered %r instead of %r' % (self.got, self.events))
        else:
            ctx.check(not log, 'polled', 'event queue %s, but it was polled: %r' % (self.case['eq'], log[:2]))
        ctx.state(repr((self.case, self.sch.trace)))
        ctx.outcome(repr((s, recvs, len(log))))
        if ctx.executions % 1009 == 3:
            ctx.sample({'case': self.case, 'when stopped': s, 'schedule': ['%s %s' % (a, b[0]) for a, b in self.sch.trace][:60]})


def run(case, ctx, choices=None):
    def execute(ch):
        r = Run(case, ch)
        try:
            r.go()
            r.verdict(ctx)
        except:
            ctx.extra = sched.trimmed(ch.choices)
            raise
    if choices is not None:
        execute(sched.Chooser(list(choices)))
        return
    for ch in sched.explore(execute, case['bound'], first=case['part']):
        pass
