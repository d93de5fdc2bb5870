"""C31: pacing of the background tasks, in virtual time: sleep blocks a task until the clock says so,
and the clock moves on when no task can run."""
import itertools
import eventlet.api
from mgrworld import *
from pyogp.lib.base import helpers
from checks_c17 import Server, OUTCOMES

SCHED = [None]
START = 1000.0


class Timed(sched.Scheduler):
    """a scheduler with a clock"""

    def __init__(self, chooser, max_steps=2000):
        sched.Scheduler.__init__(self, chooser, max_steps)
        self.now = START
        self.dues = []
        self.waits = []          # (task, seconds, from)
        self.idle = self.tick
        SCHED[0] = self

    def tick(self):
        ahead = [d for d in self.dues if d > self.now]
        if not ahead or not [t for t in self.tasks if t.state != 'done']:
            return False
        self.now = min(ahead)
        self.dues = [d for d in ahead if d > self.now]
        return True

    def hold(self, seconds, label):
        """the task that runs goes on in so many seconds"""
        due = self.now + seconds
        if seconds > 0:
            self.dues.append(due)
            self.point(label, lambda: self.now >= due)
        else:
            self.point(label)

    def sleep(self, seconds):
        me = sched.current()
        self.waits.append((me.name, seconds, self.now))
        self.hold(seconds, ('sleep', seconds))


def sleep(seconds=0):
    if SCHED[0] is not None and sched.current() is not None:
        SCHED[0].sleep(seconds)


eventlet.api.sleep = sleep


clock.virtual(lambda: SCHED[0] and SCHED[0].now or START)


def first(kind, options):
    return 0


# ---------------------------------------------------------------- event queue

INTERVALS = [(1, 1, 1, 1, 1), (0, 0, 0, 0, 0), (5, 2, 2, 7, 1), (0.25, 3, 0, 60, 0.5), (2, 0.5, 30, 1, 0),
             (61, 59.5, 100, 31, 600), (3600, 7200.5, 86400, 301, 45)]
TIMES = [0, 0.5, 20]


def event_queue(case, ctx):
    """every poll comes its interval after the one before"""
    scripts, intervals, times = case['script'], INTERVALS[case['interval']], case['times']
    sch = Timed(first, 3000)
    logs = []

    def client(i, script):
        server = Server()
        log = []                # ('post' or 'end' or 'set', time, interval)
        s = Settings()
        s.REGION_EVENT_QUEUE_POLL_INTERVAL = intervals[0]

        class Rest(FakeRest):
            def POST(self, *args, **kwds):
                log.append(('post', sch.now))
                try:
                    return FakeRest.POST(self, *args, **kwds)
                finally:
                    log.append(('end', sch.now))
                    # the settings may be changed at any time
                    n = len([e for e in log if e[0] == 'post'])
                    s.REGION_EVENT_QUEUE_POLL_INTERVAL = intervals[n % len(intervals)]

        def answer(n, request):
            sch.hold(times[n % len(times)], ('answering', n))
            if n >= len(script) - 1:
                eq.stopped = True
            if n >= len(script):
                return http_error(500)
            return OUTCOMES[script[n]][1](server)

        def raises(m):
            raise ValueError('subscriber')
        rest = Rest(answer)
        eq = EventQueueClient(Capability('EventQueueGet', URL, rest, s), s, MessageHandler(s), A)
        eq.message_handler.register('Raising').subscribe(raises)
        logs.append((i, script, log))
        sch.spawn(eq.start, (), None, 'eq%d' % i)
    for i, script in enumerate(scripts):
        client(i, script)
    sch.run()
    ctx.execution()
    ctx.step(sch.steps)
    ctx.check(not sch.horizon and not [t for t in sch.tasks if t.state != 'done' or t.error], 'not-ended', '%r: tasks did not end' % (case,))
    for i, script, log in logs:
        before = 1000.0
        polls = [e for e in log if e[0] == 'post'][:len(script)]
        ctx.check(len(polls) == len(script), 'polls', '%d polls of %d' % (len(polls), len(script)))
        ends = [e for e in log if e[0] == 'end']
        for n, e in enumerate(polls):
            gap = e[1] - before
            want = intervals[n % len(intervals)]
            if abs(gap - want) > 1e-6:
                raise Violation('interval', 'poll %d (after %s) came %r s after what was before it; the interval was %r s' % (
                    n, [OUTCOMES[k][0] for k in script[:n]], gap, want))
            before = ends[n][1]
    ctx.state(repr(case))
    ctx.outcome(repr(sch.now))


# ---------------------------------------------------------------- the UDP connection

FLOODS = [['plain'] * 5, ['reliable'] * 4, ['reliable', 'malformed', 'raising', 'plain', 'unknown', 'cut'], ['short', 'other-host', 'unhandled', 'zero', 'short'],
          [None, 'reliable', None, None, 'plain', 'raising'], []]
QUEUED = [['p', 'r', 'n', 'm'], ['p', 'bad-block', 'n', 'bad-callable', 'r', 'p']]


class Flood(object):
    def __init__(self, case, chooser):
        self.case = case
        flood = FLOODS[case['flood']] * case.get('times', 1)
        self.sch = Timed(chooser, 1200 + 40 * len(flood) + 20 * case.get('burst', 0))
        self.env = env = Env()
        net.ENV[0] = env
        env.on_send = self.on_send
        env.recv = self.recv
        self.inbox = [k and datagram(k, 100 + i, 1000 + i) for i, k in enumerate(flood)]
        self.takes = 0              # datagrams taken
        self.mark = None            # sleeps of the connection when the last was taken
        self.waiting = {}           # serial -> takes when it was queued
        self.owed = {}              # (address, id) -> takes
        self.sent = []
        self.trouble = None
        self.serial = 0
        s = Settings()
        self.mh = MessageHandler(s)
        self.m = MessageManager(A, self.mh, {}, s)
        for n in ('StartPingCheck', 'TestMessage'):
            self.mh.register(n).subscribe(self.receive)

    def fail(self, key, msg):
        if self.trouble is None:
            self.trouble = Violation(key, msg)

    def yields(self):
        return len([w for w in self.sch.waits if w[0] == self.udp.name])

    def late(self):
        """what should have been sent before this datagram was taken"""
        late = [n for n in self.waiting if self.takes - self.waiting[n] > 1]
        if late:
            self.fail('late', 'messages %s have waited while %d datagrams were taken' % (late, self.takes - self.waiting[late[0]]))
        late = [a for a in self.owed if self.takes > self.owed[a]]
        if late:
            self.fail('late-ack', 'the acks of %s have waited while another datagram was taken' % late)

    def recv(self):
        self.env.recv_calls += 1
        self.sch.point(('recvfrom',))
        item = self.inbox.pop(0) if self.inbox else None
        if item is None:
            # nothing comes for a while
            self.sch.hold(10, ('silence',))
            raise socket.timeout('timed out')
        n = self.yields()
        if self.mark is not None and n == self.mark:
            self.fail('no-turn', 'two datagrams are taken without letting other tasks run between them')
        self.mark = n
        self.takes += 1
        self.late()
        if item[3] is not None:
            self.owed[(item[2], item[3])] = self.takes
        return item[1], item[2]

    def on_send(self, data, addr, ok):
        x = serial_of(data)
        for i in (x.acks or []) + [b['ID'] for b in x.blocks['Packets']] if x.name == 'PacketAck' else x.acks or []:
            self.owed.pop((addr, i), None)
        if x.name == 'StartPingCheck':
            n = x.blocks['PingID'][0]['OldestUnacked']
            self.waiting.pop(n, None)
            self.sent.append(n)

    def enqueue(self, how):
        self.serial += 1
        n = self.serial
        ok = len(how) == 1
        if ok:
            self.waiting[n] = self.takes
        steps = self.sch.steps
        self.m.enqueue_message(ping(n) if ok else no_message(how, n), how in ('r', 'm'), how in ('n', 'm'))
        if self.sch.steps != steps:
            self.fail('blocks', 'queueing a message lets its caller wait')

    def receive(self, m):
        if self.case['answers']:
            self.enqueue('p')
            self.enqueue('m')
        if m.name == 'TestMessage':
            raise ValueError('subscriber')

    def app(self):
        for how in QUEUED[self.case['queued']]:
            self.enqueue(how)
            self.sch.point(('app',))
        if 'burst' in self.case:
            # many at once, twice
            for turn in range(2):
                for n in range(self.case['burst']):
                    self.enqueue('prp'[n % 3])
                self.sch.point(('app',))

    def main(self):
        steps = self.sch.steps
        n = len(self.sch.tasks)
        self.m.start_monitors()
        if self.sch.steps != steps:
            self.fail('blocks', 'starting lets its caller wait')
        self.udp = self.sch.tasks[n]
        app = self.sch.spawn(self.app, (), None, 'app')
        mark = []

        def quiet():
            if not mark:
                if app.state != 'done' or self.inbox:
                    return self.udp.state == 'done'
                mark.append(self.env.recv_calls)
            return self.env.recv_calls >= mark[0] + 3 or self.udp.state == 'done'
        self.sch.point(('main',), quiet)
        steps = self.sch.steps
        self.m.stop_monitors()
        if self.sch.steps != steps:
            self.fail('blocks', 'stopping lets its caller wait')

    def go(self, ctx):
        self.sch.spawn(self.main, (), None, 'main')
        self.sch.run()
        ctx.execution()
        ctx.step(self.sch.steps)
        if self.trouble is not None:
            raise self.trouble
        errors = [t.error for t in self.sch.tasks if t.error]
        ctx.check(not errors, 'task-died', errors and errors[0][1])
        ctx.check(not self.sch.horizon and not [t for t in self.sch.tasks if t.state != 'done'], 'not-ended', 'still running after %d steps' % self.sch.steps)
        ctx.check(not self.waiting and not self.owed, 'never', 'never sent: %s, acks of %s' % (sorted(self.waiting), sorted(self.owed)))
        slow = [w for w in self.sch.waits if w[0] == self.udp.name and w[1] > 0]
        ctx.check(not slow, 'sleeps', 'the connection slept for %s' % slow[:1])
        ctx.state(repr(self.sch.trace))
        ctx.outcome(repr(self.sent))
        if ctx.executions % 997 == 3:
            ctx.sample({'case': self.case, 'sent': self.sent, 'schedule': ['%s %s' % (a, b[0]) for a, b in self.sch.trace][:60]})


def flood(case, ctx, choices):
    def execute(ch):
        r = Flood(case, ch)
        try:
            r.go(ctx)
        except:
            ctx.extra = sched.trimmed(ch.choices)
            raise
    if choices is not None:
        execute(sched.Chooser(list(choices)))
        return
    for ch in sched.explore(execute, case['bound'], first=case['part']):
        pass


# ---------------------------------------------------------------- Wait

STEPS = [1, 0.25, 0, 3]


def wait(case, ctx):
    """durations x what each step takes x when it is stopped, or a step fails"""
    d = case['d']
    for ticks in itertools.product(STEPS, repeat=case['n']):
        for event in [None] + [(k, i) for k in ('stop', 'assert') for i in range(case['n'])]:
            one_wait(case, d, ticks, event, ctx)


def late(d):
    """what later steps take"""
    return max(1, d // 16)


def one_wait(case, d, ticks, event, ctx):
    sch = Timed(first, 400)
    sch.now = begin = 1000.0 + case['begin']
    state = {'n': 0, 'w': None, 'other': 0}
    log = []

    def step(seconds=0):
        i = state['n']
        state['n'] += 1
        t = ticks[i] if i < len(ticks) else late(d)
        other = state['other']
        sch.hold(t, ('sleep', seconds))
        log.append((i, sch.now, state['other'] - other))
        if 'main' in state:
            return               # run once more, undisturbed
        if event == ('assert', i):
            raise AssertionError('Cannot switch to MAINLOOP from MAINLOOP')
        if event == ('stop', i):
            state['w'].stop()
    real = sch.sleep
    sch.sleep = step
    results = []

    def main():
        if event and event[0] == 'stop':
            w = state['w'] = helpers.Wait(0)
            w.duration = d
            results.append(w.run())
        else:
            w = state['w'] = helpers.Wait(d)
            results.append(True)
        state['main'] = True
        state['end'] = sch.now
        # once more
        n, state['again'] = state['n'], sch.now
        results.append(w.run())
        results.append(sch.now - state['again'])

    def other():
        while 'main' not in state:
            state['other'] += 1
            sch.point(('other',))
    sch.spawn(main, (), None, 'wait')
    sch.spawn(other, (), None, 'other')
    # the time of a step is up when the other has had its turn
    sch.idle = sch.tick
    rounds = [0]

    def choose(kind, options):
        return 0

    def on_step(s):
        # time passes while the other runs
        s.tick()
    sch.on_step = lambda s: on_step(s) if s.last == 1 else None
    sch.run()
    ctx.execution()
    ctx.step(sch.steps)
    errors = [t.error for t in sch.tasks if t.error]
    label = 'Wait(%r) begun at %r, steps of %r s, %r' % (d, begin, ticks, event)
    ctx.check(not errors, 'raised', '%s: %s' % (label, errors and errors[0][1]))
    ctx.check(not sch.horizon and len(results) == 3, 'not-ended', '%s: has not ended' % label)
    # the steps it should take: one that could not switch may count or not
    ends = {}
    for counts in (False, True):
        t, n = begin, 0
        good = begin            # the time when the last step that counts ended
        while good - begin < d:
            t += ticks[n] if n < len(ticks) else late(d)
            if counts or event != ('assert', n):
                good = t
            n += 1
            if event == ('stop', n - 1):
                break
        ends[t] = n
    t = min(ends, key=lambda e: abs(state['end'] - e))
    n = ends[t]
    ctx.check(abs(state['end'] - t) < 1e-6, 'duration', '%s: held its caller for %r s instead of %s' % (label, state['end'] - begin, ' or '.join(repr(e - begin) for e in sorted(ends))))
    alone = [i for i, now, k in log[:n] if k == 0]
    ctx.check(not alone, 'no-turn', '%s: no other task ran in steps %s' % (label, alone))
    ctx.check(results[0] is True and results[1] is True, 'result', '%s: returned %r' % (label, results))
    ctx.check(results[2] >= d, 'duration', '%s: run once more it held its caller for %r s' % (label, results[2]))
    ctx.state((d, ticks, event))
    ctx.outcome((n, t))


def cases(tier):
    q = tier == 'quick'
    n = range(len(OUTCOMES))
    for i in range(len(INTERVALS)):
        for t in TIMES:
            for a in n:
                yield {'k': 'eq', 'd': 3 if (i in (0, 2) and t == 0) or not q else 2, 'first': a, 'interval': i, 'times': [t]}
        for a in range(0, len(OUTCOMES), 3):
            yield {'k': 'eqs', 'first': a, 'interval': i, 'times': [0, 20, 0.5]}
    for f in range(len(FLOODS)):
        for a in range(len(QUEUED)):
            for answers in (False, True):
                parts = 4 if q else 16
                for p in range(parts):
                    yield {'k': 'flood', 'flood': f, 'queued': a, 'answers': answers, 'bound': 2 if q else 3, 'part': [p, parts]}
    for f in range(len(FLOODS)):
        for answers in (False, True):
            for burst, times, bound in ((6, 1, 1), (11, 1, 1), (17, 2, 1), (33, 5, 0), (120, 12, 0), (600, 60, 0)):
                yield {'k': 'flood', 'flood': f, 'queued': 0, 'answers': answers, 'bound': bound if q else min(bound * 2, 1 + (burst < 17)), 'part': [0, 1], 'burst': burst, 'times': times}
    for d in (0, 1, 2, 3, 5) if q else (0, 1, 2, 3, 4, 5, 7):
        for b in (0, 0.875) if q else (0, 0.5, 0.875):
            yield {'k': 'wait', 'd': d, 'n': 3 if q else 4, 'begin': b}
    for d in (16, 29, 30, 31, 59, 60, 61, 90, 100, 119, 121, 300, 599, 601, 3601, 86401):
        yield {'k': 'wait', 'd': d, 'n': 1 if q else 2, 'begin': 0.875}


def run(case, ctx, choices=None):
    k = case['k']
    if k == 'eq':
        if 'script' in case:
            event_queue(case, ctx)
            return
        for rest in itertools.product(range(len(OUTCOMES)), repeat=case['d'] - 1):
            ctx.case = dict(case, script=[[case['first']] + list(rest)])
            event_queue(ctx.case, ctx)
    elif k == 'eqs':
        if 'script' in case:
            event_queue(case, ctx)
            return
        for a in range(len(OUTCOMES)):
            for b in range(0, len(OUTCOMES), 2):
                ctx.case = dict(case, script=[[case['first'], a], [b, case['first'], 0]])
                event_queue(ctx.case, ctx)
    elif k == 'flood':
        flood(case, ctx, choices)
    else:
        wait(case, ctx)
