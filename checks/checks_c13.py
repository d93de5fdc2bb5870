"""C13: the manager's UDP connection under all schedules with few deviations
from round robin, failing sends and receives included."""
import itertools
from mgrworld import *

# application tasks: lists of (kind, how); the message 'same' is the one queued before by the
# task, 'call' a function that makes it; how: p plain, r reliable, n now, m now and reliable
APPS = {
    'two': [[('ok', 'p'), ('ok', 'n'), ('ok', 'r')], [('ok', 'r'), ('ok', 'm'), ('ok', 'p')]],
    'bad': [[('ok', 'p'), ('bad-block', 'p'), ('ok', 'n'), ('bad-name', 'm')], [('bad-callable', 'r'), ('ok', 'r'), ('refused', 'p')]],
    'burst': [[('ok', 'p'), ('ok', 'p'), None, ('ok', 'n'), ('ok', 'n'), ('ok', 'r'), None, ('ok', 'm')], [None, ('ok', 'p'), None, ('ok', 'p')]],
    'one': [[('ok', 'r')], []],
    'none': [[], []],
    'before': [[], []],
    'ways': [[('ok', 'r'), ('same', 'r'), ('call', 'n')], [('call', 'r'), ('ok', 'p'), ('same', 'm'), ('call', 'p')]],
}
APPS['many'] = [[('ok', 'prnp'[i % 4]) for i in range(150)], [('ok', 'p')] * 130]
INBOX = {
    'mixed': ['reliable', 'malformed', 'raising', 'plain', 'unknown'],
    'hostile': ['short', 'cut', 'raising', 'malformed', 'reliable', 'zero'],
    'hosts': ['other-host', 'reliable', 'unhandled', 'other-host', 'plain'],
    'few': ['reliable'],
    'answers': ['reliable', 'plain', 'raising'],
    'silence': [],
    'big': ['big1400', 'big4096', 'reliable', 'big9999', 'big65300'],
}
SCENARIOS = [('two', 'mixed'), ('two', 'few'), ('bad', 'hostile'), ('burst', 'few'), ('one', 'hosts'), ('none', 'mixed'), ('none', 'hostile'), ('two', 'answers'), ('burst', 'silence'), ('bad', 'few'), ('before', 'hosts'), ('two', 'hosts'), ('one', 'answers'), ('bad', 'silence'), ('none', 'big'), ('one', 'big'), ('ways', 'few'), ('ways', 'answers'), ('many', 'few')]


def cases(tier):
    q = tier == 'quick'
    for apps, arrives in SCENARIOS:
        for eq in (False, True):
            for fails in (False, True):
                if apps == 'many':
                    # the length of the queue is what counts
                    if not fails:
                        for yields in (0, 1, 60):
                            yield {'apps': apps, 'inbox': arrives, 'eq': eq, 'fails': fails, 'bound': 0, 'yields': yields, 'part': [0, 1]}
                    continue
                if apps in ('burst', 'ways') or not fails:
                    yield {'apps': apps, 'inbox': arrives, 'eq': eq, 'fails': fails, 'bound': 0 if q else 1, 'part': [0, 1], 'made': 'by default'}
                parts = 16 if q else 32
                for i in range(parts):
                    yield {'apps': apps, 'inbox': arrives, 'eq': eq, 'fails': fails, 'bound': (1 if eq else 2) if q else (2 if eq else 3), 'part': [i, parts]}


class Run(object):
    def __init__(self, case, chooser):
        self.case = case
        self.queue = []          # the model of what waits, as serials
        self.heads = set()       # what has been at the head since the last send
        self.reliable = {}
        self.failed = set()
        self.sent = []           # serials, in order of sending
        self.delivered = []
        self.acked = set()
        self.serial = 0
        self.failures = failures()
        self.failures.next()
        self.ok = set()
        self.trouble = None
        self.env = Env()
        net.ENV[0] = self.env
        self.env.inbox = inbox(INBOX[case['inbox']])
        self.arrivals = list(self.env.inbox)
        self.env.choices = case['fails']
        self.env.on_send = self.on_send
        self.s = s = Settings() if 'made' not in case else None
        self.mh = MessageHandler(s) if s is not None else None
        caps = {}
        if case['eq']:
            self.n_polls = 0
            caps['EventQueueGet'] = Capability('EventQueueGet', URL, FakeRest(self.answer), s)
        if s is not None:
            self.m = MessageManager(A, self.mh, caps, s)
        else:
            # all of its own making
            self.m = MessageManager(A, capabilities=caps) if caps else MessageManager(A)
            self.s, self.mh = self.m.settings, self.m.message_handler
        for n in ('StartPingCheck', 'TestMessage', 'EqEvent') + (('ChatFromViewer',) if case['inbox'] == 'big' else ()):
            self.mh.register(n).subscribe(self.receive)
        self.sch = sched.Scheduler(chooser, 1500 if case['apps'] != 'many' else 6000)

    def answer(self, n, request):
        self.n_polls += 1
        return [reply_llsd({'id': n + 1, 'events': [{'message': 'EqEvent', 'body': {'n': n}}]}), http_error(502)][n % 2]

    # ----------------------------------------------------------- monitors

    def fail(self, key, msg):
        if self.trouble is None:
            self.trouble = Violation(key, msg)

    def on_send(self, data, addr, ok):
        try:
            x = serial_of(data)
        except refcodec.RefError, e:
            self.fail('undecodable', '%s: %s' % (hexs(data), e))
            return
        if ok:
            for i in x.acks or []:
                self.acked.add((addr, i))
        if x.name == 'PacketAck':
            if ok:
                for b in x.blocks['Packets']:
                    self.acked.add((addr, b['ID']))
            return
        if x.name != 'StartPingCheck':
            self.fail('unexpected', 'sent %s' % x.name)
            return
        n = x.blocks['PingID'][0]['OldestUnacked']
        if addr != (A.ip, A.port):
            self.fail('address', 'message %d went to %r' % (n, addr))
        if n in self.failed and n not in self.queue:
            self.failed.discard(n)     # another attempt
        elif n not in self.queue:
            self.fail('sent-twice', 'message %d is sent again (or was never queued); sent so far: %s' % (n, self.sent))
        elif n not in self.heads:
            self.fail('order', 'message %d is sent while %s wait, sent so far: %s' % (n, self.queue, self.sent))
        if n in self.queue:
            self.queue.remove(n)
        self.sent.append(n)
        if x.reliable not in self.reliable.get(n, ()):
            self.fail('reliable', 'message %d sent with reliable flag %s' % (n, x.reliable))
        if not ok:
            self.failed.add(n)
        self.heads = set(self.queue[:1])
        self.skip_bad()

    def skip_bad(self):
        """what cannot be encoded is dropped silently: the next one may be sent as well"""
        for n in self.queue:
            self.heads.add(n)
            if n in self.ok:
                break

    def enqueue(self, kind, how, last=None):
        if kind == 'same':
            n, m = last
        else:
            self.serial += 1
            n = self.serial
            m = ping(n)
            if kind == 'call':
                m = lambda m=m: m
            elif kind != 'ok':
                m = no_message(kind, n)
        if kind in ('ok', 'same', 'call'):
            self.ok.add(n)
        self.reliable.setdefault(n, set()).add(how in 'rm')
        if how in 'nm':
            self.queue.insert(0, n)
        else:
            self.queue.append(n)
        self.skip_bad()
        self.m.enqueue_message(m, reliable=how in 'rm', now=how in 'nm')
        return n, m

    def receive(self, m):
        if m.name == 'EqEvent':
            return
        if m.name == 'ChatFromViewer':
            n = m.blocks['ChatData'][0]['Channel']
            size = len(m.blocks['ChatData'][0]['Message'].rstrip('\0'))
            want = int(INBOX['big'][n - 1000][3:])
            if size != want:
                self.fail('cut', 'a message of %d bytes was delivered with %d' % (want, size))
            self.delivered.append(n)
            return
        n = m.blocks['PingID'][0]['OldestUnacked'] if m.name == 'StartPingCheck' else m.blocks['TestBlock1'][0]['Test1']
        self.delivered.append(n)
        if self.case['inbox'] == 'answers':
            self.enqueue('ok', 'pn'[n % 2])
        if m.name == 'TestMessage':
            raise self.failures.next()

    # -------------------------------------------------------------- tasks

    def app(self, items):
        last = None
        for i, it in enumerate(items):
            if it is not None:
                last = self.enqueue(it[0], it[1], last)
            if self.case['apps'] == 'many':
                if self.case['yields'] and i % self.case['yields'] == 0:
                    sched.point(('app',))
            elif it is None or self.case['apps'] != 'burst':
                sched.point(('app',))

    def main(self):
        if self.case['apps'] == 'before':
            for how in 'prnmp':
                self.enqueue('ok', how)
        self.m.start_monitors()
        self.udp = self.sch.tasks[1]
        apps = [self.sch.spawn(self.app, (items,), None, 'app%d' % i) for i, items in enumerate(APPS[self.case['apps']]) if items]
        mark = [None]

        def quiet():
            if mark[0] is None:
                if [t for t in apps if t.state != 'done'] or self.env.inbox:
                    return self.udp.state == 'done'
                mark[0] = self.env.recv_calls
            return self.env.recv_calls >= mark[0] + 5 or self.udp.state == 'done'
        sched.point(('main',), quiet)
        if self.udp.state == 'done':
            self.fail('ended', 'the connection ended by itself')
        self.m.stop_monitors()

    def go(self):
        self.sch.spawn(self.main, (), None, 'main')
        self.sch.run()

    def verdict(self, ctx):
        ctx.execution()
        ctx.step(self.sch.steps)
        errors = [(t.name, t.error) for t in self.sch.tasks if t.error is not None]
        ctx.check(not errors, 'task-died', 'task %s died: %s' % (errors and errors[0]) if errors else '')
        if self.trouble is not None:
            raise self.trouble
        ctx.check(not self.sch.horizon and not [t for t in self.sch.tasks if t.state != 'done'], 'no-progress', 'not all sent, received or ended after %d steps; waiting %s, to be received %d' % (self.sch.steps, self.queue, len(self.env.inbox)))
        lost = [n for n in self.queue if n in self.ok]
        ctx.check(not lost, 'not-sent', 'messages %s were queued but never sent; sent %s' % (lost, self.sent))
        want = [i[4] for i in self.arrivals if i[4] is not None]
        ctx.check(self.delivered == want, 'deliveries', 'delivered %s instead of %s' % (self.delivered, want))
        owed = [(i[2], i[3]) for i in self.arrivals if i[3] is not None and (i[2], i[3]) not in self.acked]
        ctx.check(not owed, 'not-acked', 'packets %s were received but not acked' % owed)
        false = [a for a in self.acked if a not in [(i[2], i[3]) for i in self.arrivals]]
        ctx.check(not false, 'false-ack', 'acked %s' % false)
        ctx.state(repr((self.case['apps'], self.case['inbox'], [t for t in self.sch.trace])))
        ctx.outcome(repr((self.sent, sorted(self.acked), sorted(self.failed))))
        if ctx.executions % 1009 == 3:
            ctx.sample({'case': self.case, 'sent': self.sent, 'schedule': ['%s %s' % (a, b[0]) for a, b in self.sch.trace][:60]})


def run(case, ctx, choices=None):
    def execute(ch):
        r = Run(case, ch)
        try:
            r.go()
            r.verdict(ctx)
        except:
            ctx.extra = sched.trimmed(ch.choices)
            raise
    if choices is not None:
        execute(sched.Chooser(list(choices)))
        return
    for ch in sched.explore(execute, case['bound'], first=case['part']):
        pass
