"""C16: MessageHandler against a map of subscriber lists."""
from mc import seq
from mc.core import Violation
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.settings import Settings
from pyogp.lib.base.message.msgtypes import PackFlags


class Boom(Exception):
    pass


NAMES = ['ChatFromSimulator', 'PacketAck', 'ChatFromSimulatorX']
CONFIGS = [{}, {'LOG_VERBOSE': False}, {'DISABLE_SPAMMERS': False}, {'UDP_SPAMMERS': []}]


class World(object):
    def __init__(self, cfg):
        self.mh = MessageHandler() if not cfg else MessageHandler(Settings())
        self.settings = self.mh.settings
        for k in cfg:
            setattr(self.settings, k, cfg[k])
        self.reg = {}            # name -> notifier
        self.subs = {}           # name -> [handler name]
        self.log = []
        self.h = {}
        for n in ['p', 'q']:
            self.h[n] = self.make(n)
        self.h['boom'] = self.make('boom', Boom('b'))
        self.h['key'] = self.make('key', KeyError('name'))
        self.h['attr'] = self.make('attr', AttributeError('name'))
        self.h['once'] = self.make('once')
        self.h['chain'] = self.make('chain')
        self.h['grow'] = self.make('grow')

    def make(self, name, error=None):
        def h(message):
            self.log.append((name, message))
            if name == 'once':
                self.mh.register(message.name).unsubscribe(self.h['once'])
            if name == 'chain' and message.name == NAMES[0]:
                self.mh.handle(Message(NAMES[1]))
            if name == 'grow':
                self.mh.register(NAMES[2]).subscribe(self.h['q'])
            if error is not None:
                raise error
        return h

    def register(self, n, ctx):
        r = self.mh.register(n)
        if n in self.reg:
            ctx.check(r is self.reg[n], 'notifier', 'registering %s again gives another notifier' % n)
        else:
            for m in self.reg:
                ctx.check(self.reg[m] is not r, 'shared-notifier', '%s and %s share a notifier' % (n, m))
            self.reg[n] = r
            self.subs.setdefault(n, [])
        return r

    def model_handle(self, n, log):
        """returns the error name or None"""
        for h in list(self.subs.get(n, [])):
            log.append((h, n))
            if h == 'once':
                if 'once' not in self.subs[n]:
                    return 'ValueError'
                self.subs[n].remove('once')
            if h == 'chain' and n == NAMES[0]:
                e = self.model_handle(NAMES[1], log)
                if e:
                    return e
            if h == 'grow':
                self.subs.setdefault(NAMES[2], []).append('q')
                if NAMES[2] not in self.reg:
                    self.reg[NAMES[2]] = self.mh.register(NAMES[2])
            e = {'boom': 'Boom', 'key': 'KeyError', 'attr': 'AttributeError'}.get(h)
            if e:
                return e
        return None

    def do(self, op, ctx):
        if op[0] == 'register':
            self.register(op[1], ctx)
        elif op[0] == 'sub':
            self.register(op[1], ctx).subscribe(self.h[op[2]])
            self.subs[op[1]].append(op[2])
        elif op[0] == 'unsub':
            n = self.register(op[1], ctx)
            try:
                n.unsubscribe(self.h[op[2]])
                got = True
            except ValueError:
                got = False
            ctx.check(got == (op[2] in self.subs[op[1]]), 'unsubscribe', 'unsubscribe %s from %s: %s' % (op[2], op[1], got))
            if got:
                self.subs[op[1]].remove(op[2])
        elif op[0] == 'handle':
            m = Message(op[1], Block('B', X=1))
            # as received from several circuits, which count their packets alike
            m.packet_id = 7
            m.send_flags = op[2] if len(op) > 2 else 0
            m.host = op[3] if len(op) > 3 else None
            self.log = []
            got = None
            try:
                self.mh.handle(m)
            except (Boom, KeyError, AttributeError, ValueError), e:
                got = e.__class__.__name__
            log = []
            before = repr(self.subs)
            want = self.model_handle(op[1], log)
            calls = [(a, b.name) for a, b in self.log]
            ctx.check(calls == log, 'calls', 'handling %s with subscribers %s called %r instead of %r' % (op[1], before, calls, log))
            ctx.check(not [1 for a, b in self.log if b.name == op[1] and b is not m], 'message', 'subscribers got another message object')
            ctx.check(got == want, 'error', 'handling %s with %s raised %s instead of %s' % (op[1], before, got, want))

    def check(self, ctx):
        for n in NAMES + ['Never', '']:
            ctx.check(self.mh.is_message_handled(n) == (n in self.reg), 'handled', 'is_message_handled(%s) is wrong; registered: %s' % (n, sorted(self.reg)))
        for n in self.reg:
            ctx.check(len(self.reg[n]) == len(self.subs.get(n, [])), 'count', 'notifier of %s has %d subscribers, subscribed %r' % (n, len(self.reg[n]), self.subs.get(n)))

    def key(self):
        return repr((sorted(self.subs.items()), sorted(self.reg)))

    def finish(self, ctx):
        for n in NAMES:
            for op in [('handle', n), ('handle', n, 0, 'B'), ('handle', n, PackFlags.LL_RELIABLE_FLAG, 'C'), ('handle', n, PackFlags.LL_RELIABLE_FLAG | PackFlags.LL_RESENT_FLAG, 'C')]:
                self.do(op, ctx)
                self.check(ctx)


OPS = [('handle', NAMES[0]), ('handle', NAMES[1]), ('handle', NAMES[2]), ('register', NAMES[0]), ('register', NAMES[2]),
       ('sub', NAMES[0], 'p'), ('sub', NAMES[0], 'q'), ('sub', NAMES[1], 'p'), ('sub', NAMES[1], 'q'), ('sub', NAMES[0], 'once'),
       ('sub', NAMES[0], 'chain'), ('sub', NAMES[0], 'grow'), ('sub', NAMES[0], 'boom'), ('sub', NAMES[0], 'key'),
       ('sub', NAMES[1], 'key'), ('sub', NAMES[0], 'attr'), ('sub', NAMES[2], 'p'), ('unsub', NAMES[0], 'p'), ('unsub', NAMES[1], 'p'), ('unsub', NAMES[0], 'boom'),
       ('unsub', NAMES[0], 'once')]


def many(n, ctx):
    """many names, with subscribers of their own"""
    mh = MessageHandler()
    log = []
    made = {}
    for i in range(n):
        name = 'Message%d' % i
        made[name] = mh.register(name)
        for j in range(i % 3):
            made[name].subscribe(lambda m, me=(i, j): log.append((me, m)))
        ctx.step()
    for r in range(2):
        for i in range(n):
            name = 'Message%d' % i
            ctx.check(mh.register(name) is made[name], 'notifier', 'registering %s again, after %d others, gives another notifier' % (name, n))
            ctx.check(mh.is_message_handled(name), 'handled', '%s is registered, but not handled' % name)
            m = Message(name)
            del log[:]
            mh.handle(m)
            ctx.check(log == [((i, j), m) for j in range(i % 3)], 'calls', 'handling %s of %d called %r' % (name, n, log))
            ctx.step()
        ctx.check(not mh.is_message_handled('Message%d' % n), 'handled', 'a name that was not registered is handled')
        mh.handle(Message('Message%d' % n))
        ctx.execution()
        ctx.state((n, r))
    ctx.outcome((n, len(made)))


LIKE = ['Chat', u'Chat', 'chat', 'CHAT', ' Chat', 'Chat ', 'Chat\t', 'Chat\n', '\nChat', 'Chat\0', 'Chat\0X', 'Chat.', '.Chat', 'a.Chat', 'Cha', 'Chatt', 'ChatChat', 'tahC',
        'Chat1', 'Chat2', 'Chat_', '_Chat', 'Chat-', 'Chat X', 'ChatX', '', ' ', '*', 'Chat*', 'C?at', '.*', 'Chat/X', 'default', 'all', 'None', '0', '1', '01', '1.0', 'True',
        'name', 'handlers', 'register', '__class__', u'Ch\xe0t', u'CH\xc0T', u'\u4e2d', 'Chat' * 100, 'Chat' * 101]


def alike(i, ctx):
    """names that have something in common are different ones"""
    a = LIKE[i]
    for b in LIKE:
        for both in (False, True):
            mh = MessageHandler()
            log = []
            na = mh.register(a)
            na.subscribe(lambda m: log.append(('a', m)))
            if both:
                nb = mh.register(b)
                ctx.check((na is nb) == (a == b), 'notifier', 'registering %r and %r gives %s notifier' % (a, b, 'one' if na is nb else 'another'))
                nb.subscribe(lambda m: log.append(('b', m)))
            m = Message(b)
            handled = mh.is_message_handled(b)
            ctx.check(handled == (both or a == b), 'handled', '%r registered: %r is%s handled' % (a, b, '' if handled else ' not'))
            mh.handle(m)
            want = [('a', m)] * (a == b) + [('b', m)] * both
            ctx.check(log == want, 'calls', 'subscribed to %r%s: handling %r called %r' % (a, ' and %r' % b if both else '', b, log))
            ctx.execution()
            ctx.step(2)
            ctx.state((a, b, both))
    ctx.outcome(a)


def cases(tier):
    for i in range(len(LIKE)):
        yield {'alike': i}
    for n in (5, 40, 140, 300, 1100):
        yield {'many': n}
    for c in range(len(CONFIGS)):
        d = (4 if c == 0 else 3) if tier == 'quick' else (5 if c == 0 else 4)
        for x in seq.cases(len(OPS), d, 2, c):
            yield x


def run(case, ctx):
    if 'alike' in case:
        alike(case['alike'], ctx)
        return
    if 'many' in case:
        many(case['many'], ctx)
        return
    seq.run(case, ctx, OPS, lambda: World(CONFIGS[case['t']]))
