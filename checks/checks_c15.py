"""C15: Event against a list of subscriptions."""
from mc import seq
from mc.core import Violation
from pyogp.lib.base.events import Event


class Boom(Exception):
    pass


class Obj(object):
    """bound methods are new objects at each access, but equal"""

    def __init__(self, w, name):
        self.w, self.name = w, name

    def method(self, *a, **k):
        self.w.called(self.name, a, k)


class World(object):
    def __init__(self):
        self.ev = Event()
        self.model = []          # (name, args, kwargs)
        self.log = []
        self.want = None
        w = self

        def plain(name):
            def h(*a, **k):
                w.called(name, a, k)
            h.__name__ = name
            return h
        self.h = {'h0': plain('h0'), 'h1': plain('h1')}

        def once(*a, **k):
            w.called('once', a, k)
            w.unsub('once')
        def adder(*a, **k):
            w.called('adder', a, k)
            w.sub('h1')
        def remover(*a, **k):
            w.called('remover', a, k)
            w.unsub('h0')
        def clearer(*a, **k):
            w.called('clearer', a, k)
            w.clear()
        def boom(*a, **k):
            w.called('boom', a, k)
            raise Boom('boom')
        def keyerr(*a, **k):
            w.called('keyerr', a, k)
            raise KeyError('k')
        def nested(*a, **k):
            w.called('nested', a, k)
            if a[0] != 'inner':
                w.ev('inner')
        self.h['nested'] = nested
        self.h.update(once=once, adder=adder, remover=remover, boom=boom, keyerr=keyerr, clearer=clearer)
        self.o = Obj(self, 'm')

    def handler(self, name):
        if name == 'm':
            return self.o.method
        return self.h[name]

    def called(self, name, a, k):
        self.log.append((name, a, sorted(k.items())))

    def sub(self, name, *a, **k):
        self.ev.subscribe(self.handler(name), *a, **k)
        self.model.append((name, a, sorted(k.items())))

    def unsub(self, name, *a, **k):
        e = (name, a, sorted(k.items()))
        try:
            self.ev.unsubscribe(self.handler(name), *a, **k)
            got = True
        except ValueError:
            got = False
        want = e in self.model
        if want:
            self.model.remove(e)
        if got != want:
            raise Violation('unsubscribe', 'unsubscribing %r: %s, but there %s such a subscription' % (
                e, 'accepted' if got else 'ValueError', 'is' if want else 'is no'))

    def clear(self):
        self.ev.clearSubscribers()
        self.model = []

    def do(self, op, ctx):
        k = op[0]
        if k == 'sub':
            self.sub(op[1], *op[2], **dict(op[3]))
        elif k == 'unsub':
            self.unsub(op[1], *op[2], **dict(op[3]))
        elif k == 'iadd':
            e = self.ev
            e += self.handler(op[1])
            self.model.append((op[1], (), []))
            ctx.check(e is self.ev, 'iadd', '+= gives another object')
        elif k == 'isub':
            e = self.ev
            entry = (op[1], (), [])
            try:
                e -= self.handler(op[1])
                got = True
            except ValueError:
                got = False
            ctx.check(got == (entry in self.model), 'unsubscribe', '-= %r: %s' % (op[1], got))
            if got:
                self.model.remove(entry)
                ctx.check(e is self.ev, 'isub', '-= gives another object')
        elif k == 'clear':
            self.clear()
        elif k == 'notify':
            snapshot = list(self.model)
            before = list(self.model)
            self.log = []
            raised = None
            try:
                (self.ev if op[2] else self.ev.notify)(op[1])
            except (Boom, KeyError), e:
                raised = e.__class__.__name__
            want = []
            wraised = self.expected(snapshot, before, op[1], want)
            ctx.check(self.log == want, 'calls', 'notify(%r) with subscriptions %r called %r' % (op[1], snapshot, self.log))
            ctx.check(raised == wraised, 'raise', 'notify raised %s, the handler %s' % (raised, wraised))

    def expected(self, snapshot, subs, arg, want):
        """the calls a notification makes; subs: the subscriptions as they change"""
        for name, a, kw in snapshot:
            want.append((name, (arg,) + a, kw))
            if name in ('boom', 'keyerr'):
                return {'boom': 'Boom', 'keyerr': 'KeyError'}[name]
            if name in ('once', 'remover'):
                e = ({'once': 'once', 'remover': 'h0'}[name], (), [])
                if e in subs:
                    subs.remove(e)
            elif name == 'adder':
                subs.append(('h1', (), []))
            elif name == 'clearer':
                del subs[:]
            elif name == 'nested' and arg != 'inner':
                raised = self.expected(list(subs), subs, 'inner', want)
                if raised:
                    return raised
        return None

    def check(self, ctx):
        n = len(self.model)
        ctx.check(len(self.ev) == n and self.ev.getSubscriberCount() == n, 'count',
                  'subscriber count %d/%d, subscriptions %r' % (len(self.ev), self.ev.getSubscriberCount(), self.model))

    def key(self):
        return repr(self.model)

    def finish(self, ctx):
        # whatever happened, what is subscribed now is what is called
        self.do(('notify', 'end', False), ctx)


OPS = [('notify', 'x', True), ('sub', 'h0', (), ()), ('sub', 'h0', ('a',), ()), ('sub', 'h1', (1, 2), (('k', 1),)),
       ('sub', 'm', (), ()), ('sub', 'once', (), ()), ('sub', 'adder', (), ()), ('sub', 'remover', (), ()),
       ('sub', 'boom', (), ()), ('sub', 'keyerr', (), ()), ('iadd', 'h1'), ('sub', 'clearer', (), ()), ('sub', 'nested', (), ()),
       ('unsub', 'h0', (), ()), ('unsub', 'h0', ('a',), ()), ('unsub', 'h1', (1, 2), (('k', 1),)),
       ('unsub', 'm', (), ()), ('isub', 'h1'), ('unsub', 'boom', (), ()), ('clear',),
       ('notify', None, False), ('notify', ('t', 1), False)]


def cases(tier):
    for n in (10, 40, 130, 300, 1100):
        yield {'many': n}
    for c in seq.cases(len(OPS), 4 if tier == 'quick' else 5, 2):
        yield c


def many(n, ctx):
    """many subscriptions and many notifications"""
    w = World()
    for i in range(n):
        w.do(('sub', ('h0', 'h1', 'm')[i % 3], (i // 2,), (('k', i % 5),)), ctx)
        ctx.step()
    w.check(ctx)
    for r in range(4):
        w.do(('notify', r, r % 2), ctx)
        for i in range(r, n, 7):
            w.do(('unsub', ('h0', 'h1', 'm')[i % 3], (i // 2,), (('k', i % 5),)), ctx)
            ctx.step()
        w.check(ctx)
        ctx.state(w.key())
        ctx.execution()
    w.clear()
    w.sub('h0')
    for i in range(n):
        w.do(('notify', i, False), ctx)
        ctx.step()
    w.finish(ctx)
    ctx.outcome(w.key())


def run(case, ctx):
    if 'many' in case:
        many(case['many'], ctx)
        return
    seq.run(case, ctx, OPS, World)
