"""C12: what each host gets while others are served, against what it gets alone."""
import itertools
from mc.core import Violation, hexs
from udpworld import World, ADDR, CROWDS, crowd_ops
from pyogp.lib.base.message.circuit import Host

A, B, C, D = 'ABCD'
# A and B share the ip, A and C the port, A and D ip and port written one after the other
TWO = [('send', A), ('send', A, 1), ('send', B, 2), ('recv', A, 'handled'), ('recv', B, 'unhandled', True, [1, 2]), ('recv', A, 'unknown', False, [2]), ('pa', B, [1]), ('pa', A, [1, 3]),
       ('process',), ('shared', A, 1), ('shared', B, 1), ('failhost', A), ('mutate',)]
FOUR = TWO + [('send', C, 1), ('recv', C, 'handled', True, [1]), ('pa', C, [1]), ('send', D, 1), ('recv', D, 'zero', True, [1, 2]), ('shared', D), ('failhost', C), ('dup', A), ('dup', C),
              ('bad', A, 'block', 1), ('bad', B, 'unknown'), ('bad', C, 'refused', 1), ('burst', B, 3), ('recv', A, 'raising', True, [1, 2]), ('late', D)]
BURSTS = [('burst', A, 251), ('burst', B, 256), ('burst', C, 2), ('send', A), ('send', B, 1), ('send', C), ('process',), ('failhost', B), ('failhost', A)]
# ids of the hosts apart, past the limits of bytes and words
FAR = TWO + [('jump', A, 65535), ('jump', B, (1 << 24) - 1), ('jump', A, (1 << 31) - 99)]
OPS = {'2': TWO, '4': FOUR, 'b': BURSTS, 'j': FAR}


class Log(World):
    """keeps per host what was put on the wire and what came of what was received"""

    def __init__(self, keep, hosts='ABCD'):
        World.__init__(self, ['C12'], hosts=hosts)
        self.keep = keep
        self.log = dict([(ADDR[h], []) for h in hosts])
        self.stray = []
        self.n = 1000
        self.shared_content = self.content()
        self.shared = self.message(*self.shared_content)
        if keep:
            # the same host as several values
            self.values = dict([(h, [Host(ADDR[h]), Host([ADDR[h][0], ADDR[h][1]]), Host((unicode(ADDR[h][0]), long(ADDR[h][1])))]) for h in hosts])

    def host(self, h):
        if not self.keep:
            return Host(ADDR[h])
        return self.values[h][self.n % 3]

    def datagram(self, data, addr, ok, what, due=None, seen=None):
        if addr in self.log:
            self.log[addr].append((data, ok))
        else:
            self.stray.append(addr)
        return World.datagram(self, data, addr, ok, what, due, seen)

    def receive(self, h, *args):
        World.receive(self, h, *args)
        self.log[ADDR[h]].append((self.result is not None and (self.result.name, self.result.packet_id), len(self.delivered)))

    def summary(self, h):
        c = self.d.circuit_manager.get_circuit(Host(ADDR[h]))
        if c is None:
            return self.log[ADDR[h]], None
        out = c.unacked_packets
        fin = c.final_retry_packets
        return self.log[ADDR[h]], (sorted([(i, out[i].name, out[i].retries) for i in out]), sorted([(i, fin[i].name) for i in fin]), list(c.acks), c.last_packet_out_id)


def play(items, ctx, keep, hosts='ABCD'):
    w = Log(keep, hosts)
    w.quiet = len(hosts) > 4
    for i, op in items:
        w.n = 10 * i
        w.do(op, ctx)
        if keep:
            ctx.step()
    return w


_alone = {}


def of(items, h):
    return [(i, op) for i, op in items if op[0] in ('process', 'mutate') or op[1] == h]


CLOSING = [('process',), ('process',), ('process',)]


def compare(seq, ctx):
    items = list(enumerate(list(seq) + CLOSING))
    w = play(items, ctx, True)
    ctx.check(not w.stray, 'address', 'datagrams to %r' % w.stray)
    for h in 'ABCD':
        own = of(items, h)
        alone = (h, tuple([(i, str(op)) for i, op in own]))
        if alone not in _alone:
            if len(_alone) > 20000:
                _alone.clear()
            _alone[alone] = play(own, ctx, False).summary(h)
        got, want = w.summary(h), _alone[alone]
        if got != want:
            raise Violation('interference', '%s: with the others %s, alone %s' % (h, show(got), show(want)))
        ctx.state((h, repr(got)))
    ctx.execution()
    ctx.outcome(repr(sorted(w.log.items())))
    if ctx.executions % 997 == 5:
        ctx.sample({'ops': [str(o) for o in seq], 'datagrams per host': [len(w.log[ADDR[h]]) for h in 'ABCD']})


def crowd(n, ctx):
    hosts, ops = crowd_ops(n)
    items = list(enumerate([op for op in ops if op is not None]))
    w = play(items, ctx, True, hosts)
    ctx.check(not w.stray, 'address', 'datagrams to %r' % w.stray)
    for h in hosts:
        got, want = w.summary(h), play(of(items, h), ctx, False, [h]).summary(h)
        if got != want:
            raise Violation('interference', '%s: with %d others %s, alone %s' % (h, n - 1, show(got), show(want)))
        ctx.state((h, repr(got)))
    ctx.execution()


def show(s):
    log, c = s
    return '%s, state %s' % ([(hexs(a) if isinstance(a, str) else a, b) for a, b in log[-6:]], c)


def cases(tier):
    q = tier == 'quick'
    for n in CROWDS:
        yield {'crowd': n}
    for t, depth, split in (('2', 4 if q else 5, 2), ('4', 3 if q else 4, 2), ('b', 3, 1), ('j', 3 if q else 4, 1)):
        for p in itertools.product(range(len(OPS[t])), repeat=split):
            yield {'t': t, 'p': list(p), 'd': depth}


def run(case, ctx):
    if 'crowd' in case:
        crowd(case['crowd'], ctx)
        return
    ops = OPS[case['t']]
    if 'exact' in case:
        compare([ops[i] for i in case['exact']], ctx)
        return
    for rest in itertools.product(range(len(ops)), repeat=case['d'] - len(case['p'])):
        seq = case['p'] + list(rest)
        try:
            compare([ops[i] for i in seq], ctx)
        except:
            ctx.case = {'t': case['t'], 'exact': seq, 'ops': [str(ops[i]) for i in seq]}
            raise
