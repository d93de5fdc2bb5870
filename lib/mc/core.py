"""Running the cases of one check in one shard, and what they report."""
import os
import sys
import json
import time
import traceback
import threading
from java.io import File
from java.lang import Throwable, System, Thread

sys.setrecursionlimit(20000)


class Violation(Exception):
    """key: identifies the kind of failure (used for known findings); msg: what happened"""

    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key
        self.msg = msg


class Ctx(object):
    def __init__(self, tier, shard, nshards, seed):
        self.tier, self.shard, self.nshards, self.seed = tier, shard, nshards, seed
        self.thorough = tier == 'thorough'
        self.states = set()
        self.transitions = 0
        self.executions = 0
        self.outcomes = set()
        self.samples = []
        self.caps = []
        self.notes = {}
        self.violations = []
        self.case = None
        self.extra = None         # schedule choices of the running execution
        self.beat = time.time()
        self.cases = 0

    def state(self, s):
        self.states.add(hash(s) if not isinstance(s, int) else s)

    def step(self, n=1):
        self.transitions += n

    def execution(self, n=1):
        self.executions += n
        self.beat = time.time()

    def outcome(self, o):
        if len(self.outcomes) < 5000:
            self.outcomes.add(hash(o))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def check(self, cond, key, msg):
        if not cond:
            raise Violation(key, msg)

    def dump(self, path):
        d = {'states': sorted(self.states), 'transitions': self.transitions,
             'executions': self.executions, 'outcomes': sorted(self.outcomes),
             'samples': self.samples, 'caps': self.caps, 'notes': self.notes,
             'violations': self.violations, 'cases': self.cases}
        f = open(path + '.tmp', 'w')
        json.dump(jsonable(d), f)
        f.close()
        os.rename(path + '.tmp', path)


def run_case(mod, case, ctx, choices=None):
    """runs one case; returns True if it held"""
    ctx.case = case
    ctx.extra = choices
    ctx.beat = time.time()
    try:
        if choices is not None:
            mod.run(case, ctx, choices)
        else:
            mod.run(case, ctx)
        return True
    except Violation, v:
        key, msg, tb = v.key, v.msg, None
    except KeyboardInterrupt:
        raise
    except Throwable, e:
        key, msg, tb = 'exception:' + e.getClass().getSimpleName(), '%s' % e, traceback.format_exc()
    except Exception, e:
        key, msg, tb = 'exception:' + e.__class__.__name__, '%s: %s' % (e.__class__.__name__, e), traceback.format_exc()
    ctx.violations.append({'key': key, 'msg': printable(msg), 'case': ctx.case, 'choices': ctx.extra,
                           'traceback': printable(tb)})
    return False


def printable(s):
    if s is None:
        return None
    if isinstance(s, unicode):
        s = s.encode('utf-8', 'replace')
    return ''.join([c if ' ' <= c <= '~' or c == '\n' else '\\x%02x' % ord(c) for c in s])[:4000]


HANG_S = 300


def watchdog(ctx, out):
    def watch():
        while True:
            time.sleep(2)
            if time.time() - ctx.beat > HANG_S:
                ctx.violations.append({'key': 'hang', 'msg': 'no progress for %d s' % HANG_S,
                                       'case': ctx.case, 'choices': ctx.extra, 'traceback': None})
                ctx.dump(out)
                System.out.flush()
                os._exit(0)
    t = threading.Thread(target=watch)
    t.setDaemon(True)
    t.start()


def main(argv):
    cid, tier, shard, nshards, out, seed = argv[0], argv[1], int(argv[2]), int(argv[3]), argv[4], int(argv[5])
    replay = argv[6] if len(argv) > 6 else None
    ctx = Ctx(tier, shard, nshards, seed)
    watchdog(ctx, out)
    import logging
    logging.disable(logging.CRITICAL)
    silence()
    try:
        mod = __import__('checks_' + cid.lower())
    except Throwable, e:
        mod = None
        err = ('%s' % e, traceback.format_exc())
    except Exception, e:
        mod = None
        err = (repr(e), traceback.format_exc())
    if mod is None:
        ctx.violations.append({'key': 'import', 'msg': 'cannot set up: ' + printable(err[0]), 'case': None,
                               'choices': None, 'traceback': printable(err[1])})
        ctx.dump(out)
        return
    if replay:
        r = json.load(open(replay))
        case = unjson(r['case'])
        run_case(mod, case, ctx, r.get('choices'))
        ctx.dump(out)
        return
    work = os.environ['VERIF_WORK']
    limit = float(os.environ.get('VERIF_SHARD_S') or (600 if tier == 'quick' else 3000))
    t0 = time.time()
    kinds = set()
    i = -1
    for case in mod.cases(tier):
        i += 1
        # each case goes to the first shard that is free
        if not File(work, 'case%d' % i).createNewFile():
            continue
        if time.time() - t0 > limit:
            ctx.caps.append('time limit of %d s after %d cases of this shard' % (limit, ctx.cases))
            break
        ctx.cases += 1
        tc = time.time()
        held = run_case(mod, case, ctx)
        if os.environ.get('VERIF_SLOW') and time.time() - tc > float(os.environ['VERIF_SLOW']):
            REAL_OUT.write('%6.1f s %s\n' % (time.time() - tc, jsonable(case)))
        if not held:
            kinds.add(ctx.violations[-1]['key'])
            if len(ctx.violations) >= 25:
                break
    ctx.dump(out)


def jsonable(x):
    """byte strings as latin-1 text; other objects by their repr"""
    if isinstance(x, unicode) or x is None or isinstance(x, (bool, int, long)):
        return x
    if isinstance(x, float):
        return x if x - x == 0 else repr(x)
    if isinstance(x, str):
        return x.decode('latin-1')
    if isinstance(x, (list, tuple, set)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return dict([(jsonable(k) if isinstance(k, (str, unicode)) else repr(k), jsonable(v)) for k, v in x.items()])
    return jsonable(repr(x))


def unjson(x):
    """json gives unicode and lists back"""
    if isinstance(x, unicode):
        try:
            return x.encode('latin-1')
        except UnicodeError:
            return x
    if isinstance(x, list):
        return [unjson(y) for y in x]
    if isinstance(x, dict):
        return dict((unjson(k), unjson(v)) for k, v in x.items())
    return x


class _Null(object):
    def write(self, s):
        pass

    def flush(self):
        pass


REAL_OUT = sys.stdout


def silence():
    """the code under test prints tracebacks and debugging output"""
    if not os.environ.get('VERIF_NOISE'):
        sys.stdout = _Null()
        sys.stderr = _Null()
        traceback.print_exc = lambda *a, **k: None


def hexs(s):
    return ''.join(['%02x' % ord(c) for c in s])
