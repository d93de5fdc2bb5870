from mc import sched, clock

def sleep(seconds=0):
    sched.point(('sleep', seconds))
    clock.advance(max(0, seconds))

def spawn(function, *args, **kwds):
    return sched.spawn(function, args, kwds)

def kill(g, *throw_args):
    sched.kill(g)

def getcurrent():
    return sched.current()

def spawn_after(seconds, function, *args, **kwds):
    return sched.spawn(function, args, kwds)

call_after = spawn_after

class TimeoutError(Exception):
    pass
