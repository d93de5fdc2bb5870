"""The clock the code under test sees: it moves only when an execution moves it,
so that what a step does cannot depend on how fast the check runs, and long
pauses cost nothing. Import before any module that takes its time from it."""
import sys
import time as real
import types

BASE = 1258700000.25
HOUR = 4000.0        # a bit more
_now = [BASE]


def advance(seconds):
    _now[0] += seconds


def now():
    return _now[0]


def virtual(source):
    """the time is what source() says from now on"""
    global now

    def block(seconds):
        raise AssertionError('the whole process would sleep')
    now = source
    Clock.sleep = lambda self, seconds: block(seconds)


class Clock(types.ModuleType):
    def __getattr__(self, name):
        return getattr(real, name)

    def time(self):
        return now()

    clock = time

    def sleep(self, seconds):
        advance(max(0, seconds))

    def gmtime(self, *a):
        return real.gmtime(*(a or (now(),)))

    def localtime(self, *a):
        return real.localtime(*(a or (now(),)))

    def ctime(self, *a):
        return real.ctime(*(a or (now(),)))

    def asctime(self, *a):
        return real.asctime(*(a or (real.localtime(now()),)))

    def strftime(self, f, *a):
        return real.strftime(f, *(a or (real.localtime(now()),)))


sys.modules['time'] = Clock('time')
