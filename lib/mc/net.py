"""Fake UDP sockets. Import before any pyogp module."""
import socket
from mc import sched


class Env(object):
    """One network. inbox: (data, addr) datagrams to be received; sent: (data, addr) handed over."""

    def __init__(self):
        self.inbox = []
        self.sent = []
        self.attempts = 0
        self.attempt_log = []       # (data, addr, accepted)
        self.fail_sends = 0         # the next n sends raise
        self.fail_when = None       # callable(data, addr) -> bool
        self.recv_calls = 0
        self.sockets = []
        self.points = False         # are sends/receives scheduling points?

    def send(self, data, addr):
        if self.points:
            sched.point(('sendto',))
        self.attempts += 1
        fail = False
        if self.fail_sends > 0:
            self.fail_sends -= 1
            fail = True
        elif self.fail_when is not None and self.fail_when(data, addr):
            fail = True
        self.attempt_log.append((data, addr, not fail))
        if fail:
            raise socket.error(101, 'Network is unreachable')
        self.sent.append((data, addr))
        return len(data)

    def recv(self):
        self.recv_calls += 1
        if self.points:
            sched.point(('recvfrom',))
        if not self.inbox:
            raise socket.timeout('timed out')
        item = self.inbox.pop(0)
        if isinstance(item, Exception):
            raise item
        return item

    def take(self):
        s = self.sent
        self.sent = []
        self.attempt_log = []
        return s

    def take_attempts(self):
        s = self.attempt_log
        self.attempt_log = []
        self.sent = []
        return s


ENV = [Env()]


class FakeSocket(object):
    def __init__(self, *args, **kwds):
        self.env = ENV[0]
        self.env.sockets.append(self)
        self.closed = False

    def sendto(self, data, *args):
        return self.env.send(data, args[-1])

    def recvfrom(self, bufsize, flags=0):
        data, addr = self.env.recv()
        return data[:bufsize], addr

    def settimeout(self, t):
        pass

    def setblocking(self, b):
        pass

    def setsockopt(self, *a):
        pass

    def bind(self, addr):
        pass

    def fileno(self):
        return 99

    def close(self):
        self.closed = True


socket.socket = FakeSocket


def new_env():
    ENV[0] = Env()
    return ENV[0]
