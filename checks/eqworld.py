"""A REST client whose answers the explorer chooses, and an event queue on top of it."""
from mc import repo, refcodec, net, sched, clock
from mc.core import Violation

SMALL = ['PacketAck', 'StartPingCheck', 'ChatFromViewer', 'EnableSimulator', 'TestMessage']
DIC = repo.small(SMALL, {'EnableSimulator': 'llsd'})

from llbase import llsd
from webob import Response
from pyogp.lib.base import exc
from pyogp.lib.base.exc import HTTPError
from pyogp.lib.base.caps import Capability
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings



def copied(x):
    if type(x) is dict:
        return dict([(k, copied(v)) for k, v in x.items()])
    if type(x) is list:
        return [copied(v) for v in x]
    return x


def memoize():
    """the LLSD library (not under test) is slow here: remember what it answered"""
    parse, form, parsed, formed = llsd.parse, llsd.format_xml, {}, {}

    def fast_parse(data, *args):
        if args or type(data) is not str:
            return parse(data, *args)
        if data not in parsed:
            if len(parsed) > 20000:
                parsed.clear()
            try:
                parsed[data] = parse(data)
            except llsd.LLSDParseError, e:
                parsed[data] = e
        r = parsed[data]
        if isinstance(r, Exception):
            raise llsd.LLSDParseError(*r.args)
        return copied(r)

    def fast_format(value):
        k = repr(value)
        if k not in formed:
            if len(formed) > 20000:
                formed.clear()
            formed[k] = form(value)
        return formed[k]
    llsd.parse = fast_parse
    llsd.format_xml = fast_format


class Unprintable(Exception):
    """raised by a subscriber or a connection: nothing can be said about it"""

    def __str__(self):
        return unicode('caf\xe9', 'ascii')


def failures():
    """an exception that can be printed, one that can't, and so on"""
    while True:
        yield ValueError('subscriber')
        yield Unprintable()
        yield ValueError(u'caf\xe9')


URL = 'http://10.0.0.1/cap/eq'


class Body(object):
    def __init__(self, data):
        self.data = data

    def read(self):
        d = self.data
        self.data = ''
        return d


class FakeRest(object):
    """answer(n, request) -> outcome of the n-th request"""

    def __init__(self, answer):
        self.answer = answer
        self.log = []          # (url, decoded body)

    def POST(self, url, data, headers={}):
        request = llsd.parse(data)
        n = len(self.log)
        self.log.append((url, request))
        sched.point(('POST', n))
        if n % 3 == 1:
            clock.advance(clock.HOUR)
        r = self.answer(n, request)
        sched.point(('reply', n))
        return r()

    def GET(self, url, headers={}):
        raise AssertionError('GET')


def reply(body, ctype='application/llsd+xml'):
    def r():
        x = Response(body=body, status='200 OK')
        x.headers['Content-Type'] = ctype
        return x
    return r


def reply_llsd(value, ctype='application/llsd+xml'):
    return reply(llsd.format_xml(value), ctype)


def no_type(body):
    def r():
        x = Response(body=body)
        del x.headers['Content-Type']
        return x
    return r


def http_error(code, msg='bad', body='<html>no</html>'):
    def r():
        raise HTTPError(code, msg, Body(body))
    return r


def raising(e):
    def r():
        raise e
    return r
