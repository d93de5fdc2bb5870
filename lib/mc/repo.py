"""Loading the code under test. Import this before anything from pyogp."""
import os
import sys
import time
from mc import net, refcodec

_tick = [time.time()]

REPO = os.environ.get('VERIF_REPO', '/repo')
DATA = os.path.join(REPO, 'pyogp/lib/base/message/data')
WORK = os.environ.get('VERIF_WORK', '/tmp')

_full = []
_small = []


def full_text():
    f = open(os.path.join(DATA, 'message_template.msg'), 'rb')
    try:
        return f.read()
    finally:
        f.close()


def xml_text():
    f = open(os.path.join(DATA, 'message.xml'), 'rb')
    try:
        return f.read()
    finally:
        f.close()


def full():
    """reference dictionary of the embedded template"""
    if not _full:
        _full.append(refcodec.Dictionary(refcodec.parse_template(full_text())))
    return _full[0]


XML_HEAD = ('<?xml version="1.0"?><llsd><map><key>serverDefaults</key><map></map>'
            '<key>messages</key><map>%s</map><key>capBans</key><map></map>'
            '<key>maxQueuedEvents</key><integer>100</integer><key>messageBans</key><map></map></map></llsd>')


def xml_of(flavors):
    return XML_HEAD % ''.join(['<key>%s</key><map><key>flavor</key><string>%s</string></map>' % nf
                               for nf in sorted(flavors.items())])


def template_file(text, name='t.msg'):
    p = os.path.join(WORK, '%s-%d' % (name, os.getpid()))
    f = open(p, 'wb')
    f.write(text)
    f.close()
    return p


def small(names, xml=None, extra=''):
    """makes the embedded template and message.xml small, so that constructing
    objects is cheap; the code under test must not have been imported yet"""
    from pyogp.lib.base.message import data
    text = 'version 2.0\n' + ''.join([refcodec.source_of(full().by_name[n]) for n in names]) + extra
    data.msg_tmpl = open(template_file(text, 'small.msg'))
    data.msg_details = xml_of(xml or {'EnableSimulator': 'llsd'})
    return refcodec.Dictionary(refcodec.parse_template(text))
