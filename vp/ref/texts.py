"""What the text of a notice must say, given what it is about.

``pattern(n, fills, msg, req)`` is a regular expression for the title and the
explanation of notice `n` (vp/ref/notices.json), joined by NUL, with the
placeholders filled in from `fills` (see ``Message.tell`` in vp/ref/rules.py)
and from the message; a placeholder about which nothing is known can stand for
anything, but for the same thing wherever it appears.
"""

import json
import os
import re

from vp.ref import rules
from vp.ref.values import okay

with open(os.path.join(os.path.dirname(__file__), 'notices.json')) as _f:
    NOTICES = {int(k): v for k, v in json.load(_f).items()}

# These are shown as they should be spelled; others in the letter case in which
# they were sent
EXACT = {'header', 'entry', 'place', 'msg.method', 'msg.request.method',
         'uppercase', 'bad', 'good', 'char', 'actual', 'correct', 'authority'}
NUL = '\x00'


def placeholders(n):
    doc = NOTICES[n]
    return [p[0] for part in [doc['title']] + doc['text']
            if part != 'exception' for p in part if isinstance(p, list)]


def letters(s):
    out = []
    for c in s:
        n = ord(c)
        if c in ' \t\r\n':
            out.append(r'\s*')
        elif c.isspace():
            out.append('(?:\\s|[^\x00])?')
        elif n < 32 or 0x7f <= n < 0xa0 or 0xd800 <= n < 0xe000 or \
                0xfdd0 <= n < 0xfdf0 or n & 0xfffe == 0xfffe:
            out.append('[^\x00]?')
        else:
            out.append(re.escape(c))
    return ''.join(out)


def literal(s):
    core = s.strip()
    r = re.escape(core).replace('\\ ', ' ')
    if not core:
        return r'\s*'
    return (r'\s*' if s[0].isspace() else '') + r + \
        (r'\s*' if s[-1].isspace() else '')


def filling(ref, value):
    """A pattern for that value."""
    if hasattr(value, 'pattern'):
        return value.pattern
    if isinstance(value, rules.OneOf):
        return '(?:%s)' % '|'.join(filling(ref, v) for v in value)
    r = letters(str(value))
    if ref not in EXACT:
        r = '(?i:%s)' % r
    return r


def from_message(ref, msg, req):
    """The value of msg.something, or None."""
    path = ref.split('.')
    if path[0] != 'msg' or msg is None:
        return None
    path.pop(0)
    if path[0] == 'request':
        path.pop(0)
        msg = req
        if msg is None:
            return None
    if path[0] in ('status', 'method', 'version'):
        return msg.d[path[0]]
    if path[0] != 'headers':
        return None
    if path[1] == 'content_type':
        ct = msg.h_content_type
        return ct.value[0] if ct.ok else None
    if path[1] == 'cache_control':
        return msg.cc('max-age')
    v = msg.h(path[1].replace('_', '-')).value
    return v if okay(v) and isinstance(v, int) else None


def pattern(n, fills, msg=None, req=None):
    doc = NOTICES[n]
    groups = {}
    parts = []
    for part in [doc['title']] + doc['text']:
        if part == 'exception':
            parts.append('[^\x00]+(?:\x00[^\x00]+)*')
            continue
        out = []
        for p in part:
            if isinstance(p, str):
                out.append(literal(p))
                continue
            ref, = p
            if ref in groups:
                out.append('(?P=%s)' % groups[ref])
                continue
            v = fills.get(ref)
            if v is None:
                v = from_message(ref, msg, req)
            groups[ref] = 'g%d' % len(groups)
            out.append('(?P<%s>%s)' % (groups[ref], '[^\x00]*' if v is None
                                       else filling(ref, v)))
        parts.append(r'\s*%s\s*' % ''.join(out))
    return re.compile('\x00'.join(parts), re.S)


def shown(notice):
    """A notice as read by vp/htmlrep.py, in one string."""
    # (those without text are references to something for highlighting)
    return '\x00'.join([notice['title']] + [p for p in notice['paras'] if p])
