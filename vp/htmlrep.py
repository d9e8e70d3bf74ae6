"""Reads an HTML report back, strictly.

``parse`` builds a tree and refuses anything that is not plainly well-formed;
``read`` turns the tree into what a user sees: exchanges, messages, notices.
"""

import html
import re

VOID = {'meta', 'hr', 'br', 'base', 'link', 'img', 'input'}
KNOWN_TAGS = {'html', 'head', 'body', 'title', 'meta', 'script', 'style', 'base',
              'h1', 'h2', 'h3', 'hr', 'div', 'section', 'p', 'code', 'span',
              'pre', 'a', 'cite', 'abbr', 'q', 'var', 'br', 'link', 'em', 'i',
              'b', 'ul', 'ol', 'li', 'strong', 'small', 'header', 'footer',
              'article', 'main', 'nav', 'dl', 'dt', 'dd', 'table', 'tr', 'td',
              'th', 'details', 'summary', 'aside', 'time', 'samp', 'kbd'}
KNOWN_ATTRS = {'class', 'href', 'title', 'data-ref-id', 'data-ref-to', 'lang',
               'charset', 'name', 'content', 'type', 'target', 'id', 'rel'}


class Malformed(Exception):
    pass


class Elem:

    def __init__(self, tag, attrs):
        self.tag = tag
        self.attrs = attrs
        self.kids = []

    @property
    def classes(self):
        return self.attrs.get('class', '').split()

    def text(self):
        return ''.join(k if isinstance(k, str) else k.text()
                       for k in self.kids)

    def walk(self):
        yield self
        for k in self.kids:
            if not isinstance(k, str):
                yield from k.walk()

    def find(self, tag=None, cls=None):
        return [e for e in self.walk() if e is not self and
                (tag is None or e.tag == tag) and
                (cls is None or cls in e.classes)]

    @property
    def elems(self):
        return [k for k in self.kids if not isinstance(k, str)]


TAG = re.compile(r'<(/?)([a-zA-Z][a-zA-Z0-9]*)((?:\s+[a-zA-Z-]+="[^"<>]*")*)'
                 r'\s*>')
ATTR = re.compile(r'\s+([a-zA-Z-]+)="([^"<>]*)"')
ENTITY = re.compile(r'&(#x[0-9a-fA-F]+|#[0-9]+|[a-zA-Z]+);')
NAMED = {'amp', 'lt', 'gt', 'quot', 'apos', 'nbsp'}
# Not allowed in HTML documents at all, not even as character references
BAD_CHARS = re.compile('[\x00-\x08\x0b\x0e-\x1f\x7f-\x9f\ufdd0-\ufdef\ufffe'
                       '\uffff\ud800-\udfff]')


def unescape(s, where):
    pos = 0
    while True:
        i = s.find('&', pos)
        if i < 0:
            break
        m = ENTITY.match(s, i)
        if not m or (m[1][0] != '#' and m[1] not in NAMED):
            raise Malformed('bare ampersand in %s: %r' % (where, s[i:i + 40]))
        pos = m.end()
    if '<' in s or '>' in s:
        raise Malformed('angle bracket in %s: %r' % (where, s[:80]))
    r = html.unescape(s) if pos else s
    m = BAD_CHARS.search(r)
    if m:
        raise Malformed('character %r in %s: %r' % (
            m[0], where, r[max(0, m.start() - 20):m.start() + 20]))
    return r


def parse(data):
    """The root element."""
    try:
        s = data.decode('utf-8')
    except UnicodeDecodeError as e:
        raise Malformed('not UTF-8: %s' % e)
    m = re.match(r'\s*<!DOCTYPE html>', s)
    if not m:
        raise Malformed('no doctype')
    pos = m.end()
    root = Elem('#root', {})
    stack = [root]
    while pos < len(s):
        i = s.find('<', pos)
        if i < 0:
            i = len(s)
        if i > pos:
            stack[-1].kids.append(unescape(s[pos:i], 'text'))
            pos = i
            continue
        m = TAG.match(s, pos)
        if not m:
            raise Malformed('not a tag: %r' % s[pos:pos + 60])
        pos = m.end()
        tag = m[2].lower()
        if tag not in KNOWN_TAGS:
            raise Malformed('strange element %r' % tag)
        if m[1]:
            if m[3] or stack[-1].tag != tag:
                raise Malformed('</%s> where <%s> is open: %r' % (
                    tag, stack[-1].tag, s[max(0, pos - 60):pos]))
            stack.pop()
            continue
        attrs = {}
        for name, value in ATTR.findall(m[3]):
            if name.lower() in attrs:
                raise Malformed('duplicate attribute %r' % name)
            if name.lower() not in KNOWN_ATTRS:
                raise Malformed('strange attribute %r' % name)
            attrs[name.lower()] = unescape(value, 'attribute')
        e = Elem(tag, attrs)
        stack[-1].kids.append(e)
        if tag in ('script', 'style'):
            end = s.find('</%s>' % tag, pos)
            if end < 0:
                raise Malformed('<%s> not closed' % tag)
            e.kids.append(s[pos:end])
            pos = end + len(tag) + 3
        elif tag not in VOID:
            stack.append(e)
    if len(stack) > 1:
        raise Malformed('<%s> not closed' % stack[-1].tag)
    if [e.tag for e in root.elems] != ['html'] or \
            [e.tag for e in root.elems[0].elems] != ['head', 'body']:
        raise Malformed('not html(head, body)')
    return root.elems[0]


def squeeze(s):
    """White space as it is shown (outside <pre>)."""
    return ' '.join(s.split())


def read_notice(div):
    h3 = div.elems[0]
    abbr, ident, title = h3.elems
    return {'class': [c for c in div.classes if c != 'notice'],
            'sev': abbr.text().strip(), 'sev_title': abbr.attrs.get('title'),
            'id': int(ident.text()), 'title': squeeze(title.text()),
            'paras': [squeeze(e.text()) for e in div.elems[1:]],
            'title_elem': title, 'elem': div,
            'refs': [r for e in div.walk()
                     for r in e.attrs.get('data-ref-to', '').split()]}


def notices_under(elem):
    r = []
    for e in elem.elems:
        if 'complaints' in e.classes:
            for n in e.elems:
                r.append(read_notice(n))
    return r


def read(data):
    """[{'messages': [...], 'notices': [...]}] as shown in the report."""
    root = parse(data)
    body = root.elems[1]
    out = []
    for ex in body.elems:
        if 'exchange' not in ex.classes:
            continue
        messages = []
        for sec in ex.elems:
            if sec.tag != 'section':
                continue
            disp, = [e for e in sec.elems if 'message-display' in e.classes]
            m = {'entries': [], 'trailers': [], 'remark': None, 'body': None,
                 'body_title': None, 'start': None, 'start_parts': None,
                 'elem': sec, 'body_shown': False}
            for e in disp.elems:
                if 'message-remark' in e.classes:
                    m['remark'] = e.text()
                elif e.tag == 'h2':
                    m['start'] = squeeze(e.text())
                    m['start_parts'] = [x.text() for x in e.find('span')]
                elif 'header-entry' in e.classes:
                    m['entries'].append((e.attrs.get('data-ref-id'), e.text()))
                elif 'body-display' in e.classes:
                    m['body_shown'] = True
                    for x in e.elems:
                        if x.tag == 'h3':
                            m['body_title'] = squeeze(x.text())
                        elif x.tag == 'pre':
                            m['body'] = x.text()
                elif 'trailer' in e.classes:
                    for x in e.elems:
                        if 'header-entry' in x.classes:
                            m['trailers'].append((x.attrs.get('data-ref-id'),
                                                  x.text()))
                else:
                    raise Malformed('unexpected %s in message' % e.tag)
            m['notices'] = notices_under(sec)
            messages.append(m)
        out.append({'messages': messages, 'notices': notices_under(ex)})
    return out
