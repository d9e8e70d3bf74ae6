"""Payloads of known validity, without the parsers that HTTPolice uses."""

import gzip
import re
import zlib

import brotli

WS = ' \t\r\n'
NUMBER = re.compile(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?')
STRING = re.compile(r'"([^"\\\x00-\x1f]|\\["\\/bfnrt]|\\u[0-9a-fA-F]{4})*"')


def is_json(s):
    """RFC 8259, iteratively."""
    pos = 0
    stack = []
    state = 'value'             # what is expected next

    def skip(p):
        while p < len(s) and s[p] in WS:
            p += 1
        return p

    while True:
        pos = skip(pos)
        c = s[pos:pos + 1]
        if state == 'done':
            return c == ''
        if not c:
            return False
        if state in ('value', 'first item'):
            if c == ']' and state == 'first item':
                stack.pop()
                pos += 1
                state = 'after' if stack else 'done'
                continue
            if c == '{':
                stack.append('{')
                pos += 1
                state = 'first key'
                continue
            if c == '[':
                stack.append('[')
                pos += 1
                state = 'first item'
                continue
            for word in ('true', 'false', 'null'):
                if s.startswith(word, pos):
                    pos += len(word)
                    break
            else:
                m = STRING.match(s, pos) or NUMBER.match(s, pos)
                if not m:
                    return False
                pos = m.end()
            state = 'after' if stack else 'done'
        elif state in ('key', 'first key'):
            if c == '}' and state == 'first key':
                stack.pop()
                pos += 1
                state = 'after' if stack else 'done'
                continue
            m = STRING.match(s, pos)
            if not m:
                return False
            pos = skip(m.end())
            if s[pos:pos + 1] != ':':
                return False
            pos += 1
            state = 'value'
        elif state == 'after':
            if c == ',':
                state = 'key' if stack[-1] == '{' else 'value'
            elif c == {'{': '}', '[': ']'}[stack[-1]]:
                stack.pop()
                state = 'after' if stack else 'done'
            else:
                return False
            pos += 1


# -- JSON

CHARS = ['a', 'foo', '\xe9', '\u044f', '\u20ac', '\U0001f600', ' ', '/', "'",
         '\x7f', '\x85', '\u2028', '<', '\ufeff', '0']


def json_string(rng, chars=CHARS):
    return '"' + ''.join(
        rng.choice(chars) if rng.random() < .8 else
        rng.choice(['\\n', '\\"', '\\\\', '\\/', '\\u00e9', '\\ud83d\\ude00',
                    '\\u0000', '\\uD800', '\\b'])
        for _ in range(rng.choice([0, 1, 3, 8]))) + '"'


def json_value(rng, depth=0, chars=CHARS):
    def ws():
        return rng.choice(['', '', '', ' ', '\n', '\t', '\r\n  '])

    r = rng.random()
    if depth > 4 or r < .45:
        v = rng.choice([
            '0', '-0', '1', '-1.5', '1e5', '1E+05', '0.10', '-1.0e-10', '1e400',
            '12345678901234567890', '9' * 400, 'true', 'false', 'null',
            json_string(rng, chars), json_string(rng, chars)])
    elif r < .75:
        v = '{' + ws() + (ws() + ',' + ws()).join(
            json_string(rng, chars) + ws() + ':' + ws() +
            json_value(rng, depth + 1, chars)
            for _ in range(rng.choice([0, 1, 2, 3]))) + ws() + '}'
    else:
        v = '[' + ws() + (ws() + ',' + ws()).join(
            json_value(rng, depth + 1, chars)
            for _ in range(rng.choice([0, 1, 2, 3]))) + ws() + ']'
    return ws() + v + ws() if depth == 0 else v


ODD_JSON = ['', ' ', '{', '[1,]', '{"a":1,}', "{'a': 1}", '{a: 1}', '01', '1.',
            '.5', '+1', '-', '1e', '0x10', 'NaN', 'Infinity', '-Infinity',
            '[NaN]', '"\t"', '"\\x41"', '"\\u12"', '"abc', 'undefined', 'True',
            'None', '[1 2]', '{"a" 1}', '{"a"}', '{}{}', '[] []', '1 2', '//x',
            '/* x */ 1', '1 // x', '\ufeff{}', '"a" "b"', '[,]', '{,}', ']', '}',
            '\xa0{}', '{}\x0c', '\x0b1', '\u0663', '1\u0663', '1.\u0663',
            'foo({});', 'nul', 'nulll', '<html></html>', 'a=b', '--x', '-01',
            '1e5.5', '"\x00"', '"\x1f"', '"\x7f"', '\x00', '{}\x00', '[[]',
            '{"a":{"b":[}}', '"\\"', '{"a":1 "b":2}', ')]}\',\n{}', '1_000',
            '"\\u{41}"', '- 1', '1 .5']


def odd_json(rng):
    if rng.random() < .5:
        return rng.choice(ODD_JSON)
    s = json_value(rng)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randint(0, len(s))
        r = rng.random()
        if r < .4:
            s = s[:k] + s[k + 1:]
        elif r < .8:
            s = s[:k] + rng.choice('{}[],:"\\ \t\n0-.eE+a\x00\xa0tn/') + s[k:]
        else:
            s = s[:k]
    return s


# -- XML

def xml_text(rng, chars):
    return ''.join(
        rng.choice(chars) if rng.random() < .6 else
        rng.choice(['&amp;', '&lt;', '&#65;', '&#xe9;', '&#x1F600;', '&quot;',
                    '>', '\n', "'", '"', ']] ', '&apos;', '&gt;'])
        for _ in range(rng.choice([0, 1, 3, 6]))).replace(']]>', ']]')


def xml_element(rng, depth, chars):
    name = rng.choice(['a', 'foo', 'b-c', '_x', 'x.y', 'A1', 'p:q', 'a'])
    attrs = [' xmlns:p="urn:p"'] if name == 'p:q' or rng.random() < .1 else []
    for n in rng.sample(['x', 'y', 'xml:lang', 'id', 'z-1'],
                        rng.choice([0, 0, 1, 2])):
        q = rng.choice('"\'')
        attrs.append('%s%s=%s%s%s' % (
            rng.choice([' ', '\n', '  ']), n, q,
            xml_text(rng, chars).replace(q, '').replace('<', ''), q))
    a = ''.join(attrs) + rng.choice(['', '', ' '])
    if depth > 3 or rng.random() < .3:
        return '<%s%s/>' % (name, a)
    kids = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        r = rng.random()
        if r < .4:
            kids.append(xml_text(rng, chars))
        elif r < .75:
            kids.append(xml_element(rng, depth + 1, chars))
        elif r < .85:
            kids.append('<![CDATA[ <&> ]] > ' + rng.choice(chars) + ']]>')
        elif r < .95:
            kids.append('<!-- - <x> & -->')
        else:
            kids.append('<?pi some data ? >?>')
    return '<%s%s>%s</%s%s>' % (name, a, ''.join(kids), name,
                                rng.choice(['', '', ' ']))


def xml(rng, chars, decl=None):
    s = ''
    if decl is not None:
        s = '<?xml version="1.0"%s%s?>' % (
            ' encoding="%s"' % decl if decl else '',
            rng.choice(['', '', ' standalone="yes"']))
    s += rng.choice(['', '\n'] if s else [''])
    s += rng.choice(['', '', '<!-- x -->', '<?pi?>\n'])
    s += rng.choice(['', '', '', '<!DOCTYPE a>', '<!DOCTYPE html>',
                     '<!DOCTYPE a [<!ELEMENT a ANY>]>'])
    return s + xml_element(rng, 0, chars) + rng.choice(['', '\n', '<!-- y -->'])


ODD_XML = ['', ' ', 'x', '{}', '<a>', '</a>', '<a></b>', '<a/><b/>', '<a/>x',
           'x<a/>', '<a b=c/>', '<a b="1" b="2"/>', '<a>&foo;</a>', '<a>&</a>',
           '<a>&#0;</a>', '<a>&#x110000;</a>', '<a>\x01</a>', '<a><</a>',
           '<a b="<"/>', '<!-- -- --><a/>', '<a>]]></a>', '<A></a>', '<a',
           '<a/', '<a><b></a></b>', ' <?xml version="1.0"?><a/>', '<1a/>',
           '<a b/>', '<a>&amp</a>', '<?xml?><a/>', '<a><![CDATA[x</a>', '<>',
           '<!DOCTYPE a><!-- x -->', '<a><?xml version="1.0"?></a>',
           '<!DOCTYPE html><html><br></html>', '<html><p>x</html>', '< a/>',
           '<a b="1"c="2"/>', '<a>&#xZ;</a>', '<a></a', '<!DOCTYPE',
           '<a b=\'"/>', '<?xml version="1.0"?>', '<a/>\x00', '<a>\ufffe</a>',
           '<a>&#65</a>', '<a/ >', '</a><a>', '<a x="&nbsp;"/>', 'a=b', '%']


def odd_xml(rng, chars):
    if rng.random() < .6:
        return rng.choice(ODD_XML)
    s = xml_element(rng, 0, chars)
    how = rng.choice(['cut', 'amp', 'two', 'close', 'head'])
    if how == 'cut':            # An element always ends with '>'.
        return s[:rng.randint(1, len(s) - 1)] if not s[:-1].endswith('>') \
            else s[:-1]
    if how == 'amp':
        return '<r>' + s + ' & ' + s + '</r>'
    if how == 'two':
        return s + s
    if how == 'close':
        return '<r>' + s
    return 'x' + s


def bomb(rng, where):
    """XML with entity declarations; `where` must not be opened."""
    return rng.choice([
        '<!DOCTYPE a [<!ENTITY x "%s">%s]><a>&x9;</a>' % (
            'lol' * 10, ''.join('<!ENTITY x%d "%s">' % (
                k, ('&x%s;' % (k - 1 if k else '')) * 10)
                for k in range(10))),
        '<!DOCTYPE a [<!ENTITY x "%s">]><a>%s</a>' % ('y' * 50000, '&x;' * 5000),
        '<!DOCTYPE a [<!ENTITY x SYSTEM "file://%s">]><a>&x;</a>' % where,
        '<!DOCTYPE a [<!ENTITY x SYSTEM "%s">]><a b="z">&x;</a>' % where,
        '<!DOCTYPE a [<!ENTITY x PUBLIC "-//x" "http://127.0.0.1:9/x">]>'
        '<a>&x;</a>',
        '<!DOCTYPE a [<!ENTITY %% x SYSTEM "file://%s"> %%x;]><a/>' % where,
        '<!DOCTYPE a [<!ENTITY %% x "<!ENTITY y \'z\'>"> %%x;]><a/>'
        .replace('%%', '%'),
        '<!DOCTYPE a [<!ENTITY x "">]><a/>',
        '<?xml version="1.0"?>\n<!DOCTYPE a SYSTEM "file://%s" '
        '[<!ENTITY x "y">]>\n<a>&x;</a>' % where,
        '<!DOCTYPE a [<!ENTITY x "<a>&y;</a>"><!ENTITY y "&x;">]><a>&x;</a>',
        '<!DOCTYPE a [<!NOTATION n SYSTEM "n"><!ENTITY x SYSTEM "x" NDATA n>]>'
        '<a/>',
    ])


# -- multipart and forms

BOUNDARIES = ['x', 'AaB03x', '----WebKitFormBoundary7MA4YWxkTrZu0gW', 'a_b-c.d',
              '0', "a'(b)+,./:=?", 'a b', '=_x', '--', 'x' * 70, '1:2', '-']
TOKEN = re.compile(r"[!#$%&'*+.^_`|~0-9A-Za-z-]+\Z")


def boundary_param(b, rng):
    name = rng.choice(['boundary', 'boundary', 'Boundary', 'BOUNDARY'])
    if TOKEN.match(b) and rng.random() < .6:
        return '%s=%s' % (name, b)
    return '%s="%s"' % (name, b)


def multipart(b, rng, depth=0):
    nl = '\r\n'
    s = rng.choice(['', '', 'preamble' + nl, nl, 'a --' + b + nl])
    for _ in range(rng.choice([1, 1, 2, 3])):
        s += '--' + b + rng.choice(['', '', ' ', '\t ']) + nl
        if depth < 2 and rng.random() < .15:
            inner = 'in%d%s' % (depth, b.replace(' ', ''))[:60]
            s += 'Content-Type: multipart/mixed; boundary="%s"' % inner + 2 * nl
            s += multipart(inner, rng, depth + 1)
        else:
            s += rng.choice([
                '', 'Content-Type: text/plain' + nl,
                'Content-Disposition: form-data; name="x"' + nl,
                'content-type: application/json' + nl + 'X-Y: z' + nl])
            s += nl + rng.choice(['', 'hello', 'a' + nl + 'b', '{', '-', '\x00',
                                  '\xff\xfe', '--' + b + 'y' if b != '--'
                                  else 'z'])
        s += nl
    s += '--' + b + '--' + rng.choice(['', nl, nl + 'epilogue'])
    return s


def odd_multipart(b, rng):
    """No line is the boundary."""
    return rng.choice([
        '', 'x', '{}', '\r\n\r\n', '--' + b + 'y\r\n\r\nfoo\r\n--' + b + 'y--\r\n',
        b + '\r\n\r\nfoo\r\n' + b, 'z--' + b + '\r\n\r\nfoo\r\n', 'a=b&c=d',
        ' --' + b + '\r\n\r\n--' + b + ' --x', '-' + b + '\r\n\r\nx\r\n-' + b,
        '--' + b.swapcase() + 'Q\r\n\r\n', 'x' * 5000, '<a/>'])


FORM_GOOD = ('*-._0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
             'abcdefghijklmnopqrstuvwxyz')
FORM_LAX = ':;<>?'              # not in the standard's list, but not judged
FORM_BAD = bytes(c for c in range(256)
                 if chr(c) not in FORM_GOOD + FORM_LAX + '%&+=')


def form(rng):
    def word():
        return ''.join(rng.choice(FORM_GOOD) if rng.random() < .7 else
                       rng.choice(['+', '%20', '%D1%8F', '%0A', '%26'])
                       for _ in range(rng.choice([0, 1, 4, 9])))
    return '&'.join(rng.choice([word() + '=' + word(), word()])
                    for _ in range(rng.choice([1, 2, 4]))).encode()


# -- codings

def apply(coding, data, rng):
    c = coding.lower()
    if c in ('gzip', 'x-gzip'):
        if len(data) > 3 and rng.random() < .1:      # Several members.
            return gzip.compress(data[:3]) + gzip.compress(data[3:])
        return gzip.compress(data, rng.choice([0, 1, 6, 9]))
    if c == 'deflate':
        return zlib.compress(data, rng.choice([0, 1, 6, 9]))
    if c == 'br':
        return brotli.compress(data, quality=rng.choice([0, 4, 9]))
    raise ValueError(c)


def spoil(coding, data, coded, rng):
    """Something that does not decode with `coding`."""
    c = coding.lower()
    how = rng.choice(['cut', 'cut', 'plain', 'head', 'tail', 'raw', 'sum'])
    if how == 'cut' and len(coded) > 1:
        return coded[:rng.randint(1, len(coded) - 1)]
    if how == 'tail':
        return coded + b'garbage'
    if how == 'raw' and c == 'deflate':
        z = zlib.compressobj(9, zlib.DEFLATED, -15)
        return z.compress(data or b'x' * 20) + z.flush()
    if how == 'sum' and c in ('gzip', 'x-gzip', 'deflate'):
        k = {'deflate': 1}.get(c, 5)
        return coded[:-k] + bytes([coded[-k] ^ 1]) + coded[len(coded) - k + 1:]
    if c == 'br':
        return coded[:-1] if len(coded) > 1 else b'\xff\xff\xff'
    return b'plain text, not compressed'
