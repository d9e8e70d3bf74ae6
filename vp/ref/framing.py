"""An independent reading of RFC 7230 framing, for two byte streams.

Written from RFC 7230 Section 3 and the texts of notices 1001-1012, 1016,
1027, 1224, 1298.  Limits that are HTTPolice's own choice: a line has at most
16 KiB, a body has at most 1 GiB.

The result is a list of items:
  ('exchange', request or None, [response, ...])
  ('box', notice id, offset or None)
A message is a dict: heading fields, 'headers' and 'trailers' as lists of
(name, value), 'body' (bytes, or UNKNOWN), 'notices' (set of framing notices).
"""

import gzip
import re
import zlib

MAX_LINE = 16 * 1024
MAX_BODY = 1024 ** 3
UNKNOWN = 'UNKNOWN'
FRAMING_IDS = {1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010,
               1011, 1012, 1016, 1027, 1224, 1298}

TOKEN = re.compile(rb"[!#$%&'*+\-.^_`|~0-9A-Za-z]+\Z")
BUILTIN = {b'chunked', b'compress', b'x-compress', b'deflate', b'gzip',
           b'x-gzip', b'identity'}


class Bad(Exception):
    pass


class Src:

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.sane = True
        self.touched = False
        self.pending = set()

    @property
    def eof(self):
        return self.touched and self.pos == len(self.data)

    @property
    def good(self):
        return self.sane and not self.eof

    def line(self):
        """A line without its end."""
        self.touched = True
        window = self.data[self.pos:self.pos + MAX_LINE]
        nl = window.find(b'\n')
        if nl < 0:
            self.pos += len(window)
            raise Bad
        self.pos += nl + 1
        line = window[:nl]
        if line.endswith(b'\r'):
            return line[:-1]
        self.pending.add(1224)
        return line

    def next(self):
        return self.data[self.pos:self.pos + 1]

    def take(self, n):
        self.touched = True
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        if len(r) < n:
            raise Bad
        return r

    def rest(self):
        return self.take(len(self.data) - self.pos)


def fields(src):
    r = []
    while src.next() not in (b'', b'\r', b'\n'):
        line = src.line()
        if b':' not in line:
            raise Bad
        name, value = line.split(b':', 1)
        while src.next() in (b' ', b'\t'):
            src.pending.add(1016)
            value += b' ' + src.line().lstrip(b' \t')
        r.append((name.decode('iso-8859-1'), value.strip(b' \t')))
    return r


def end_of_heading(src):
    if src.line() != b'':
        raise Bad


def split_list(value):
    """Split at commas outside of quoted strings; None if quotes are off."""
    out, cur, i = [], b'', 0
    inq = False
    while i < len(value):
        c = value[i:i + 1]
        if inq:
            if c == b'\\':
                cur += value[i:i + 2]
                i += 2
                continue
            if c == b'"':
                inq = False
        elif c == b'"':
            inq = True
        elif c == b',':
            out.append(cur)
            cur = b''
            i += 1
            continue
        cur += c
        i += 1
    out.append(cur)
    return out


def te_codings(headers, grammar):
    """All transfer codings, in order; None for each malformed line."""
    present = False
    r = []
    for name, value in headers:
        if name.lower() != 'transfer-encoding':
            continue
        present = True
        if not grammar.matches('Transfer-Encoding', value):
            r.append(None)
            continue
        for el in split_list(value):
            el = el.strip(b' \t')
            if el:
                r.append(re.split(rb'[ \t;]', el)[0].lower())
    return r if present else None


def content_length(headers):
    """None if absent, UNKNOWN if malformed (the last one counts)."""
    r = None
    for name, value in headers:
        if name.lower() == 'content-length':
            r = int(value.lstrip(b'0')[:1000] or b'0') \
                if re.match(rb'[0-9]+\Z', value) else UNKNOWN
    return r


def unchunk(src):
    out = []
    size = 0
    while True:
        line = src.line()
        digits = line.split(b';', 1)[0].rstrip(b' \t')
        if not re.match(rb'[0-9A-Fa-f]+\Z', digits):
            raise Bad
        n = int(digits, 16)
        if n == 0:
            break
        size += n
        if size > MAX_BODY:
            return None
        out.append(src.take(n))
        end_of_heading(src)
    trailers = fields(src)
    end_of_heading(src)
    return b''.join(out), trailers


def undo(msg, codings):
    """Undo transfer codings, outermost (last) first."""
    for coding in reversed(codings):
        body = msg['body']
        if body is UNKNOWN:
            return
        if coding is None:
            msg['body'] = UNKNOWN
        elif coding == b'chunked':
            msg['notices'].add(1002)
            msg['body'] = UNKNOWN
        elif coding in (b'gzip', b'x-gzip', b'deflate'):
            try:
                if coding == b'deflate':
                    d = zlib.decompressobj()
                    out = d.decompress(body)
                    if not d.eof or d.unused_data:
                        raise zlib.error
                else:
                    out = gzip.decompress(body)
                msg['body'] = out
            except (zlib.error, OSError, EOFError):
                msg['notices'].add(1027)
                msg['body'] = UNKNOWN
        else:
            msg['notices'].add(1003)
            msg['body'] = UNKNOWN


def chunked_body(src, msg):
    msg['body'] = UNKNOWN
    try:
        r = unchunk(src)
    except Bad:
        src.sane = False
        msg['notices'].add(1005)
        return
    if r is None:
        src.sane = False
        msg['notices'].add(1298)
        return
    msg['body'], msg['trailers'] = r
    msg['notices'] |= src.pending
    src.pending = set()


def sized_body(src, msg, n):
    msg['body'] = UNKNOWN
    if n is UNKNOWN:
        src.sane = False
    elif n > MAX_BODY:
        src.sane = False
        msg['notices'].add(1298)
    else:
        try:
            msg['body'] = src.take(n)
        except Bad:
            src.sane = False
            msg['notices'].add(1004)


def heading(src, parse_line):
    start = src.pos
    try:
        line = src.line()
        msg = parse_line(line)
        msg['headers'] = fields(src)
        end_of_heading(src)
    except Bad:
        src.sane = False
        return None
    msg['trailers'] = []
    msg['offset'] = start
    msg['notices'] = src.pending
    src.pending = set()
    return msg


def request_line(line):
    m = re.match(rb'([^ ]*) ([^ ]*) (HTTP/[0-9]\.[0-9])\Z', line, re.S)
    if not m:
        raise Bad
    method, target, version = [x.decode('iso-8859-1') for x in m.groups()]
    return {'method': method, 'target': target, 'version': version}


def status_line(line):
    m = re.match(rb'(HTTP/[0-9]\.[0-9]) ([0-9][0-9][0-9]) (.*)\Z', line, re.S)
    if not m:
        raise Bad
    version, status, reason = [x.decode('iso-8859-1') for x in m.groups()]
    return {'version': version, 'status': int(status), 'reason': reason}


def read_request(src, grammar):
    msg = heading(src, request_line)
    if msg is None:
        return None
    te = te_codings(msg['headers'], grammar)
    cl = content_length(msg['headers'])
    if te is not None:
        if te[-1] == b'chunked':
            chunked_body(src, msg)
            undo(msg, te[:-1])
        else:
            # cannot tell where it ends
            msg['body'] = UNKNOWN
            msg['notices'].add(1001)
            src.sane = False
    elif cl:
        sized_body(src, msg, cl)
    else:
        msg['body'] = b''
    return msg


def read_response(src, req, grammar):
    msg = heading(src, status_line)
    if msg is None:
        return None
    st = msg['status']
    te = te_codings(msg['headers'], grammar)
    cl = content_length(msg['headers'])
    method = req['method'] if req else None
    if st == 101:
        msg['body'] = b''
        msg['notices'].add(1011)
        src.sane = False
    elif method == 'CONNECT' and 200 <= st <= 299:
        msg['body'] = b''
        msg['notices'].add(1012)
        src.sane = False
    elif 100 <= st <= 199 or st in (204, 304) or method == 'HEAD':
        msg['body'] = b''
    elif te is not None:
        if te[-1] == b'chunked':
            chunked_body(src, msg)
            undo(msg, te[:-1])
        else:
            msg['body'] = src.rest()
            undo(msg, te)
    elif cl is not None:
        sized_body(src, msg, cl)
    else:
        msg['body'] = src.rest()
    return msg


def read_responses(src, req, grammar):
    """Responses to one request; second item: did a heading fail?"""
    resps = []
    while src.good:
        msg = read_response(src, req, grammar)
        if msg is None:
            return resps, True
        resps.append(msg)
        if not 100 <= msg['status'] <= 199 or msg['status'] == 101:
            break
    return resps, False


def read(inbound, outbound, grammar):
    items = []
    qs = Src(inbound) if inbound is not None else None
    rs = Src(outbound) if outbound is not None else None
    if qs is not None:
        while qs.good:
            req = read_request(qs, grammar)
            if req is None:
                items.append(('box', 1006, None))
                break
            resps, failed = [], False
            if rs is not None and rs.good:
                resps, failed = read_responses(rs, req, grammar)
            items.append(('exchange', req, resps))
            if failed:
                items.append(('box', 1009, None))
            if resps and (resps[-1]['status'] == 101 or
                          (req['method'] == 'CONNECT' and
                           200 <= resps[-1]['status'] <= 299)):
                qs.sane = False
        if not qs.eof:
            items.append(('box', 1007, qs.pos))
    if rs is not None and rs.good:
        if qs is not None:
            items.append(('box', 1008, None))
        while rs.good:
            resps, failed = read_responses(rs, None, grammar)
            if resps:
                items.append(('exchange', None, resps))
            if failed:
                items.append(('box', 1009, None))
    if rs is not None and not rs.eof:
        items.append(('box', 1010, rs.pos))
    return items
