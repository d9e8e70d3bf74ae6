"""C27: exchanges are processed as a stream within bounded memory."""

import base64
import datetime
import encodings
import fnmatch
import gc
import io
import json
import os
import random
import re
import subprocess
import sys
import urllib.parse
import weakref

import httpolice
from httpolice import cli, inputs
from httpolice.reports import html
from vp import focus, gen, hp, wire

PID = 'C27'
RULE = ('Resources are watched while many exchanges pass through. Shard live: '
        'while a report pulls exchanges from a generator, earlier exchanges '
        'and messages must be gone (weak references after a collection) and '
        'already written out. Shard read: while an input format is iterated '
        'over, how far files were read, which were opened (audit hook) and '
        'which stay open (/proc/self/fd) must correspond to the exchanges '
        'produced so far, and no file stays open after the end, an error or '
        'an early stop. Shard cli: both together on whole runs. Shard grow: '
        'allocated blocks are compared after rounds of always new names and '
        'values (with everything in the parser\'s memory displaced by the '
        'same fixed values), and must not grow. Shard rss: peak memory of '
        'command-line processes on captures much larger than what they may '
        'use. Non-trivial: every exchange that passes.')
ASSUMPTIONS = ['a combined or HAR file is read as a whole, and one exchange '
               'of every open connection may be held to order them by time',
               'memory that Python itself allocates per exchange and frees '
               'on garbage collection is not counted']


def plan(tier):
    k = 1 if tier == 'quick' else 10
    return [('live', 48 * k, 4), ('read', 320 * k, 20), ('cli', 64 * k, 4),
            ('grow', 8 * k, 1), ('rss', 6 * k, 1)]


def REQUIRE(tier):
    return {'live exchanges': 1500, 'live text': 15, 'live html': 15,
            'written before next': 1200, 'read': 300, 'positions': 1500,
            'opens in order': 200, 'stopped early': 30, 'errors': 5,
            'flow connections': 100, 'cli exchanges': 1500, 'rounds': 20,
            'grow exchanges': 4000, 'rss': 6}


def setup(shard, rec):
    sys.addaudithook(_hook)


OPENED = None


def _hook(event, args):
    if OPENED is not None and event == 'open' and isinstance(
            args[0], (str, bytes)):
        OPENED.append(os.fsdecode(args[0]))


def open_files(folder):
    """{path: position} of the files below `folder` that are open"""
    r = {}
    for fd in os.listdir('/proc/self/fd'):
        try:
            path = os.readlink('/proc/self/fd/' + fd)
            if path.startswith(folder + '/'):
                with open('/proc/self/fdinfo/' + fd) as f:
                    r[path] = int(f.readline().split()[1])
        except OSError:
            pass
    return r


# -- reports

class Sink:

    def __init__(self):
        self.n = 0
        self.tail = b''

    def write(self, data):
        self.n += len(data)
        self.tail = (self.tail + data)[-400000:]

    def flush(self):
        pass


def any_spec(rng):
    if rng.random() < .7:
        return focus.RECIPES[rng.choice(sorted(focus.RECIPES))](rng)
    return gen.exchange(rng, .15)


def live(rng, rec):
    kind = rng.choice(['text', 'html'])
    n = rng.choice([20, 40, 80])
    refs, sink = [], Sink()
    worst = [0, 0]
    late = []

    def exchanges():
        has_notices = False
        for k in range(n):
            if k:
                gc.collect()
                alive = [j for j, rs in refs if any(r() is not None
                                                    for r in rs)]
                if len(alive) > worst[0]:
                    worst[:] = [len(alive), k]
                if has_notices:
                    rec.count('written before next')
                    if b'serial-%d-' % (k - 1) not in sink.tail:
                        late.append(k - 1)
                sink.tail = b''
            spec = any_spec(rng)
            spec['req'] = spec['req'] or hp.req()
            spec['req']['target'] = '/serial-%d-' % k
            if spec['req']['method'] == 'CONNECT':
                spec['req']['method'] = 'GET'
            exch = hp.check(spec)
            has_notices = kind == 'html' or bool(hp.flat_ids(exch))
            refs.append((k, [weakref.ref(o) for o in
                             [exch, exch.request] + exch.responses]))
            rec.count('live exchanges')
            yield exch
            del exch

    {'text': httpolice.text_report,
     'html': httpolice.html_report}[kind](exchanges(), sink)
    rec.count('live ' + kind)
    if worst[0] > 2:
        rec.fail('live:%s' % kind, '%d earlier exchanges are still there when '
                 'exchange %d is read' % tuple(worst), None)
    if late:
        rec.fail('late:%s' % kind, 'exchanges %r are not yet in the report '
                 'when the next one is read' % late[:5], None)
    gc.collect()
    left = sum(any(r() is not None for r in rs) for _, rs in refs)
    if left:
        rec.fail('left:%s' % kind, '%d of %d exchanges are still there after '
                 'the report' % (left, n), None)
    rec.nontrivial(('live', kind, n, rng.random()))


# -- inputs

def connection(rng, tag, n, start=None, size=2000):
    """-> (inbound, outbound, ends of responses in outbound, of requests)"""
    inb = outb = b''
    ends, rends = [], []
    for k in range(n):
        body = b'x' * rng.randint(0, size)
        t = '/%s-%d-' % (tag, k)
        inb += ('POST %s HTTP/1.1\r\nHost: a\r\nContent-Length: %d\r\n\r\n' %
                (t, len(body))).encode() + body
        date = ''
        if start is not None:
            date = 'Date: %s\r\n' % gen.imf(
                start + datetime.timedelta(seconds=k)).decode()
        body = b'y' * rng.randint(0, size)
        if rng.random() < .3:
            outb += ('HTTP/1.1 200 OK\r\n%sTransfer-Encoding: chunked\r\n'
                     '\r\n' % date).encode() + wire.chunked(body, [], rng)
        else:
            outb += ('HTTP/1.1 200 OK\r\n%sContent-Length: %d\r\n\r\n' %
                     (date, len(body))).encode() + body
        ends.append(len(outb))
        rends.append(len(inb))
    return inb, outb, ends, rends


def har_file(rng, tag, n, size=2000):
    entries = []
    for k in range(n):
        text = 'z' * rng.randint(0, size)
        entries.append({
            'startedDateTime': '2016-01-05T12:00:00Z', 'time': 1,
            'request': {'method': 'GET', 'url': 'http://a/%s-%d-' % (tag, k),
                        'httpVersion': 'HTTP/1.1', 'cookies': [],
                        'headers': [{'name': 'Host', 'value': 'a'}],
                        'queryString': [], 'headersSize': -1, 'bodySize': 0},
            'response': {'status': 200, 'statusText': 'OK',
                         'httpVersion': 'HTTP/1.1', 'cookies': [],
                         'headers': [{'name': 'Content-Type',
                                      'value': 'application/octet-stream'}],
                         'content': {'size': len(text), 'encoding': 'base64',
                                     'mimeType': 'application/octet-stream',
                                     'text': base64.b64encode(
                                         text.encode()).decode()},
                         'redirectURL': '', 'headersSize': -1,
                         'bodySize': len(text)},
            'cache': {}, 'timings': {'send': 0, 'wait': 0, 'receive': 0}})
    return json.dumps({'log': {'version': '1.2', 'entries': entries,
                               'creator': {'name': 'demo', 'version': '1'}}})\
        .encode()


class Source:
    """Files of a format, and what may be read of them when."""

    def __init__(self, tmp, rng, fmt=None, per=None, size=2000, files=None):
        self.rng = rng
        self.fmt = fmt or rng.choice(['streams', 'req-stream', 'resp-stream',
                                      'combined', 'har', 'tcpflow'])
        self.paths = []
        self.limits = []    # per connection: {path: [end of message k]}
        self.counts = []
        m = files or rng.choice([1, 2, 3, 5])
        if self.fmt == 'tcpflow':
            m = files or rng.choice([2, 5, 12])
        base = datetime.datetime(2016, 1, 5, 12)
        for c in range(m):
            n = per or rng.choice([1, 3, 10, 30])
            tag = 'c%d' % c
            # Connections of a tcpflow capture do not overlap.
            start = base + datetime.timedelta(seconds=1000 * c) \
                if self.fmt == 'tcpflow' else None
            inb, outb, ends, rends = connection(rng, tag, n, start, size)
            limits = {}
            if self.fmt == 'har':
                self.paths.append(tmp.put('%d.har' % c,
                                          har_file(rng, tag, n, size)))
            elif self.fmt == 'combined':
                self.paths.append(tmp.put(
                    '%d.comb' % c, wire.COMBINED_IN + inb +
                    wire.COMBINED_OUT + outb))
            elif self.fmt == 'tcpflow':
                ts = int((start - datetime.datetime(1970, 1, 1))
                         .total_seconds())
                names = ['%d-010.0.0.1-%05d-010.0.0.2-00080-0' % (ts, c),
                         '%d-010.0.0.2-00080-010.0.0.1-%05d-0' % (ts, c)]
                limits = {tmp.put(names[0], inb): rends,
                          tmp.put(names[1], outb): ends}
            else:
                if self.fmt != 'resp-stream':
                    self.paths.append(tmp.put('%d.in' % c, inb))
                    limits[self.paths[-1]] = rends
                if self.fmt != 'req-stream':
                    self.paths.append(tmp.put('%d.out' % c, outb))
                    limits[self.paths[-1]] = ends
            self.limits.append(limits)
            self.counts.append(n)
        if self.fmt == 'tcpflow':
            self.paths = [tmp.dir]

    def index(self, exch, serial):
        """(connection, number in it) of an exchange"""
        if self.fmt == 'resp-stream':
            c = 0
            while serial >= self.counts[c]:
                serial -= self.counts[c]
                c += 1
            return c, serial
        c, k = str(exch.request.target).rsplit('/c', 1)[1].split('-')[:2]
        return int(c), int(k)


LEAK = .04          # blocks per exchange
SLACK = 70000       # what may be read ahead


def read(rng, rec):
    global OPENED
    with wire.Tmp() as tmp:
        big = rng.random() < .3
        src = Source(tmp, rng, size=30000 if big else 2000)
        trouble = rng.random() < .15 and src.fmt in ('combined', 'har')
        if trouble:
            src.paths.insert(
                rng.randint(1, len(src.paths)), rng.choice([
                    tmp.put('bad', b'nonsense'),
                    os.path.join(tmp.dir, 'missing')]))
        stop = rng.randrange(1, 10) if rng.random() < .25 else None
        data = {'format': src.fmt, 'counts': src.counts, 'stop': stop}
        serial, last = 0, None
        OPENED = []
        flow = 0
        it = None
        try:
            it = iter(inputs.formats[src.fmt](list(src.paths)))
            for exch in it:
                c, k = src.index(exch, serial)
                serial += 1
                pos = open_files(tmp.dir)
                for path, p in pos.items():
                    for cc, limits in enumerate(src.limits):
                        if path not in limits:
                            continue
                        # (the next exchange of a connection may be known)
                        at = k if cc == c else 0 if last is None or cc > c \
                            else len(limits[path]) - 1
                        top = limits[path][min(at + 1, len(limits[path]) - 1)]
                        rec.count('positions')
                        if p > top + SLACK:
                            rec.fail('read:ahead:' + src.fmt, 'after exchange '
                                     '%d, %d bytes are read, %d are needed' %
                                     (k, p, top), data)
                if src.fmt == 'tcpflow':
                    flow = max(flow, len(pos))
                if src.fmt in ('har', 'combined'):
                    # No file is read before it is its turn.
                    later = [p for p in OPENED if p.startswith(tmp.dir) and
                             src.paths.index(p) > c + trouble]
                    if later:
                        rec.fail('read:early:' + src.fmt, 'file %d is read '
                                 'before the exchanges of file %d are used' %
                                 (src.paths.index(later[0]), c), data)
                    rec.count('opens in order')
                    if src.fmt == 'combined' and len(pos) > 1 or len(pos) > 1:
                        rec.fail('read:open:' + src.fmt, 'files stay open: %r'
                                 % sorted(pos), data)
                last = c
                rec.nontrivial(('read', src.fmt, c, k, str(src.counts)))
                if stop is not None and serial >= stop:
                    rec.count('stopped early')
                    break
            del exch
        except (inputs.InputError, EnvironmentError) as exc:
            rec.count('errors')
            if not trouble:
                raise AssertionError('unexpected %r' % exc)
            del exc
        finally:
            OPENED = None
        it = None
        gc.collect()
        left = open_files(tmp.dir)
        if left:
            rec.fail('read:left:' + src.fmt, 'still open: %r' % sorted(left),
                     data)
        if flow > 6:
            rec.fail('read:flow', '%d files open at once, though the '
                     'connections do not overlap' % flow, data)
        rec.count('flow connections', len(src.counts) *
                  (src.fmt == 'tcpflow'))
        rec.count('read')


# -- the command line

def alive():
    gc.collect()
    return sum(isinstance(o, (httpolice.Exchange, httpolice.Request,
                              httpolice.Response))
               for o in gc.get_objects())


class Watcher:
    """Takes the report of a run, and looks around at times."""

    def __init__(self, tmp, every):
        self.tmp, self.every = tmp, every
        self.calls, self.worst, self.text = 0, 0, b''
        self.seen, self.most_open = [], 0

    def write(self, data):
        self.text += data
        self.calls += 1
        if self.calls % self.every == 0:
            self.worst = max(self.worst, alive())
            self.most_open = max(self.most_open,
                                 len(open_files(self.tmp.dir)))
        return len(data)

    def flush(self):
        pass


class Stdout:

    def __init__(self, buffer):
        self.buffer = buffer

    def write(self, s):
        raise AssertionError('report written as text')


def cli_run(rng, rec):
    kind = rng.choice(['text', 'html'])
    with wire.Tmp() as tmp:
        src = Source(tmp, rng, per=rng.choice([20, 40]),
                     files=rng.choice([1, 2, 3]))
        watcher = Watcher(tmp, rng.choice([5, 9]))
        argv = ['httpolice', '-i', src.fmt, '-o', kind, '--'] + src.paths
        before = alive()
        status = cli.run_cli(cli.parse_args(argv), Stdout(watcher),
                             io.StringIO())
        data = {'format': src.fmt, 'counts': src.counts, 'kind': kind}
        if status != 0:
            raise AssertionError('status %r' % status)
        # Per connection one exchange in waiting, then what is being read,
        # checked, and written: 3 objects each.
        m = len(src.counts) if src.fmt not in ('har', 'combined') else 1
        if watcher.worst - before > 3 * (m + 4):
            rec.fail('cli:alive:%s:%s' % (src.fmt, kind), '%d exchanges and '
                     'messages are there at once' % (watcher.worst - before),
                     data)
        gc.collect()
        if alive() > before:
            rec.fail('cli:left:%s:%s' % (src.fmt, kind), '%d exchanges and '
                     'messages are still there' % (alive() - before), data)
        if open_files(tmp.dir):
            rec.fail('cli:open:' + src.fmt, 'still open: %r' % sorted(
                open_files(tmp.dir)), data)
        rec.count('cli exchanges', sum(src.counts))
        rec.nontrivial(('cli', src.fmt, kind, str(src.counts),
                        rng.random()))


# -- growth

class Novel:
    """Names and values that were never seen before."""

    def __init__(self):
        self.n = 0

    def word(self):
        self.n += 1
        return 'w%dx' % (1000000 + self.n)

    def exchange(self, rng):
        spec = any_spec(rng)
        w = self.word
        req_hs = [
            (w(), b'1'), ('Cache-Control', w().encode()),
            ('Authorization', b'%s a=b' % w().encode()),
            ('Prefer', b'%s=1' % w().encode()),
            ('Accept', b'%s/%s' % (w().encode(), w().encode())),
            ('Forwarded', b'%s=%s' % (w().encode(), w().encode())),
            ('Range', b'%s=0-1' % w().encode()),
            ('TE', w().encode()), ('User-Agent', b'%s/1' % w().encode()),
            ('Cookie', b'%s=%s' % (w().encode(), w().encode())),
            ('Expect', w().encode()), ('Accept-Encoding', w().encode()),
            ('Accept-Language', b'en-%s' % w()[-7:].encode()),
            ('If-None-Match', b'"%s"' % w().encode())]
        resp_hs = [
            (w(), b'1'), ('Content-Encoding', w().encode()),
            ('Cache-Control', b'%s=%s' % (w().encode(), w().encode())),
            ('WWW-Authenticate', b'%s realm="%s"' % (w().encode(),
                                                     w().encode())),
            ('Content-Type', b'application/%s; %s=%s' % (
                w().encode(), w().encode(), w().encode())),
            ('Link', b'<%s>; rel=%s' % (w().encode(), w().encode())),
            ('Alt-Svc', b'%s=":443"; %s=1' % (w().encode(), w().encode())),
            ('Strict-Transport-Security', b'max-age=1; ' + w().encode()),
            ('Warning', b'199 %s "%s"' % (w().encode(), w().encode())),
            ('Content-Disposition', b'attachment; filename=' + w().encode()),
            ('Upgrade', w().encode()), ('Vary', w().encode()),
            ('Allow', w().upper().encode()), ('Via', b'1.1 ' + w().encode()),
            ('Trailer', w().encode()), ('Location', b'/' + w().encode()),
            ('Transfer-Encoding', w().encode()), ('Server', w().encode())]
        spec['req'] = spec['req'] or hp.req()
        if rng.random() < .3:
            spec['req']['method'] = w().upper()
        if rng.random() < .3:
            spec['req']['target'] = '/' + w()
        spec['req']['headers'] = spec['req']['headers'] + rng.sample(
            req_hs, 5)
        for r in spec['resps']:
            r['headers'] = r['headers'] + rng.sample(resp_hs, 5)
            if rng.random() < .3:
                r['reason'] = w()
            if rng.random() < .2 and r['status'] >= 200:
                r['status'] = rng.randrange(200, 1000)
        if rng.random() < .5 and spec['resps']:
            r = spec['resps'][-1]
            t = w()
            r['body'] = rng.choice(['{"%s": 1}', '{"%s', '<%s/>', '%s=%s' % (
                '%s', t)]).replace('%s', t).encode()
            r['headers'] = [h for h in r['headers'] if h[0].lower() not in (
                'content-type', 'content-encoding')] + [('Content-Type', (
                    rng.choice(['application/json', 'application/xml',
                                'text/html; charset=utf-8']).encode()))]
        return spec


def displace():
    """Fill what remembers the latest values with the same values always."""
    for k in range(700):
        req = httpolice.Request('http', 'GET', '/%d' % k, 'HTTP/1.1', [
            ('Host', b'h%d' % k), ('Date', b'Tue, 05 Jan 2016 12:00:00 GMT'),
            ('User-Agent', b'a/%d' % k), ('Accept', b'a/b;q=0.%d' % k)], b'')
        httpolice.check_exchange(httpolice.Exchange(req, []))


def foreign():
    """Things that the standard library remembers, to be left out."""
    encodings._cache.clear()
    re.purge()
    fnmatch._compile_pattern.cache_clear()
    sys._clear_type_cache()
    urllib.parse.clear_cache()
    # (Addresses of objects are remembered, which are limited in number, but
    # it takes thousands of exchanges until there are no new ones.)
    getattr(html, '_seen_ids', {}).clear()


def grow(rng, rec):
    kinds = rng.choice([['text'], ['html'], [], ['text', 'html']])
    novel = Novel()
    M = 150
    seed = rng.random()
    marks = []
    for _ in range(5):
        # The same exchanges every time, but for the novel words, so that
        # what is loaded lazily is there after the first round.
        rng2 = random.Random(seed)
        for k in range(M):
            exch = hp.check(novel.exchange(rng2))
            for kind in kinds:
                hp.report(kind, [exch])
            rec.count('grow exchanges')
        del exch
        displace()
        foreign()
        gc.collect()
        marks.append(sys.getallocatedblocks())
        rec.count('rounds')
    rises = [b - a for a, b in zip(marks[1:], marks[2:])]
    rec.count('blocks risen', max(0, max(rises)))
    rec.sample({'kinds': kinds, 'marks': marks})
    if min(rises) > LEAK * M:
        rec.fail('grow:%s' % '+'.join(kinds), 'memory grows by %s blocks in '
                 'rounds of %d exchanges' % (rises, M), None)
    rec.nontrivial(('grow', tuple(kinds), rng.random()))


# -- peak memory of processes

PEAK = '''
import resource, runpy, sys
from httpolice import cli
class Out:
    buffer = open('/dev/null', 'wb')
args = cli.parse_args(['httpolice'] + sys.argv[1:])
base = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
status = cli.run_cli(args, Out, sys.stderr)
print(status, base, resource.getrusage(resource.RUSAGE_SELF).ru_maxrss)
'''


def rss(i, rng, rec):
    fmt = ['streams', 'combined', 'har', 'req-stream', 'resp-stream'][i % 5]
    kind = ['text', 'html'][(i // 5 + i) % 2]
    with wire.Tmp() as tmp:
        if fmt in ('combined', 'har'):
            src = Source(tmp, rng, fmt, per=10, size=100000, files=60)
        else:
            src = Source(tmp, rng, fmt, per=600, size=200000, files=1)
        total = sum(os.path.getsize(p) for p in src.paths) // 1024
        script = tmp.put('peak.py', PEAK.encode())
        p = subprocess.run(
            [sys.executable, script, '-i', fmt, '-o', kind, '--'] + src.paths,
            env=dict(os.environ, PYTHONPATH=os.environ.get('VP_REPO',
                                                           '/repo')),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
            cwd=tmp.dir)
        if p.returncode:
            raise AssertionError(p.stderr.decode()[-500:])
        status, base, peak = map(int, p.stdout.split())
        rec.sample({'format': fmt, 'report': kind, 'total kB': total,
                    'base kB': base, 'peak kB': peak})
        rec.count('rss')
        rec.count('rss input kB', total)
        if peak - base > min(total * .6, 30000):
            rec.fail('rss:%s:%s' % (fmt, kind), 'peak memory grows by %d kB '
                     'on an input of %d kB' % (peak - base, total), None)
        rec.nontrivial(('rss', fmt, kind, total))


def case(shard, i, rng, rec):
    if shard == 'rss':
        rss(i, rng, rec)
    else:
        {'live': live, 'read': read, 'cli': cli_run, 'grow': grow}[shard](
            rng, rec)
