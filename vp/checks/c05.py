"""C05: results do not depend on history, caching or repetition."""

from collections import Counter
import copy
import os
import pickle
import re
import struct
import subprocess
import sys

from vp import batch, focus, gen, har, hostile, hp, htmlrep, textrep, wire
from vp.ref import rules

PID = 'C05'
RULE = ('Every exchange is first judged alone in a pristine process (forked '
        'before anything was checked), then together with others in one '
        'process with a long history: in several orders, built and checked and '
        'rendered in different interleavings, repeated, with header values '
        'shared between different headers and messages, and with floods of '
        'other values that overflow the parser memory. Notices and both '
        'reports must be the same each time; the lists passed in must stay '
        'as they were; checking or rendering again must change nothing. '
        'Reports of several files must consist of the reports of each, and '
        'messages read from a capture must have the notices of the same '
        'messages built through the API. Non-trivial: the exchange has '
        'notices.')
ASSUMPTIONS = ['identifiers of highlighting references carry no meaning',
               'a process forked after import is as good as a new one']


def plan(tier):
    k = 1 if tier == 'quick' else 25
    return [('history', 32 * k, 4), ('again', 1000 * k, 80),
            ('files', 100 * k, 13), ('captured', 500 * k, 63),
            ('process', 16 * k, 2)]


def REQUIRE(tier):
    return {'pristine': 1000, 'compared': 4000, 'reports compared': 1500,
            'overflowed': 20, 'shared value': 300, 'same objects': 200,
            'checked again': 800, 'rendered again': 800, 'files': 80,
            'processes': 40, 'captured': 500, 'captured trailers': 50}


# -- results of an exchange

REF = re.compile(rb' data-ref-(id|to)="[^"]*"')


def notices_of(exch):
    """IDs and severities on each object."""
    return [[(n.id, str(n.severity)) for n in o.notices]
            for o in [exch] + ([exch.request] if exch.request else []) +
            list(exch.responses)]


def normal(ns):
    return [sorted(x) for x in ns]


def html_view(data, remarks=True):
    out = []
    for e in htmlrep.read(data):
        ms = [(m['start'], m['remark'] if remarks else None, [t for _, t in m['entries']],
               [t for _, t in m['trailers']], m['body_title'], m['body'],
               [a.attrs.get('href') for a in m['elem'].find('a')],
               notice_view(m['notices'])) for m in e['messages']]
        out.append((ms, notice_view(e['notices'])))
    return out


def notice_view(ns):
    return sorted((n['id'], n['sev'], n['title'], tuple(n['paras']))
                  for n in ns)


def text_view(data):
    return [(e['marker'], sorted(e['notices']),
             [(r['marker'], sorted(r['notices'])) for r in e['responses']])
            for e in textrep.read(data)]


def same_html(a, b):
    a, b = REF.sub(b'', a), REF.sub(b'', b)
    return a == b or html_view(a) == html_view(b)


def same_text(a, b):
    return a == b or text_view(a) == text_view(b)


# -- pristine processes

class Nursery:
    """Forks processes in which nothing has been checked yet."""

    def __init__(self):
        self.r1, w1 = os.pipe()
        r2, self.w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.r1)
            os.close(self.w2)
            try:
                self.serve(r2, w1)
            finally:
                os._exit(0)
        os.close(w1)
        os.close(r2)

    @staticmethod
    def read(fd):
        def exactly(n):
            out = b''
            while len(out) < n:
                more = os.read(fd, min(n - len(out), 1 << 20))
                if not more:
                    raise EOFError
                out += more
            return out
        n, = struct.unpack('>Q', exactly(8))
        return pickle.loads(exactly(n))

    @staticmethod
    def write(fd, obj):
        data = pickle.dumps(obj)
        data = struct.pack('>Q', len(data)) + data
        while data:
            data = data[os.write(fd, data):]

    def serve(self, r, w):
        while True:
            try:
                spec = self.read(r)
            except EOFError:
                return
            r3, w3 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    out = alone(spec)
                except Exception as e:      # pylint: disable=broad-except
                    out = repr(e)
                self.write(w3, out)
                os._exit(0)
            os.close(w3)
            try:
                out = self.read(r3)
            except EOFError:
                out = 'the process died'
            os.close(r3)
            os.waitpid(pid, 0)
            self.write(w, out)

    def ask(self, spec):
        self.write(self.w2, spec)
        return self.read(self.r1)


NURSERY = None


def alone(spec):
    exch = hp.check(spec)
    ns = notices_of(exch)
    return ns, hp.report('text', [exch]), hp.report('html', [exch])


def setup(shard, rec):
    global NURSERY
    focus.near_now = gen.date       # the clock goes on while we compare
    if shard == 'history':
        NURSERY = Nursery()


def finish(shard, rec):
    if NURSERY is not None:
        os.close(NURSERY.w2)
        os.waitpid(NURSERY.pid, 0)


# -- workload

SHARED = ['x', '1', '0', 'gzip', 'close', 'no-cache', 'max-age=5', '*', '"a"',
          'W/"a"', 'text/plain', 'text/plain;q=0.5', 'utf-8', 'en', 'bytes',
          'bytes=0-1', 'chunked', '', 'a, b', 'a=b', 'a="b"', 'foo;bar=baz',
          'Basic YTpi', 'Bearer abc', 'h2=":443"', 'h2="a:1"; ma=1', 'clear',
          'GET', '/', 'http://example.com/', 'example.com',
          'Mon, 01 Jan 2018 00:00:00 GMT', 'Mon Jan  1 00:00:00 2018',
          '</x>; rel=next', '</x>; rel="next"; title="a"', 'for=_a', '1.1 a',
          'x/1 (y)', '100-continue', 'websocket', '199 - "x"', 'return=minimal',
          'form-data; name=x', 'attachment; filename="a"', 'foo , ,bar',
          'trailers', 'TE', 'Foo', 'X-Foo', 'gzip;q=0', 'a;b;a=1;a=2',
          'max-age="5", max-age=6', '5', '-5', 'bytes 0-1/2', 'deflate, gzip',
          'GET, POST', 'example.com:80', 'foo, foo', 'no-cache="Foo"',
          '1018', '1018 resp', 'max-age = 5', 'a = b', 'foo ; bar']
PLACES = ['method', 'target', 'reason', 'version']


def exchange(rng, pool):
    r = rng.random()
    if r < .3:
        spec = gen.exchange(rng, .3)
    elif r < .75:
        spec = focus.RECIPES[rng.choice(sorted(rules.AREAS))](rng)
    else:
        spec = hostile.poison(gen.exchange(rng, .3), rng)
    # the same values in different headers and messages
    msgs = ([spec['req']] if spec['req'] else []) + spec['resps']
    for m in msgs:
        m['headers'] = list(m['headers'])
        if rng.random() < .7:
            names = gen.REQUEST_HEADERS if 'method' in m else \
                gen.RESPONSE_HEADERS
            for _ in range(rng.choice([1, 2, 4])):
                n = rng.choice([n for n in names if n != 'HTTPolice-Silence'])
                v = rng.choice(pool).encode()
                if rng.random() < .5:
                    m['headers'] = [h for h in m['headers']
                                    if h[0].lower() != n.lower()]
                m['headers'].insert(rng.randint(0, len(m['headers'])), (n, v))
        if rng.random() < .1:
            v = rng.choice(pool)
            if 'method' in m:
                m[rng.choice(['method', 'target'])] = v
            else:
                m['reason'] = v
        if rng.random() < .1:
            m['trailers'] = list(m.get('trailers') or []) + [
                (rng.choice(['ETag', 'Link', 'Age', 'Foo', 'Warning']),
                 rng.choice(pool).encode())]
    return spec


def flood(rng, n):
    """Fill the parser memory with something else."""
    hs = []
    for k in range(n):
        t = b'%x' % rng.getrandbits(28)
        hs.append((rng.choice(['Server', 'Allow', 'Vary', 'Via', 'ETag']),
                   rng.choice([b't%s' % t, b'"%s"' % t, b'1.1 %s' % t])))
        if len(hs) == 50:
            hp.check(dict(req=None, resps=[hp.resp(200, hs)]))
            hs = []


def deep(spec):
    return pickle.dumps([[dict(m, headers=list(m['headers']),
                               trailers=list(m.get('trailers') or []))
                          for m in ([spec['req']] if spec['req'] else []) +
                          spec['resps']]])


class Live:
    """An exchange built from a spec, and the lists that were passed in."""

    def __init__(self, spec, donors=None):
        self.spec = spec
        self.given = []
        req = None
        if spec['req']:
            r = spec['req']
            req = hp.httpolice.Request(
                r.get('scheme', 'http'), r['method'], r['target'],
                r['version'], self.keep(r['headers'], donors), r['body'],
                self.keep(r['trailers'], donors) if r.get('trailers') else None,
                remark=r.get('remark'))
        resps = [hp.httpolice.Response(
            r['version'], r['status'], r['reason'],
            self.keep(r['headers'], donors), r['body'],
            self.keep(r['trailers'], donors) if r.get('trailers') else None,
            remark=r.get('remark')) for r in spec['resps']]
        self.resps = resps
        self.given.append((resps, list(resps), 'responses'))
        self.exch = hp.httpolice.Exchange(req, resps)

    def keep(self, entries, donors):
        """The list to pass in; possibly one that was passed in before."""
        lst = None
        key = pickle.dumps(list(entries))
        if donors is not None:
            lst = donors.get(key)
        if lst is None:
            lst = list(entries)
            if donors is not None:
                donors[key] = lst
        self.given.append((lst, list(entries), 'headers'))
        return lst

    def untouched(self, rec):
        for lst, was, what in self.given:
            if len(lst) != len(was) or any(
                    a is not b and (what != 'headers' or tuple(a) != tuple(b))
                    for a, b in zip(lst, was)):
                rec.fail('%s list changed' % what, 'a list of %s passed in is '
                         'now %r' % (what, lst), self.spec)
        e, spec = self.exch, self.spec
        want = [spec['req']] if spec['req'] else []
        have = [e.request] if e.request is not None else []
        if len(have) != len(want) or len(e.responses) != len(spec['resps']):
            rec.fail('messages changed', 'exchange has %r' % (e,), spec)
            return
        for m, d in zip(have + list(e.responses), want + spec['resps']):
            if isinstance(d['body'], bytes) and m.body != d['body']:
                rec.fail('body changed', 'body is now %r' % (m.body,), spec)
            got = [(str(h.name).lower(), h.value) for h in m.header_entries]
            exp = [(n.lower(), v) for n, v in d['headers']]
            if [n for n, _ in got] != [n for n, _ in exp] or any(
                    isinstance(b, bytes) and isinstance(a, bytes) and
                    a.strip() != b.strip()
                    for (_, a), (_, b) in zip(got, exp)):
                rec.fail('entries changed', 'header_entries is now %r' %
                         (m.header_entries,), spec)


def judge(rec, live, base, how, report=True):
    spec = live.spec
    ns, text, html = base
    rec.count('compared')
    got = normal(notices_of(live.exch))
    if got != normal(ns):
        rec.fail('history: notices', '%s: notices are %r, but alone they were '
                 '%r' % (how, diff(got, ns), diff(ns, got)), spec)
        return False
    if report:
        rec.count('reports compared')
        out = hp.report('text', [live.exch])
        if not same_text(out, text):
            rec.fail('history: text', '%s: text report is %r, but alone it was '
                     '%r' % (how, out, text), spec)
            return False
        out = hp.report('html', [live.exch])
        if not same_html(out, html):
            a, b = html_view(out), html_view(html)
            rec.fail('history: html', '%s: HTML report has %s' % (
                how, first_difference(a, b)), spec)
            return False
        again = normal(notices_of(live.exch))
        if again != got:
            rec.fail('rendering: notices', '%s: notices change by rendering: '
                     '%r to %r' % (how, diff(got, again), diff(again, got)),
                     spec)
            return False
    return True


def diff(a, b):
    return [sorted((Counter(x) - Counter(y)).elements())
            for x, y in zip(a, b)]


def first_difference(a, b):
    if type(a) is type(b) and isinstance(a, (list, tuple)) and \
            len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return first_difference(x, y)
    return '%.600r, but alone it had %.600r' % (a, b)


def history(i, rng, rec):
    pool = rng.sample(SHARED, rng.choice([3, 8, 20]))
    specs = [exchange(rng, pool) for _ in range(30)]
    for s in specs[:5]:             # the same exchange more than once
        specs.append(copy.deepcopy(s))
    # near copies: one value moved to another header or another place
    for _ in range(8):
        s = copy.deepcopy(rng.choice(specs))
        ms = [m for m in ([s['req']] if s['req'] else []) + s['resps']
              if m['headers']]
        if ms:
            m = rng.choice(ms)
            k = rng.randrange(len(m['headers']))
            names = gen.REQUEST_HEADERS if 'method' in m else \
                gen.RESPONSE_HEADERS
            v = m['headers'][k][1]
            m['headers'][k] = (rng.choice(names), v)
            if rng.random() < .3 and isinstance(v, bytes):
                m['headers'][k] = (m['headers'][k][0], v.swapcase())
        specs.append(s)
    rec.count('shared value', sum(
        any(v in [p.encode() for p in pool] for _, v in m['headers'])
        for s in specs for m in ([s['req']] if s['req'] else []) + s['resps']))
    base = []
    for s in specs:
        b = NURSERY.ask(s)
        rec.count('pristine')
        if isinstance(b, str):
            rec.fail('alone', b, s)
            return
        base.append(b)
        if any(b[0]):
            rec.nontrivial(s)
            rec.sample(s)
    frozen = [deep(s) for s in specs]
    donors = {} if rng.random() < .5 else None
    for rnd in range(3):
        order = list(range(len(specs)))
        rng.shuffle(order)
        how = rng.choice(['one by one', 'built first', 'checked first',
                          'backwards'])
        lives = {}
        if rnd == 1:
            flood(rng, 600)
            rec.count('overflowed')
        if how == 'one by one':
            for k in order:
                live = Live(specs[k], donors)
                hp.httpolice.check_exchange(live.exch)
                lives[k] = live
                if not judge(rec, live, base[k], how, rng.random() < .4):
                    return
                if rng.random() < .1:
                    flood(rng, rng.choice([5, 20, 100]))
        else:
            for k in order:
                lives[k] = Live(specs[k], donors)
                if how == 'checked first':
                    hp.httpolice.check_exchange(lives[k].exch)
            if how != 'checked first':
                for k in reversed(order) if how == 'backwards' else order:
                    hp.httpolice.check_exchange(lives[k].exch)
            rng.shuffle(order)
            for k in order:
                if not judge(rec, lives[k], base[k], how, rng.random() < .4):
                    return
        if donors is not None:
            rec.count('same objects', len(lives))
        # all of them in one report
        some = rng.sample(order, 10)
        exchs = [lives[k].exch for k in some]
        out = text_view(hp.report('text', exchs))
        want = [x for k in some for x in text_view(base[k][1])]
        if out != want:
            rec.fail('joint: text', 'one text report of several exchanges has '
                     + first_difference(out, want), [specs[k] for k in some])
            return
        out = html_view(hp.report('html', exchs))
        want = [x for k in some for x in html_view(base[k][2])]
        if out != want:
            rec.fail('joint: html', 'one HTML report of several exchanges has '
                     + first_difference(out, want), [specs[k] for k in some])
            return
        for k, live in lives.items():
            live.untouched(rec)
            if deep(specs[k]) != frozen[k]:
                rec.fail('input changed', 'the exchange passed in is now %r' %
                         (specs[k],), specs[k])
                return


def again(i, rng, rec):
    """Repeating checks and reports."""
    if rng.random() < .85:
        spec = exchange(rng, SHARED)
        live = Live(spec)
        exch = live.exch
    else:
        inb, outb = wire.hostile_pair(rng)
        spec = {'inbound': inb, 'outbound': outb}
        exchs = wire.read(inb, outb)
        if not exchs:
            return
        live, exch = None, rng.choice(exchs)
    hp.httpolice.check_exchange(exch)
    ns = normal(notices_of(exch))
    shown = {}
    acts = []
    for _ in range(5):
        act = rng.choice(['check', 'text', 'html', 'list', 'pair'])
        acts.append(act)
        if act == 'check':
            hp.httpolice.check_exchange(exch)
            rec.count('checked again')
        elif act == 'list':
            for o in [exch, exch.request] + list(exch.responses):
                if o is not None:
                    # the list is the caller's to change
                    got = o.notices
                    if isinstance(got, list):
                        got.clear()
        else:
            rec.count('rendered again')
            kind = 'text' if act != 'html' else 'html'
            out = hp.report(kind, [exch] * (2 if act == 'pair' else 1))
            view = (text_view if kind == 'text' else html_view)(out)
            if act == 'pair':
                half = len(view) // 2
                if view[:half] != view[half:]:
                    rec.fail('twice in a report', 'an exchange that is twice in '
                             'a report differs: ' + first_difference(
                                 view[half:], view[:half]), spec)
                    return
                view = view[:half]
            if shown.setdefault(kind, view) != view:
                rec.fail('rendering: ' + kind, 'after %r, the report has %s' % (
                    acts, first_difference(view, shown[kind])), spec)
                return
        now = normal(notices_of(exch))
        if now != ns:
            rec.fail('repetition: ' + act, 'after %r, notices are %r, before '
                     'they were %r' % (acts, diff(now, ns), diff(ns, now)),
                     spec)
            return
    if live is not None:
        live.untouched(rec)
        # and the same as when nothing is repeated
        other = normal(notices_of(hp.check(spec)))
        if other != ns:
            rec.fail('second copy', 'a second copy has notices %r, the first '
                     'had %r' % (diff(other, ns), diff(ns, other)), spec)
    if any(ns):
        rec.nontrivial((spec, acts))


def files(i, rng, rec):
    """A report of several files consists of the reports of each."""
    with wire.Tmp() as tmp:
        fmt = rng.choice(['har', 'har', 'combined'])
        paths, what = [], []
        if fmt == 'har' and rng.random() < .5:
            # entries of one file, against files with one entry each
            data, _ = har.har(rng, rng.choice([2, 3, 6]))
            whole = tmp.put('all.har', har.dump(data, rng))
            for k, e in enumerate(data['log']['entries']):
                d = copy.deepcopy(data)
                d['log']['entries'] = [e]
                b = har.dump(d, rng)
                paths.append(tmp.put('%d.har' % k, b))
                what.append(b)
            wholes = [whole]
        else:
            for k in range(rng.choice([2, 3, 4])):
                if fmt == 'har':
                    d, _ = har.har(rng)
                    b = har.dump(d, rng)
                else:
                    inb, outb = batch.pair(rng)
                    if wire.COMBINED_OUT in inb:
                        inb = b''
                    b = wire.COMBINED_IN + inb + wire.COMBINED_OUT + outb
                paths.append(tmp.put('%d' % k, b))
                what.append(b)
            if rng.random() < .4:
                paths.append(paths[0] + 'copy')
                with open(paths[-1], 'wb') as f:
                    f.write(what[0])
            wholes = paths
        rec.count('files')
        rec.nontrivial(what)
        for kind, view in [('text', text_view),
                           ('html', lambda d: html_view(d, False))]:
            whole = sorted(map(repr, view(batch.run(fmt, kind, wholes).out)))
            parts = sorted(repr(x) for p in paths
                           for x in view(batch.run(fmt, kind, [p]).out))
            if whole != parts:
                rec.fail('files: ' + kind, 'together: %.500r; one by one: '
                         '%.500r' % ([x for x in whole if x not in parts],
                                     [x for x in parts if x not in whole]),
                         {'fmt': fmt, 'files': what})
                return


def captured(i, rng, rec):
    """Read from a capture, messages have the notices they always have."""
    inb, outb, _, _ = wire.wf_connection(rng)
    got = wire.read(inb, outb, rng.choice(['streams', 'combined']))
    for e in got:
        hp.httpolice.check_exchange(e)
        if e.request is None:
            continue
        spec = {'req': dict(wire.seen_request(e.request),
                            scheme=e.request.scheme),
                'resps': [wire.seen_response(r) for r in e.responses]}
        want = normal(notices_of(hp.check(spec)))
        have = normal(notices_of(e))
        have = [[n for n in x if n[0] not in (1011, 1012)] for x in have]
        want = [[n for n in x if n[0] not in (1011, 1012)] for x in want]
        rec.count('captured')
        if any(m.trailer_entries for m in [e.request] + list(e.responses)):
            rec.count('captured trailers')
        if have != want:
            rec.fail('captured', 'read from a capture, notices are %r; built '
                     'through the API, %r' % (have, want),
                     {'inbound': inb, 'outbound': outb, 'spec': spec})
            return


def process(i, rng, rec):
    """The program itself, started anew."""
    with wire.Tmp() as tmp:
        fmt, paths, what = batch.files(tmp, rng, 3)
        for kind, view in [('text', text_view), ('html', html_view)]:
            here = view(batch.run(fmt, kind, paths).out)
            for seed in rng.sample(['0', '1', '2', '3', 'random'], 2):
                p = subprocess.run(
                    [sys.executable, '-B', '-m', 'httpolice.cli', '-i', fmt,
                     '-o', kind, '--'] + paths, stdout=subprocess.PIPE,
                    stderr=subprocess.PIPE, timeout=300,
                    env=dict(os.environ, PYTHONHASHSEED=seed,
                             PYTHONPATH=os.environ.get('VP_REPO', '/repo')))
                rec.count('processes')
                if p.stderr or view(p.stdout) != here:
                    rec.fail('process: ' + kind, 'in a new process (hash seed '
                             '%s): %s %r' % (seed, first_difference(
                                 view(p.stdout), here), p.stderr[-300:]),
                             {'fmt': fmt, 'files': what})
                    return


def case(shard, i, rng, rec):
    {'history': history, 'again': again, 'files': files,
     'captured': captured, 'process': process}[shard](i, rng, rec)
